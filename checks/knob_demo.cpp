// C20 (demos): the demo's main is renamed; this main watches TBB while it runs. The value of the knob
// is sampled at every entry of a parallel algorithm (interposed tbb::detail::r1::execute_and_wait / wait).
#include <tbb/global_control.h>
#include <tbb/task_scheduler_observer.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
int demo_main(int argc, char **argv);
static std::atomic<long> lo { 1L << 60 }, hi { 0 }, samples { 0 };
static void sample() {
    long v = (long) tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); samples++;
    long x = lo; while (v < x && !lo.compare_exchange_weak(x, v)) {} x = hi; while (v > x && !hi.compare_exchange_weak(x, v)) {}
}
extern "C" void _ZN3tbb6detail2r116execute_and_waitERNS0_2d14taskERNS2_18task_group_contextERNS2_12wait_contextES6_(void *a, void *b, void *c, void *d) {
    typedef void (*F)(void*, void*, void*, void*); static F f = (F) dlsym(RTLD_NEXT, "_ZN3tbb6detail2r116execute_and_waitERNS0_2d14taskERNS2_18task_group_contextERNS2_12wait_contextES6_");
    sample(); f(a, b, c, d); sample();
}
extern "C" void _ZN3tbb6detail2r14waitERNS0_2d112wait_contextERNS2_18task_group_contextE(void *a, void *b) {
    typedef void (*F)(void*, void*); static F f = (F) dlsym(RTLD_NEXT, "_ZN3tbb6detail2r14waitERNS0_2d112wait_contextERNS2_18task_group_contextE");
    sample(); f(a, b); sample();
}
struct Watch : tbb::task_scheduler_observer {
    std::atomic<int> in { 0 }, peak { 0 };
    void on_scheduler_entry(bool) override { int k = ++in, p = peak; while (k > p && !peak.compare_exchange_weak(p, k)) {} }
    void on_scheduler_exit(bool) override { --in; }
};
int main(int argc, char **argv) {
    static Watch w; w.observe(true); int rc = demo_main(argc, argv);
    if (const char *f = std::getenv("KNOB_OUT")) { FILE *o = std::fopen(f, "w"); std::fprintf(o, "%ld %ld %ld %d\n", (long) samples, (long) lo, (long) hi, (int) w.peak); std::fclose(o); }
    w.observe(false); return rc;
}
