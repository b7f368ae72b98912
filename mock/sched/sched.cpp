#include "sched.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
enum { NSLOT = 17, NREADY = 1 << 16 };
enum State { IDLE, RUN, WAIT, BLOCKED };
struct Slot { int word; State st; ms_task *task; ms_group *waiting; pthread_t th; bool started; };
Slot slot[NSLOT];
ms_task *ready[NREADY]; long nready;
long budget = 1L << 60;
uint64_t rng_state;
int W = 1, limit_ = 0, active = 0, cur = 0;
long mean = 0, left_preempt = 0;
ms_stats st;
__thread int my_slot = -1;
__thread int no_preempt = 0;

uint64_t rnd() { uint64_t z = (rng_state += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
uint64_t below(uint64_t n) { return n <= 1 ? 0 : rnd() % n; }
void die(const char *m) { ssize_t r = write(2, m, strlen(m)); (void) r; abort(); }
void futex_wait(int *w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
void futex_wake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void refill() { if (mean <= 0 || left_preempt <= 0) { budget = 1L << 60; return; } budget = 1 + (long) below((uint64_t) mean * 2); }
int eff() { int w = W; if (limit_ && limit_ < w) w = limit_; return w < 1 ? 1 : w; }
long own_ready(ms_group *g) { for (long i = 0; i < nready; i++) if (ready[i]->group == g) return i; return -1; }
ms_task *take(long i) { ms_task *t = ready[i]; ready[i] = ready[--nready]; return t; }
bool can_run(int s) {
    switch (slot[s].st) { case RUN: case BLOCKED: return true; case WAIT: return slot[s].waiting->pending == 0 || own_ready(slot[s].waiting) >= 0; default: return false; }
}
// hand ready tasks to idle workers, by chance
void dispatch(bool force) {
    int busy = 0; for (int i = 1; i < NSLOT; i++) if (slot[i].st != IDLE) busy++;
    while (nready > 0 && busy < eff() - 1) {
        if (!force && below(4) == 0) return;
        int idle[NSLOT], n = 0; for (int i = 1; i < eff() && i < NSLOT; i++) if (slot[i].st == IDLE) idle[n++] = i;
        if (!n) return;
        int s = idle[below(n)]; slot[s].task = take((long) below(nready)); slot[s].st = RUN; busy++; st.on_workers++; force = false;
    }
}
void give(int s) {
    int me = my_slot; if (s == me) return;
    st.switches++; cur = s; futex_wake(&slot[s].word); futex_wait(&slot[me].word);
}
int pick_other(bool self_ok) {
    int c[NSLOT], n = 0; for (int i = 0; i < NSLOT; i++) if ((i != my_slot || self_ok) && can_run(i)) c[n++] = i;
    return n ? c[below(n)] : -1;
}
void exec(ms_task *t) { st.tasks++; t->run(t); }

void *worker(void *a) {
    my_slot = (int) (long) a;
    futex_wait(&slot[my_slot].word);
    while (true) {
        ms_task *t = slot[my_slot].task; slot[my_slot].task = 0;
        if (t) exec(t);
        // finished: go on with another ready task, or go idle
        dispatch(false);
        if (nready > 0 && my_slot < eff() && below(2)) { slot[my_slot].task = take((long) below(nready)); st.on_workers++; int o = pick_other(true); if (o >= 0) give(o); continue; }
        slot[my_slot].st = IDLE;
        int o = pick_other(false);
        if (o < 0) { dispatch(true); o = pick_other(false); }
        if (o < 0) die("stand-in scheduler: nothing left to run while a thread waits for tasks\n");
        st.switches++; cur = o; futex_wake(&slot[o].word); futex_wait(&slot[my_slot].word);
    }
    return 0;
}
void start_pool() {
    if (slot[1].started) return;
    for (int i = 1; i < NSLOT; i++) { slot[i].started = true; slot[i].st = IDLE;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
        if (pthread_create(&slot[i].th, &at, worker, (void*) (long) i)) die("stand-in scheduler: cannot create threads\n");
        pthread_attr_destroy(&at); }
}
bool scheduled() { return active && my_slot >= 0; }
} // namespace

extern "C" {
void ms_begin(uint64_t seed, int workers, long mean_interval, long max_preemptions) {
    my_slot = 0; cur = 0; slot[0].st = RUN; start_pool();
    rng_state = seed * 0x9e3779b97f4a7c15ULL + 99; rnd();
    W = workers < 1 ? 1 : workers > NSLOT - 1 ? NSLOT - 1 : workers; limit_ = 0; mean = mean_interval; left_preempt = max_preemptions; memset(&st, 0, sizeof st);
    nready = 0; active = 1; budget = 1L << 60;
}
void ms_end(void) { if (nready) die("stand-in scheduler: tasks were spawned and never waited for\n"); budget = 1L << 60; left_preempt = 0;
    for (long n = 0;; n++) {      // threads that were preempted between finishing a task and going idle
        int busy = 0; for (int i = 1; i < NSLOT; i++) if (slot[i].st != IDLE) busy = 1;
        if (!busy) break;
        int o = pick_other(false); if (o < 0 || n > 1000000) die("stand-in scheduler: tasks still run after the call returned\n"); give(o);
    }
    active = 0; budget = 1L << 60; }
void ms_set_limit(int l) { limit_ = l; }
int ms_workers(void) { return eff(); }
int ms_slot(void) { return my_slot < 0 ? 0 : my_slot; }
uint64_t ms_random(uint64_t n) { return below(n); }
void ms_spawn(ms_task *t) {
    __atomic_fetch_add(&t->group->pending, 1, __ATOMIC_RELAXED);
    if (!scheduled()) { exec(t); return; }
    if (nready >= NREADY) { exec(t); return; }
    ready[nready++] = t;
}
void ms_task_done(ms_group *g) { __atomic_fetch_sub(&g->pending, 1, __ATOMIC_RELAXED); }
void ms_wait(ms_group *g) {
    if (!scheduled()) return;
    Slot &me = slot[my_slot]; ms_group *ow = me.waiting; State os = me.st; int outer = no_preempt; no_preempt = 0;
    st.regions++; bool top = budget > (1L << 50); if (top) refill();
    while (g->pending > 0) {
        dispatch(false);
        long i = own_ready(g);
        bool inline_ok = i >= 0;
        me.st = WAIT; me.waiting = g;
        int o = pick_other(false);
        if (inline_ok && (o < 0 || below(eff() + 1) == 0 || eff() == 1)) {
            long n = 0; for (long j = 0; j < nready; j++) if (ready[j]->group == g) n++;
            long k = (long) below(n); for (long j = 0; j < nready; j++) if (ready[j]->group == g && k-- == 0) { i = j; break; }
            ms_task *t = take(i); me.st = RUN; exec(t); continue;
        }
        if (o >= 0) { give(o); continue; }
        dispatch(true); o = pick_other(false);
        if (o >= 0) { give(o); continue; }
        die("stand-in scheduler: deadlock, a thread waits for tasks that nobody can run\n");
    }
    me.st = os; me.waiting = ow; no_preempt = outer;
    if (top) budget = 1L << 60;
}
void ms_point(int one_in) {
    if (!scheduled() || no_preempt) return;
    if (one_in > 1 && below(one_in)) return;
    dispatch(false); int o = pick_other(true); if (o >= 0 && o != my_slot) give(o);
}
void ms_get_stats(ms_stats *s) { *s = st; }
void *ms_arena(unsigned long bytes) {
    static char *p, *e; bytes = (bytes + 63) & ~63UL;
    if (!p || (unsigned long) (e - p) < bytes) { unsigned long sz = bytes > (1UL << 22) ? bytes : (1UL << 22);
        p = (char*) syscall(SYS_mmap, 0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("stand-in scheduler: out of memory\n"); e = p + sz; }
    void *r = p; p += bytes; return r;
}
static void preempt_slow() {
    if (!scheduled() || no_preempt || cur != my_slot) { if (!active) budget = 1L << 60; else budget = 64; return; }
    refill(); left_preempt--; st.preemptions++;
    int e = errno; dispatch(false); int o = pick_other(true); if (o >= 0 && o != my_slot) give(o); errno = e;
}
void __sanitizer_cov_trace_pc(void) { if (__builtin_expect(--budget > 0, 1)) return; preempt_slow(); }

// blocking primitives used by the code under test: never block while holding the token
static void blocked() {
    State s = slot[my_slot].st; slot[my_slot].st = BLOCKED; dispatch(false); int o = pick_other(false);
    if (o < 0) { dispatch(true); o = pick_other(false); }
    if (o < 0) die("stand-in scheduler: deadlock on a lock\n");
    give(o); slot[my_slot].st = s;
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!scheduled()) return __real_pthread_mutex_lock(m);
    int r; long n = 0; while ((r = pthread_mutex_trylock(m)) == EBUSY) { if (++n > 2000000) die("stand-in scheduler: deadlock on a mutex\n"); blocked(); }
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!scheduled()) return __real_pthread_rwlock_rdlock(m);
    int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) blocked(); return r;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!scheduled()) return __real_pthread_rwlock_wrlock(m);
    int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) blocked(); return r;
}
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t *g) { int r = __real___cxa_guard_acquire(g); if (r) no_preempt++; return r; }
void __wrap___cxa_guard_release(uint64_t *g) { __real___cxa_guard_release(g); no_preempt--; }
void __wrap___cxa_guard_abort(uint64_t *g) { __real___cxa_guard_abort(g); no_preempt--; }
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { no_preempt++; int r = __real_pthread_once(o, f); no_preempt--; return r; }
}
