// A stand-in for oneTBB whose every legal execution can be chosen from a seed (see sched/sched.h):
// arbitrary partitions of ranges, arbitrary execution order and interleaving, accumulation runs over
// contiguous pieces that start from the identity, order-preserving join trees, arbitrary positions
// for concurrent push_backs.
#pragma once
#include "../sched/sched.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define TBB_VERSION_MAJOR 2021
#define TBB_VERSION_MINOR 11
#define TBB_INTERFACE_VERSION 12110
#define TBB_INTERFACE_VERSION_MAJOR 12
#define TBB_runtime_interface_version TBB_runtime_interface_version
#define PARMCB_STANDIN_TBB 1

extern "C" inline int TBB_runtime_interface_version_standin() { return TBB_INTERFACE_VERSION; }

namespace oneapi { namespace tbb {

struct split {};
class proportional_split { std::size_t l, r; public: proportional_split(std::size_t a = 1, std::size_t b = 1) : l(a), r(b) {} std::size_t left() const { return l; } std::size_t right() const { return r; } explicit operator split() const { return split(); } };

[[noreturn]] inline void standin_misuse(const char *m) { std::fprintf(stderr, "stand-in TBB: %s\n", m); std::abort(); }

// ---- tasks -------------------------------------------------------------------------------
namespace standin {
struct Group : ms_group {
    std::atomic<long> done { 0 };
    std::exception_ptr err; std::mutex em;
    std::atomic<bool> cancelled { false };
    Group() { pending = 0; }
    Group(const Group&) = delete;
    void note() { std::lock_guard<std::mutex> l(em); if (!err) { err = std::current_exception(); cancelled.store(true, std::memory_order_relaxed); } }
    void rethrow() { if (err) { std::exception_ptr e = err; err = nullptr; cancelled.store(false, std::memory_order_relaxed); std::rethrow_exception(e); } }
};
template<class F> struct Task : ms_task {
    F f; std::atomic<int> pub { 0 }; Group &g;
    Task(F &&ff, Group &gg) : f(std::move(ff)), g(gg) { run = &Task::go; group = &gg; }
    static void go(ms_task *t) {
        Task *me = static_cast<Task*>(t); me->pub.load(std::memory_order_acquire); Group &g = me->g;
        if (!g.cancelled.load(std::memory_order_relaxed)) { try { me->f(); } catch (...) { g.note(); } }
        delete me;
        g.done.fetch_add(1, std::memory_order_release); ms_task_done(&g);   // release only: tasks do not synchronise with each other
    }
};
template<class F> void spawn(Group &g, F f) {
    Task<F> *t = new Task<F>(std::move(f), g); t->pub.store(1, std::memory_order_release); ms_spawn(t);
}
inline void wait(Group &g) { ms_wait(&g); g.done.load(std::memory_order_acquire); }
inline std::uint64_t rnd(std::uint64_t n) { return ms_random(n); }

enum Style { WHOLE, UNIT, RANDOM, HALVES };
template<class R> R cut(R &r, long, typename R::standin_iterable* = 0) { return r.standin_cut(); }
template<class R> R cut(R &r, ...) { return R(r, split()); }
template<class R> void pieces(R r, std::vector<R> &out, int style, std::size_t budget, bool full) {
    if (!full && (style == WHOLE || out.size() + 1 >= budget)) { out.push_back(r); return; }
    if (!r.is_divisible() || (!full && style == RANDOM && rnd(3) == 0)) { out.push_back(r); return; }
    R right = full || style == HALVES ? R(r, split()) : cut(r, 0L);
    pieces(r, out, style, full ? budget : (out.size() + (budget - out.size()) / 2 + 1), full);
    pieces(right, out, style, budget, full);
}
template<class R> std::vector<R> partition(const R &r, bool full) {
    std::vector<R> out; static const int st[] = { WHOLE, UNIT, UNIT, RANDOM, RANDOM, RANDOM, HALVES, HALVES };
    int s = st[rnd(8)]; std::size_t budget = s == HALVES ? 2 + rnd(4 * (std::uint64_t) ms_workers()) : s == RANDOM ? 2 + rnd(24) : 64;
    pieces(R(r), out, s, budget, full);
    return out;
}
} // namespace standin

// ---- ranges ------------------------------------------------------------------------------
template<class V> class blocked_range {
public:
    typedef V const_iterator; typedef std::size_t size_type; typedef void standin_iterable;
    blocked_range(V b, V e, size_type g = 1) : b_(b), e_(e), g_(g) { if (g == 0) standin_misuse("grainsize must be positive"); }
    blocked_range(blocked_range &r, split) : b_(mid(r, (r.size()) / 2)), e_(r.e_), g_(r.g_) { r.e_ = b_; }
    blocked_range(blocked_range &r, proportional_split &) : blocked_range(r, split()) {}
    const_iterator begin() const { return b_; } const_iterator end() const { return e_; }
    size_type size() const { if (e_ < b_) standin_misuse("size() of a range whose end precedes its begin"); return size_type(e_ - b_); }
    size_type grainsize() const { return g_; }
    bool empty() const { return !(b_ < e_); }
    bool is_divisible() const { return g_ < size(); }
    blocked_range standin_cut() {
        size_type n = size(), lo = (g_ + 1) / 2, hi = n - lo; if (hi < lo) { lo = hi = n / 2; }
        size_type k = lo + standin::rnd(hi - lo + 1); if (k == 0) k = 1; if (k >= n) k = n - 1;
        blocked_range right(*this); right.b_ = mid(*this, k); e_ = right.b_; return right;
    }
private:
    static V mid(const blocked_range &r, size_type k) { return V(r.b_ + (typename std::conditional<std::is_integral<V>::value, V, std::ptrdiff_t>::type) k); }
    V b_, e_; size_type g_;
};
template<class R, class C = R> class blocked_range2d {
    blocked_range<R> r_; blocked_range<C> c_;
public:
    blocked_range2d(R rb, R re, std::size_t rg, C cb, C ce, std::size_t cg) : r_(rb, re, rg), c_(cb, ce, cg) {}
    blocked_range2d(R rb, R re, C cb, C ce) : r_(rb, re), c_(cb, ce) {}
    blocked_range2d(blocked_range2d &o, split s) : r_(o.r_), c_(o.c_) {
        bool row = o.r_.is_divisible() && (!o.c_.is_divisible() || standin::rnd(2));
        if (row) { blocked_range<R> x(o.r_, s); r_ = x; } else { blocked_range<C> x(o.c_, s); c_ = x; } }
    bool empty() const { return r_.empty() || c_.empty(); } bool is_divisible() const { return r_.is_divisible() || c_.is_divisible(); }
    const blocked_range<R>& rows() const { return r_; } const blocked_range<C>& cols() const { return c_; }
};

// ---- partitioners ------------------------------------------------------------------------
class simple_partitioner {}; class auto_partitioner {}; class static_partitioner {}; class affinity_partitioner { public: affinity_partitioner() {} affinity_partitioner(const affinity_partitioner&) = delete; };
class task_group_context { public: enum kind_type { isolated, bound }; task_group_context(kind_type = bound, std::uintptr_t = 0) {} bool is_group_execution_cancelled() const { return false; } bool cancel_group_execution() { return false; } void reset() {} };

// ---- parallel_for ------------------------------------------------------------------------
namespace standin {
template<class R, class B> struct ForRun {
    Group g; std::vector<R> ps;
    void node(std::size_t lo, std::size_t hi, const B *body) {
        while (hi - lo > 1) {
            std::size_t m = lo + 1 + rnd(hi - lo - 1), h = hi; std::unique_ptr<B> copy(new B(*body));
            spawn(g, [this, m, h, c = std::move(copy)]() { node(m, h, c.get()); }); hi = m;
        }
        R r(ps[lo]); const B &b = *body; b(r);
    }
};
template<class R, class B> void run_for(const R &range, const B &body, bool full) {
    if (range.empty()) return;
    ForRun<R, B> run; run.ps = partition(range, full); std::size_t n = run.ps.size();
    ForRun<R, B> *p = &run; spawn(run.g, [p, n, b = std::unique_ptr<B>(new B(body))]() { p->node(0, n, b.get()); });
    wait(run.g); run.g.rethrow();
}
template<class I, class F> struct IndexBody { I first, step; const F &f; void operator()(const blocked_range<I> &r) const { for (I i = r.begin(); i < r.end(); ++i) f((I) (first + i * step)); } };
template<class I, class F> void run_index(I first, I last, I step, const F &f, bool full) {
    if (step <= 0) throw std::invalid_argument("Step must be positive");
    if (last > first) { I n = (I) ((last - first - 1) / step + 1); IndexBody<I, F> b { first, step, f }; run_for(blocked_range<I>((I) 0, n), b, full); }
}
template<class P> struct is_part : std::false_type {};
template<> struct is_part<simple_partitioner> : std::true_type {}; template<> struct is_part<auto_partitioner> : std::true_type {};
template<> struct is_part<static_partitioner> : std::true_type {}; template<> struct is_part<affinity_partitioner> : std::true_type {};
template<class P> constexpr bool simple() { return std::is_same<typename std::decay<P>::type, simple_partitioner>::value; }
template<class P> using if_part = typename std::enable_if<is_part<typename std::decay<P>::type>::value>::type;
template<class I> using if_int = typename std::enable_if<std::is_integral<I>::value>::type;
} // namespace standin
template<class R, class B, class = typename std::enable_if<!std::is_integral<R>::value>::type> void parallel_for(const R &r, const B &b) { standin::run_for(r, b, false); }
template<class R, class B, class P, class = standin::if_part<P>, class = typename std::enable_if<!std::is_integral<R>::value>::type> void parallel_for(const R &r, const B &b, P &&) { standin::run_for(r, b, standin::simple<P>()); }
template<class R, class B, class P, class = standin::if_part<P>, class = typename std::enable_if<!std::is_integral<R>::value>::type> void parallel_for(const R &r, const B &b, P &&, task_group_context&) { standin::run_for(r, b, standin::simple<P>()); }
template<class R, class B, class = typename std::enable_if<!std::is_integral<R>::value>::type> void parallel_for(const R &r, const B &b, task_group_context&) { standin::run_for(r, b, false); }
template<class I, class F, class = standin::if_int<I>> void parallel_for(I a, I b, I s, const F &f) { standin::run_index<I>(a, b, s, f, false); }
template<class I, class F, class = standin::if_int<I>> void parallel_for(I a, I b, const F &f) { standin::run_index<I>(a, b, (I) 1, f, false); }
template<class I, class F, class P, class = standin::if_int<I>, class = standin::if_part<P>, class = void> void parallel_for(I a, I b, I s, const F &f, P &&) { standin::run_index<I>(a, b, s, f, standin::simple<P>()); }
template<class I, class F, class P, class = standin::if_int<I>, class = standin::if_part<P>, class = void, class = void> void parallel_for(I a, I b, const F &f, P &&) { standin::run_index<I>(a, b, (I) 1, f, standin::simple<P>()); }

// ---- parallel_reduce ---------------------------------------------------------------------
namespace standin {
template<class R, class B> struct ReduceRun {
    struct Join { Join *up; B *left; B *right; std::atomic<int> ref; Join(Join *u, B *l) : up(u), left(l), right(0), ref(2) {} ~Join() { delete right; } };
    Group g; std::vector<R> ps; std::vector<std::size_t> start;   // run i covers pieces start[i]..start[i+1]
    bool balanced;
    void node(std::size_t lo, std::size_t hi, B *body, Join *up) {
        while (hi - lo > 1) {
            std::size_t m = balanced ? lo + (hi - lo) / 2 : lo + 1 + rnd(hi - lo - 1), h = hi; Join *j = new Join(up, body);
            bool early = rnd(2);
            if (early) j->right = new B(*body, split());
            spawn(g, [this, m, h, j, early]() { if (!early) j->right = new B(*j->left, split()); node(m, h, j->right, j); });
            hi = m; up = j;
        }
        for (std::size_t i = start[lo]; i < start[lo + 1]; i++) { if (g.cancelled.load(std::memory_order_relaxed)) return; R r(ps[i]); (*body)(r); ms_point(3); }
        while (up && up->ref.fetch_sub(1, std::memory_order_acq_rel) == 1) { Join *j = up; if (g.cancelled.load(std::memory_order_relaxed)) return; j->left->join(*j->right); up = j->up; delete j; }
    }
};
template<class R, class B> void run_reduce(const R &range, B &body, bool full, bool deterministic) {
    if (range.empty()) return;
    ReduceRun<R, B> run; run.ps = partition(range, full || deterministic); run.balanced = deterministic; std::size_t n = run.ps.size();
    int p = (int) rnd(3); run.start.push_back(0);
    for (std::size_t i = 1; i < n; i++) if (deterministic || p == 0 || (p == 1 && rnd(2)) || (p == 2 && rnd(5) == 0)) run.start.push_back(i);
    run.start.push_back(n); std::size_t k = run.start.size() - 1;
    ReduceRun<R, B> *q = &run; B *b = &body; spawn(run.g, [q, k, b]() { q->node(0, k, b, nullptr); });
    wait(run.g); run.g.rethrow();
}
template<class R, class V, class F, class J> struct FnBody {
    const V &identity; const F &f; const J &j; V value;
    FnBody(const V &i, const F &ff, const J &jj) : identity(i), f(ff), j(jj), value(i) {}
    FnBody(FnBody &o, split) : identity(o.identity), f(o.f), j(o.j), value(o.identity) {}
    void operator()(R &r) { const R &cr = r; value = f(cr, const_cast<const V&>(value)); }
    void join(FnBody &o) { value = j(const_cast<const V&>(value), const_cast<const V&>(o.value)); }
};
template<class R, class V, class F, class J> V reduce_fn(const R &r, const V &id, const F &f, const J &j, bool full, bool det) { FnBody<R, V, F, J> b(id, f, j); run_reduce(r, b, full, det); return std::move(b.value); }
template<class P> using ctx_ok = void;
} // namespace standin
template<class R, class B> void parallel_reduce(const R &r, B &b) { standin::run_reduce(r, b, false, false); }
template<class R, class B, class P, class = standin::if_part<P>> void parallel_reduce(const R &r, B &b, P &&) { standin::run_reduce(r, b, standin::simple<P>(), false); }
template<class R, class V, class F, class J, class = typename std::enable_if<!standin::is_part<typename std::decay<J>::type>::value>::type> V parallel_reduce(const R &r, const V &id, const F &f, const J &j) { return standin::reduce_fn(r, id, f, j, false, false); }
template<class R, class V, class F, class J, class P, class = standin::if_part<P>> V parallel_reduce(const R &r, const V &id, const F &f, const J &j, P &&) { return standin::reduce_fn(r, id, f, j, standin::simple<P>(), false); }
template<class R, class V, class F, class J, class P, class = standin::if_part<P>> V parallel_reduce(const R &r, const V &id, const F &f, const J &j, P &&, task_group_context&) { return standin::reduce_fn(r, id, f, j, standin::simple<P>(), false); }
template<class R, class V, class F, class J> V parallel_reduce(const R &r, const V &id, const F &f, const J &j, task_group_context&) { return standin::reduce_fn(r, id, f, j, false, false); }
template<class R, class B> void parallel_deterministic_reduce(const R &r, B &b) { standin::run_reduce(r, b, false, true); }
template<class R, class V, class F, class J> V parallel_deterministic_reduce(const R &r, const V &id, const F &f, const J &j) { return standin::reduce_fn(r, id, f, j, false, true); }
template<class R, class V, class F, class J, class P, class = standin::if_part<P>> V parallel_deterministic_reduce(const R &r, const V &id, const F &f, const J &j, P &&) { return standin::reduce_fn(r, id, f, j, false, true); }

// ---- parallel_for_each, parallel_invoke, parallel_sort, parallel_scan ----------------------
template<class Item> class feeder {
public:
    virtual void add(const Item &i) = 0; virtual ~feeder() {}
};
namespace standin {
template<class B, class Item> struct Feed : feeder<Item> { Group &g; const B &b; Feed(Group &gg, const B &bb) : g(gg), b(bb) {}
    void add(const Item &i) override { Feed *f = this; Item c(i); spawn(g, [f, c]() { f->b(c, *f); }); } };
template<class B, class Item> auto call_each(const B &b, Item &&i, feeder<typename std::decay<Item>::type> &f, int) -> decltype(b(std::forward<Item>(i), f), void()) { b(std::forward<Item>(i), f); }
template<class B, class Item> void call_each(const B &b, Item &&i, feeder<typename std::decay<Item>::type>&, long) { b(std::forward<Item>(i)); }
template<class B, class Item, bool F> struct FeedSel { typedef Feed<B, Item> type; };
struct NoFeed { template<class... A> NoFeed(A&&...) {} };
template<class It, class B> void run_each(It a, It e, const B &b) {
    Group g; const B *pb = &b; for (; a != e; ++a) { It i = a; spawn(g, [i, pb]() { (*pb)(*i); }); ms_point(4); } wait(g); g.rethrow();
}
template<class It, class B, class Item = typename std::iterator_traits<It>::value_type> auto run_each_sel(It a, It e, const B &b, int) -> decltype(b(*a, std::declval<feeder<Item>&>()), void()) {
    Group g; Feed<B, Item> fd(g, b); Feed<B, Item> *pf = &fd; for (; a != e; ++a) { It i = a; spawn(g, [i, pf]() { pf->b(*i, *pf); }); } wait(g); g.rethrow(); }
template<class It, class B> void run_each_sel(It a, It e, const B &b, long) { run_each(a, e, b); }
} // namespace standin
template<class It, class B> void parallel_for_each(It a, It e, const B &b) { standin::run_each_sel(a, e, b, 0); }
template<class C, class B> void parallel_for_each(C &c, const B &b) { standin::run_each_sel(std::begin(c), std::end(c), b, 0); }
template<class C, class B> void parallel_for_each(const C &c, const B &b) { standin::run_each_sel(std::begin(c), std::end(c), b, 0); }
template<class It, class B> void parallel_do(It a, It e, const B &b) { standin::run_each_sel(a, e, b, 0); }
namespace standin { inline void inv(Group&) {} template<class F, class... A> void inv(Group &g, const F &f, const A&... a) { const F *p = &f; spawn(g, [p]() { (*p)(); }); inv(g, a...); } }
template<class... F> void parallel_invoke(const F&... f) { standin::Group g; standin::inv(g, f...); standin::wait(g); g.rethrow(); }
template<class It, class C> void parallel_sort(It a, It e, const C &c) {
    // any correct unstable sort: shuffle first, so that the order of equal elements is arbitrary
    for (auto n = e - a; n > 1; --n) { using std::swap; auto k = (decltype(n)) standin::rnd((std::uint64_t) n); swap(a[n - 1], a[k]); }
    std::sort(a, e, c);
}
template<class It> void parallel_sort(It a, It e) { parallel_sort(a, e, std::less<typename std::iterator_traits<It>::value_type>()); }
template<class C> void parallel_sort(C &c) { parallel_sort(std::begin(c), std::end(c)); }
template<class C, class K> auto parallel_sort(C &c, const K &k) -> decltype(std::begin(c), void()) { parallel_sort(std::begin(c), std::end(c), k); }
struct pre_scan_tag { static bool is_final_scan() { return false; } operator bool() const { return false; } }; struct final_scan_tag { static bool is_final_scan() { return true; } operator bool() const { return true; } };
template<class R, class V, class S, class J> V parallel_scan(const R &r, const V &id, const S &s, const J &j) {
    if (r.empty()) return id; auto ps = standin::partition(r, false); V acc = id;
    for (auto &p : ps) { if (standin::rnd(2)) { V pre = s(p, id, false); V fin = s(p, acc, true); (void) fin; acc = j(acc, pre); } else acc = s(p, acc, true); }
    return acc; }

// ---- task_group, task_arena ----------------------------------------------------------------
enum task_group_status { not_complete, complete, canceled };
class task_group {
    std::shared_ptr<standin::Group> g { std::make_shared<standin::Group>() };
public:
    task_group() {} task_group(task_group_context&) {} task_group(const task_group&) = delete;
    ~task_group() { if (g->pending) standin_misuse("task_group destroyed while tasks are pending"); }
    template<class F> void run(F &&f) { typename std::decay<F>::type c(std::forward<F>(f)); standin::spawn(*g, std::move(c)); ms_point(2); }
    task_group_status wait() { standin::wait(*g); g->rethrow(); bool c = g->cancelled.load(std::memory_order_relaxed); g->cancelled.store(false, std::memory_order_relaxed); return c ? canceled : complete; }
    template<class F> task_group_status run_and_wait(const F &f) { const F *p = &f; standin::spawn(*g, [p]() { (*p)(); }); return wait(); }
    void cancel() { g->cancelled.store(true, std::memory_order_relaxed); }
};
inline bool is_current_task_group_canceling() { return false; }
class task_arena {
    int n_;
public:
    static const int automatic = -1, not_initialized = -2; enum class priority { low = 1, normal = 2, high = 3 }; struct attach {}; struct constraints { int numa_id = -1, max_concurrency = -1; };
    task_arena(int n = automatic, unsigned = 1, priority = priority::normal) : n_(n) {} task_arena(attach) : n_(automatic) {} task_arena(constraints c) : n_(c.max_concurrency) {}
    void initialize() {} void initialize(int n, unsigned = 1, priority = priority::normal) { n_ = n; } void terminate() {} bool is_active() const { return true; }
    int max_concurrency() const { return n_ > 0 ? n_ : ms_workers(); }
    template<class F> auto execute(F &&f) -> decltype(f()) { return f(); }
    template<class F> void enqueue(F &&f) { f(); }
};
namespace this_task_arena { inline int current_thread_index() { return ms_slot(); } inline int max_concurrency() { return ms_workers(); } template<class F> auto isolate(F &&f) -> decltype(f()) { return f(); } }
namespace info { inline int default_concurrency(int = -1) { return ms_workers(); } inline std::vector<int> numa_nodes() { return std::vector<int>(1, 0); } }

// ---- global_control ------------------------------------------------------------------------
class global_control {
public:
    enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception, scheduler_handle, parameter_max };
    global_control(parameter p, std::size_t v) : p_(p), v_(v) { if (v == 0) standin_misuse("global_control value 0"); std::lock_guard<std::mutex> l(mu()); if (p == max_allowed_parallelism) { all().insert(v); apply(); } }
    ~global_control() { std::lock_guard<std::mutex> l(mu()); if (p_ == max_allowed_parallelism) { all().erase(all().find(v_)); apply(); } }
    global_control(const global_control&) = delete;
    static std::size_t active_value(parameter p) { std::lock_guard<std::mutex> l(mu()); return p == max_allowed_parallelism ? (all().empty() ? (std::size_t) ms_workers() : *all().begin()) : 0; }
private:
    static std::mutex& mu() { static std::mutex m; return m; } static std::multiset<std::size_t>& all() { static std::multiset<std::size_t> s; return s; }
    static void apply() { ms_set_limit(all().empty() ? 0 : (int) std::min<std::size_t>(*all().begin(), 1000)); }
    parameter p_; std::size_t v_;
};

// ---- mutexes -------------------------------------------------------------------------------
namespace standin {
template<class M> struct Mutex {
    M m; Mutex() {} Mutex(const Mutex&) = delete;
    void lock() { m.lock(); } bool try_lock() { return m.try_lock(); } void unlock() { m.unlock(); }
    void lock_shared() { m.lock(); } void unlock_shared() { m.unlock(); } bool try_lock_shared() { return m.try_lock(); }
    static const bool is_rw_mutex = true, is_recursive_mutex = false, is_fair_mutex = false;
    class scoped_lock { Mutex *p = 0; public: scoped_lock() {} scoped_lock(Mutex &x, bool = true) { acquire(x); } ~scoped_lock() { if (p) release(); } scoped_lock(const scoped_lock&) = delete;
        void acquire(Mutex &x, bool = true) { x.lock(); p = &x; } bool try_acquire(Mutex &x, bool = true) { if (x.try_lock()) { p = &x; return true; } return false; } void release() { p->unlock(); p = 0; } bool upgrade_to_writer() { return true; } bool downgrade_to_reader() { return true; } };
};
struct Nothing { void lock() {} bool try_lock() { return true; } void unlock() {} };
}
typedef standin::Mutex<std::mutex> mutex_base_;
class mutex : public standin::Mutex<std::mutex> {}; class spin_mutex : public standin::Mutex<std::mutex> {}; class queuing_mutex : public standin::Mutex<std::mutex> {}; class speculative_spin_mutex : public standin::Mutex<std::mutex> {};
class spin_rw_mutex : public standin::Mutex<std::mutex> {}; class queuing_rw_mutex : public standin::Mutex<std::mutex> {}; class rw_mutex : public standin::Mutex<std::mutex> {};
class recursive_mutex : public standin::Mutex<std::recursive_mutex> {}; class null_mutex : public standin::Mutex<standin::Nothing> {}; class null_rw_mutex : public standin::Mutex<standin::Nothing> {};

// ---- allocators ----------------------------------------------------------------------------
template<class T> class cache_aligned_allocator : public std::allocator<T> { public: cache_aligned_allocator() {} template<class U> cache_aligned_allocator(const cache_aligned_allocator<U>&) {} template<class U> struct rebind { typedef cache_aligned_allocator<U> other; }; };
template<class T> class scalable_allocator : public std::allocator<T> { public: scalable_allocator() {} template<class U> scalable_allocator(const scalable_allocator<U>&) {} template<class U> struct rebind { typedef scalable_allocator<U> other; }; };
template<class T> class tbb_allocator : public std::allocator<T> { public: tbb_allocator() {} template<class U> tbb_allocator(const tbb_allocator<U>&) {} template<class U> struct rebind { typedef tbb_allocator<U> other; }; };

// ---- concurrent_vector ---------------------------------------------------------------------
template<class T, class A = cache_aligned_allocator<T>> class concurrent_vector {
    // slots are handed out by a relaxed counter: push_back orders nothing but itself
    enum { SEG = 64, TAB = 1 << 14 };
    std::atomic<std::size_t> n_; T **tab_;
    T *slot(std::size_t i) const { T **p = tab_ + i / SEG; T *s = __atomic_load_n(p, __ATOMIC_RELAXED);
        if (!s) { T *m = (T*) ms_arena(SEG * sizeof(T)), *e = 0; if (__atomic_compare_exchange_n(p, &e, m, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) s = m; else s = e; }
        return s + i % SEG; }
    std::size_t claim(std::size_t k) { ms_point(4); std::size_t i = n_.fetch_add(k, std::memory_order_relaxed); if (i + k > (std::size_t) SEG * TAB) standin_misuse("concurrent_vector too large for the stand-in"); ms_point(4); return i; }
    void init() { n_.store(0, std::memory_order_relaxed); tab_ = (T**) ms_arena(TAB * sizeof(T*)); }
    template<class V, class R> class It {
        friend class concurrent_vector; const concurrent_vector *v; std::size_t i;
    public:
        typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef V *pointer; typedef V &reference;
        It() : v(0), i(0) {} It(const concurrent_vector *vv, std::size_t ii) : v(vv), i(ii) {} template<class V2, class R2> It(const It<V2, R2> &o) : v(o.vec()), i(o.index()) {}
        const concurrent_vector *vec() const { return v; } std::size_t index() const { return i; }
        reference operator*() const { return const_cast<V&>(v->at_(i)); } pointer operator->() const { return &**this; } reference operator[](difference_type k) const { return const_cast<V&>(v->at_(i + k)); }
        It& operator++() { ++i; return *this; } It operator++(int) { It t(*this); ++i; return t; } It& operator--() { --i; return *this; } It operator--(int) { It t(*this); --i; return t; }
        It& operator+=(difference_type k) { i += k; return *this; } It& operator-=(difference_type k) { i -= k; return *this; } It operator+(difference_type k) const { return It(v, i + k); } It operator-(difference_type k) const { return It(v, i - k); }
        friend It operator+(difference_type k, const It &a) { return a + k; } template<class V2, class R2> difference_type operator-(const It<V2, R2> &o) const { return (difference_type) i - (difference_type) o.index(); }
        bool operator==(const It &o) const { return i == o.i; } bool operator!=(const It &o) const { return i != o.i; } bool operator<(const It &o) const { return i < o.i; } bool operator>(const It &o) const { return i > o.i; } bool operator<=(const It &o) const { return i <= o.i; } bool operator>=(const It &o) const { return i >= o.i; }
    };
    T& at_(std::size_t i) const { if (i >= n_.load(std::memory_order_relaxed)) standin_misuse("concurrent_vector accessed outside its size"); return *slot(i); }
public:
    typedef T value_type; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef T &reference; typedef const T &const_reference; typedef T *pointer; typedef const T *const_pointer; typedef A allocator_type;
    typedef It<T, T> iterator; typedef It<const T, const T> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    template<class I> class generic_range_type : public blocked_range<I> {
    public:
        typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef I iterator; typedef std::ptrdiff_t difference_type; typedef void standin_iterable;
        generic_range_type(I a, I b, std::size_t g = 1) : blocked_range<I>(a, b, g) {} template<class J> generic_range_type(const generic_range_type<J> &r) : blocked_range<I>(r.begin(), r.end(), r.grainsize()) {}
        generic_range_type(generic_range_type &r, split) : blocked_range<I>(r, split()) {} generic_range_type(const blocked_range<I> &b) : blocked_range<I>(b) {}
        generic_range_type standin_cut() { return generic_range_type(blocked_range<I>::standin_cut()); }
    };
    typedef generic_range_type<iterator> range_type; typedef generic_range_type<const_iterator> const_range_type;
    concurrent_vector() { init(); } explicit concurrent_vector(const A&) { init(); } explicit concurrent_vector(size_type n, const T &t = T()) { init(); assign(n, t); }
    concurrent_vector(const concurrent_vector &o) { init(); for (size_type i = 0; i < o.size(); i++) push_back(o[i]); }
    concurrent_vector(concurrent_vector &&o) { init(); swap(o); } template<class I, class = typename std::iterator_traits<I>::iterator_category> concurrent_vector(I a, I b) { init(); for (; a != b; ++a) push_back(*a); } concurrent_vector(std::initializer_list<T> l) { init(); for (auto &x : l) push_back(x); }
    concurrent_vector& operator=(const concurrent_vector &o) { if (this != &o) { clear(); for (size_type i = 0; i < o.size(); i++) push_back(o[i]); } return *this; } concurrent_vector& operator=(concurrent_vector &&o) { swap(o); return *this; }
    ~concurrent_vector() { clear(); }
    iterator push_back(const T &t) { size_type i = claim(1); new (slot(i)) T(t); return iterator(this, i); } iterator push_back(T &&t) { size_type i = claim(1); new (slot(i)) T(std::move(t)); return iterator(this, i); }
    template<class... X> iterator emplace_back(X&&... x) { size_type i = claim(1); new (slot(i)) T(std::forward<X>(x)...); return iterator(this, i); }
    iterator grow_by(size_type k) { size_type i = claim(k); for (size_type j = 0; j < k; j++) new (slot(i + j)) T(); return iterator(this, i); } iterator grow_by(size_type k, const T &t) { size_type i = claim(k); for (size_type j = 0; j < k; j++) new (slot(i + j)) T(t); return iterator(this, i); }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> iterator grow_by(I a, I b) { size_type k = (size_type) std::distance(a, b), i = claim(k); for (size_type j = 0; j < k; j++, ++a) new (slot(i + j)) T(*a); return iterator(this, i); } iterator grow_by(std::initializer_list<T> l) { return grow_by(l.begin(), l.end()); }
    iterator grow_to_at_least(size_type n) { size_type c = n_.load(std::memory_order_relaxed); while (c < n && !n_.compare_exchange_weak(c, n, std::memory_order_relaxed)) {} for (size_type i = c; i < n; i++) new (slot(i)) T(); return iterator(this, c); }
    iterator grow_to_at_least(size_type n, const T &t) { size_type c = n_.load(std::memory_order_relaxed); while (c < n && !n_.compare_exchange_weak(c, n, std::memory_order_relaxed)) {} for (size_type i = c; i < n; i++) new (slot(i)) T(t); return iterator(this, c); }
    reference operator[](size_type i) { return at_(i); } const_reference operator[](size_type i) const { return at_(i); } reference at(size_type i) { if (i >= size()) throw std::out_of_range("concurrent_vector"); return at_(i); } const_reference at(size_type i) const { if (i >= size()) throw std::out_of_range("concurrent_vector"); return at_(i); }
    size_type size() const { return n_.load(std::memory_order_relaxed); } bool empty() const { return size() == 0; } size_type capacity() const { return (size_type) SEG * TAB; } size_type max_size() const { return capacity(); } void reserve(size_type n) { if (n > capacity()) throw std::length_error("concurrent_vector"); } void shrink_to_fit() {}
    void resize(size_type n) { size_type c = size(); for (size_type i = n; i < c; i++) slot(i)->~T(); n_.store(n, std::memory_order_relaxed); for (size_type i = c; i < n; i++) new (slot(i)) T(); }
    void resize(size_type n, const T &t) { size_type c = size(); for (size_type i = n; i < c; i++) slot(i)->~T(); n_.store(n, std::memory_order_relaxed); for (size_type i = c; i < n; i++) new (slot(i)) T(t); }
    void assign(size_type n, const T &t) { clear(); for (size_type i = 0; i < n; i++) push_back(t); } template<class I, class = typename std::iterator_traits<I>::iterator_category> void assign(I a, I b) { clear(); for (; a != b; ++a) push_back(*a); } void assign(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    void clear() { size_type c = size(); for (size_type i = 0; i < c; i++) slot(i)->~T(); n_.store(0, std::memory_order_relaxed); }
    void swap(concurrent_vector &o) { size_type a = size(), b = o.size(); n_.store(b, std::memory_order_relaxed); o.n_.store(a, std::memory_order_relaxed); std::swap(tab_, o.tab_); }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    reference front() { return at_(0); } const_reference front() const { return at_(0); } reference back() { return at_(size() - 1); } const_reference back() const { return at_(size() - 1); }
    range_type range(size_type g = 1) { return range_type(begin(), end(), g); } const_range_type range(size_type g = 1) const { return const_range_type(begin(), end(), g); } A get_allocator() const { return A(); }
};
template<class T, class A> void swap(concurrent_vector<T, A> &a, concurrent_vector<T, A> &b) { a.swap(b); }
template<class T, class A> bool operator==(const concurrent_vector<T, A> &a, const concurrent_vector<T, A> &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

// ---- other containers: a lock around the standard ones (iteration is for quiescent states) ----
template<class T, class A = cache_aligned_allocator<T>> class concurrent_queue {
protected: mutable std::mutex m; std::deque<T> q;
public: typedef T value_type; typedef std::size_t size_type; concurrent_queue() {}
    void push(const T &t) { ms_point(4); std::lock_guard<std::mutex> l(m); q.push_back(t); } void push(T &&t) { ms_point(4); std::lock_guard<std::mutex> l(m); q.push_back(std::move(t)); } template<class... X> void emplace(X&&... x) { std::lock_guard<std::mutex> l(m); q.emplace_back(std::forward<X>(x)...); }
    bool try_pop(T &t) { ms_point(4); std::lock_guard<std::mutex> l(m); if (q.empty()) return false; t = std::move(q.front()); q.pop_front(); return true; } bool empty() const { std::lock_guard<std::mutex> l(m); return q.empty(); } size_type unsafe_size() const { return q.size(); } void clear() { q.clear(); }
    typename std::deque<T>::iterator unsafe_begin() { return q.begin(); } typename std::deque<T>::iterator unsafe_end() { return q.end(); } typename std::deque<T>::const_iterator unsafe_begin() const { return q.begin(); } typename std::deque<T>::const_iterator unsafe_end() const { return q.end(); }
};
template<class T, class A = cache_aligned_allocator<T>> class concurrent_bounded_queue : public concurrent_queue<T, A> { public: bool try_push(const T &t) { this->push(t); return true; } void set_capacity(std::ptrdiff_t) {} std::ptrdiff_t size() const { return (std::ptrdiff_t) this->q.size(); } };
template<class T, class C = std::less<T>, class A = cache_aligned_allocator<T>> class concurrent_priority_queue { mutable std::mutex m; std::vector<T> q; C c;
public: concurrent_priority_queue() {} void push(const T &t) { std::lock_guard<std::mutex> l(m); q.push_back(t); std::push_heap(q.begin(), q.end(), c); } bool try_pop(T &t) { std::lock_guard<std::mutex> l(m); if (q.empty()) return false; std::pop_heap(q.begin(), q.end(), c); t = q.back(); q.pop_back(); return true; } bool empty() const { std::lock_guard<std::mutex> l(m); return q.empty(); } std::size_t size() const { std::lock_guard<std::mutex> l(m); return q.size(); } void clear() { q.clear(); } };
namespace standin {
template<class S> class Locked {     // node-based associative container with concurrent insertion
protected: mutable std::mutex m; S s;
public:
    typedef typename S::key_type key_type; typedef typename S::value_type value_type; typedef typename S::iterator iterator; typedef typename S::const_iterator const_iterator; typedef std::size_t size_type;
    Locked() {} Locked(const Locked &o) : s(o.s) {} Locked& operator=(const Locked &o) { s = o.s; return *this; }
    auto insert(const value_type &v) -> decltype(s.insert(v)) { ms_point(4); std::lock_guard<std::mutex> l(m); return s.insert(v); } template<class... X> auto emplace(X&&... x) -> decltype(s.emplace(std::forward<X>(x)...)) { ms_point(4); std::lock_guard<std::mutex> l(m); return s.emplace(std::forward<X>(x)...); }
    template<class I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
    iterator find(const key_type &k) { std::lock_guard<std::mutex> l(m); return s.find(k); } const_iterator find(const key_type &k) const { std::lock_guard<std::mutex> l(m); return s.find(k); } size_type count(const key_type &k) const { std::lock_guard<std::mutex> l(m); return s.count(k); } bool contains(const key_type &k) const { return count(k) != 0; }
    iterator begin() { return s.begin(); } iterator end() { return s.end(); } const_iterator begin() const { return s.begin(); } const_iterator end() const { return s.end(); } const_iterator cbegin() const { return s.begin(); } const_iterator cend() const { return s.end(); }
    size_type size() const { std::lock_guard<std::mutex> l(m); return s.size(); } bool empty() const { return size() == 0; } void clear() { s.clear(); } size_type unsafe_erase(const key_type &k) { return s.erase(k); } iterator unsafe_erase(const_iterator i) { return s.erase(i); } void swap(Locked &o) { s.swap(o.s); }
};
template<class S> class LockedMap : public Locked<S> { public: typedef typename S::mapped_type mapped_type; mapped_type& operator[](const typename S::key_type &k) { ms_point(4); std::lock_guard<std::mutex> l(this->m); return this->s[k]; } mapped_type& at(const typename S::key_type &k) { std::lock_guard<std::mutex> l(this->m); return this->s.at(k); } const mapped_type& at(const typename S::key_type &k) const { std::lock_guard<std::mutex> l(this->m); return this->s.at(k); } };
}
template<class K, class C = std::less<K>, class A = void> class concurrent_set : public standin::Locked<std::set<K, C>> {}; template<class K, class C = std::less<K>, class A = void> class concurrent_multiset : public standin::Locked<std::multiset<K, C>> {};
template<class K, class V, class C = std::less<K>, class A = void> class concurrent_map : public standin::LockedMap<std::map<K, V, C>> {}; template<class K, class V, class C = std::less<K>, class A = void> class concurrent_multimap : public standin::Locked<std::multimap<K, V, C>> {};
template<class K, class H = std::hash<K>, class Q = std::equal_to<K>, class A = void> class concurrent_unordered_set : public standin::Locked<std::unordered_set<K, H, Q>> {}; template<class K, class V, class H = std::hash<K>, class Q = std::equal_to<K>, class A = void> class concurrent_unordered_map : public standin::LockedMap<std::unordered_map<K, V, H, Q>> {};

// ---- thread-local storage --------------------------------------------------------------------
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template<class T, class A = cache_aligned_allocator<T>, ets_key_usage_type U = ets_no_key> class enumerable_thread_specific {
    enum { N = 64 }; std::unique_ptr<T> v[N]; std::function<T()> mk;
    template<class V, class P> class It { P *p; int i; void skip() { while (i < N && !p->v[i]) i++; } public: typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef V *pointer; typedef V &reference;
        It(P *pp, int ii) : p(pp), i(ii) { skip(); } V& operator*() const { return *p->v[i]; } V* operator->() const { return p->v[i].get(); } It& operator++() { ++i; skip(); return *this; } It operator++(int) { It t(*this); ++*this; return t; } bool operator==(const It &o) const { return i == o.i; } bool operator!=(const It &o) const { return i != o.i; } };
public:
    typedef T value_type; typedef T &reference; typedef It<T, enumerable_thread_specific> iterator; typedef It<const T, const enumerable_thread_specific> const_iterator; typedef std::size_t size_type; template<class V, class P> friend class It;
    enumerable_thread_specific() : mk([]() { return T(); }) {} explicit enumerable_thread_specific(const T &t) : mk([t]() { return t; }) {} template<class F, class = decltype(std::declval<F&>()())> explicit enumerable_thread_specific(F f) : mk(f) {} template<class P1, class P2, class... X> enumerable_thread_specific(P1 a, P2 b, X... x) : mk([=]() { return T(a, b, x...); }) {}
    reference local() { bool e; return local(e); } reference local(bool &e) { int i = ms_slot(); e = (bool) v[i]; if (!e) v[i].reset(new T(mk())); return *v[i]; }
    size_type size() const { size_type c = 0; for (auto &x : v) if (x) c++; return c; } bool empty() const { return size() == 0; } void clear() { for (auto &x : v) x.reset(); } iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, N); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, N); }
    template<class F> T combine(F f) { T *a = 0; std::unique_ptr<T> r; for (auto &x : v) if (x) { if (!r) r.reset(new T(*x)); else { T t = f(*r, *x); r.reset(new T(t)); } } (void) a; return r ? *r : mk(); } template<class F> void combine_each(F f) { for (auto &x : v) if (x) f(*x); }
};
template<class T> class combinable { enumerable_thread_specific<T> e; public: combinable() {} template<class F> explicit combinable(F f) : e(f) {} T& local() { return e.local(); } T& local(bool &x) { return e.local(x); } void clear() { e.clear(); } template<class F> T combine(F f) { return e.combine(f); } template<class F> void combine_each(F f) { e.combine_each(f); } };

class tick_count { std::chrono::steady_clock::time_point t; public: class interval_t { double s; public: interval_t(double x = 0) : s(x) {} double seconds() const { return s; } }; static tick_count now() { tick_count x; x.t = std::chrono::steady_clock::now(); return x; } friend interval_t operator-(const tick_count &a, const tick_count &b) { return interval_t(std::chrono::duration<double>(a.t - b.t).count()); } };
class task_scheduler_observer { public: task_scheduler_observer() {} virtual ~task_scheduler_observer() {} void observe(bool = true) {} virtual void on_scheduler_entry(bool) {} virtual void on_scheduler_exit(bool) {} };
class task_scheduler_handle { public: void release() {} };

}} // namespace oneapi::tbb
namespace tbb = oneapi::tbb;
