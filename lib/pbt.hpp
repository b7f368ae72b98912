// A small seeded property-based-testing engine: explicit cases, forked execution, greedy
// shrinking, replay files. Every random choice is a pure function of (seed, case index).
#pragma once
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_SANITIZER 1
#endif
// PBT_ONLY_UB: only undefined behaviour counts as a failure (sanitizer reports, aborts of the checking standard library,
// fatal signals, memory that a repeated case keeps); wrong results, exceptions and timeouts are other checks' business.
#ifdef PBT_MEMCHECK
#include <valgrind/memcheck.h>
#endif
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

namespace pbt {

typedef int64_t i64;
typedef uint64_t u64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    static u64 mix(u64 z) {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
    i64 range(i64 a, i64 b) { return b <= a ? a : a + (i64) below((u64) (b - a) + 1); }
    bool chance(int num, int den) { return (int) below(den) < num; }
    template<class V> void shuffle(V &v) {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
    template<class V> auto pick(const V &v) -> decltype(v[0]) { return v[below(v.size())]; }
    // index drawn with the given integer weights
    std::size_t weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }
    std::size_t weighted(const std::vector<int> &w) {
        int t = 0; for (int x : w) t += x;
        int r = (int) below(t); std::size_t i = 0;
        for (int x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
};
inline u64 case_seed(u64 seed, u64 idx) {
    return Rng::mix(Rng::mix(seed * 0x9e3779b97f4a7c15ULL + 0x1234567ULL) ^ (idx * 0xd1342543de82ef95ULL + 77));
}

struct E { int u, v; i64 w; };

struct Case {
    std::map<std::string, i64> p;        // named parameters
    int n = 0;                           // graph: vertices 0..n-1
    int shift = 0;                       // real weight = w * 2^-shift
    std::vector<E> e;                    // edges, in insertion order and orientation
    std::vector<std::vector<i64>> ops;   // operation history / list of integer tuples
    std::string text;                    // raw text
    i64 get(const char *k, i64 d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
    std::string str() const {
        std::ostringstream o;
        o << "case\n";
        for (auto &kv : p) o << "param " << kv.first << " " << kv.second << "\n";
        o << "graph " << n << " " << shift << " " << e.size() << "\n";
        for (auto &x : e) o << "e " << x.u << " " << x.v << " " << x.w << "\n";
        for (auto &op : ops) { o << "op"; for (i64 v : op) o << " " << v; o << "\n"; }
        if (!text.empty()) {
            o << "text ";
            static const char *h = "0123456789abcdef";
            for (unsigned char c : text) o << h[c >> 4] << h[c & 15];
            o << "\n";
        }
        o << "end\n";
        return o.str();
    }
    std::string brief() const {
        std::ostringstream o;
        for (auto &kv : p) o << kv.first << "=" << kv.second << " ";
        if (n || !e.empty()) {
            o << "n=" << n << " shift=" << shift << " edges=[";
            std::size_t k = 0;
            for (auto &x : e) { if (k++ >= 40) { o << "..+" << e.size() - 40; break; }
                o << (k > 1 ? " " : "") << x.u << "-" << x.v << ":" << x.w; }
            o << "] ";
        }
        if (!ops.empty()) {
            o << "ops=["; std::size_t k = 0;
            for (auto &op : ops) { if (k++ >= 25) { o << "..+" << ops.size() - 25; break; }
                o << (k > 1 ? "; " : ""); for (std::size_t j = 0; j < op.size(); j++) o << (j ? " " : "") << op[j]; }
            o << "] ";
        }
        if (!text.empty()) o << "text=\"" << (text.size() > 300 ? text.substr(0, 300) + "..." : text) << "\"";
        return o.str();
    }
    u64 hash() const {
        std::string s = str(); u64 h = 1469598103934665603ULL;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
        return Rng::mix(h);
    }
};

inline bool parse_case(std::istream &in, Case &c) {
    std::string line; bool started = false; c = Case();
    while (std::getline(in, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "case") { started = true; c = Case(); }
        else if (!started) continue;
        else if (k == "param") { std::string n; i64 v; s >> n >> v; c.p[n] = v; }
        else if (k == "graph") { s >> c.n >> c.shift; }
        else if (k == "e") { E x; s >> x.u >> x.v >> x.w; c.e.push_back(x); }
        else if (k == "op") { std::vector<i64> o; i64 v; while (s >> v) o.push_back(v); c.ops.push_back(o); }
        else if (k == "text") {
            std::string h; s >> h;
            for (std::size_t i = 0; i + 1 < h.size(); i += 2) c.text.push_back((char) std::stoi(h.substr(i, 2), 0, 16));
        } else if (k == "end") return true;
    }
    return false;
}

struct Fail { std::string msg; explicit Fail(const std::string &m) : msg(m) {} };
struct UbFail : Fail { explicit UbFail(const std::string &m) : Fail(m) {} };
#define PBT_FAIL(expr) do { std::ostringstream _o; _o << expr; throw ::pbt::Fail(_o.str()); } while (0)
#define PBT_REQUIRE(cond, expr) do { if (!(cond)) PBT_FAIL(expr); } while (0)

struct Ctx {
    bool nontrivial = false;
    u64 evals = 0;                          // extra executions beyond 1
    std::map<std::string, u64> labels;
    void label(const std::string &s, u64 k = 1) { labels[s] += k; }
};

struct Check {
    int batch = 128;                        // cases per forked child
    double cpu_limit = 30;                  // seconds of CPU per case before "does not terminate"
    double wall_limit = 90;                 // wall seconds without progress
    double shrink_wall = 45;
    u64 mem_limit_mb = 4000;                // 0: none (sanitizers)
    bool thorough = false;
    std::map<std::string, i64> shrink_params;   // parameter -> smallest value to try
    virtual ~Check() {}
    virtual Case gen(Rng &r, u64 idx) = 0;
    virtual void run(const Case &c, Ctx &ctx) = 0;
    virtual bool valid(const Case &) { return true; }   // domain predicate for shrink candidates
    virtual void child_init() {}
};

struct Shared {
    volatile u64 cur;      // index within sequence currently executing
    volatile u64 done;
    volatile u64 evals, nontrivial, nhash;
    volatile int failed;
    char msg[16384];
    char labels[1 << 17];
    char samples[1 << 16];
    u64 hashes[1 << 14];
};

inline Shared *shared() {
    static Shared *s = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return s;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline void run_guarded0(Check &ck, const Case &c, Ctx &ctx) {
    try { ck.run(c, ctx); }
    catch (Fail &) { throw; }
    catch (std::exception &x) { throw Fail(std::string("unexpected exception: ") + x.what()); }
    catch (std::exception *x) { throw Fail(std::string("unexpected exception (thrown by pointer): ") + x->what()); }
    catch (...) { throw Fail("unexpected exception of unknown type"); }
}
#ifndef PBT_ONLY_UB
inline void run_guarded(Check &ck, const Case &c, Ctx &ctx) { run_guarded0(ck, c, ctx); }
#else
inline bool run_ub(Check &ck, const Case &c, Ctx &ctx) {       // false: failed in a way that does not concern us
#ifdef PBT_MEMCHECK
    unsigned long before = (unsigned long) VALGRIND_COUNT_ERRORS;
#endif
    bool ok = true;
    try { run_guarded0(ck, c, ctx); }
    catch (Fail &f) {
        if (shared()->msg[0]) throw UbFail(f.msg + ": " + shared()->msg);
        for (const char *s : { "Segmentation fault", "Bus error", "Aborted", "Floating point exception", "Illegal instruction" }) if (f.msg.find(std::string("dies of signal ") + s) != std::string::npos) throw UbFail(f.msg);
        if (f.msg.find("exits with status 97") != std::string::npos) throw UbFail(f.msg + " (memcheck report)");
        ctx.label("failures that concern other properties (ignored)"); ok = false;
    }
#ifdef PBT_MEMCHECK
    unsigned long after = (unsigned long) VALGRIND_COUNT_ERRORS;
    if (after > before) throw UbFail("memcheck reports " + std::to_string(after - before) + " errors");
#endif
    return ok;
}
inline void run_guarded(Check &ck, const Case &c, Ctx &ctx) {
#if defined(__SANITIZE_ADDRESS__) && !defined(PBT_NO_LEAKS)
    u64 evals = 0; long kept = 0;
    for (int k = 0;; k++) {
        std::size_t a = __sanitizer_get_current_allocated_bytes(); bool ok;
        if (k == 0) { std::map<std::string, u64> none; ok = run_ub(ck, c, ctx); evals = ctx.evals; }
        else { Ctx t; ok = run_ub(ck, c, t); }
        long g = (long) (__sanitizer_get_current_allocated_bytes() - a);
        if (k == 0) { if (g <= 0 || !ok) break; continue; }      // what ctx itself keeps counts in the first run only
        kept = k == 1 ? g : std::min(kept, g);
        if (kept <= 0 || !ok) break;
        if (k == 5) throw UbFail("at least " + std::to_string(kept) + " bytes stay allocated after every repetition of the case");
    }
    ctx.evals = evals;
#else
    run_ub(ck, c, ctx);
#endif
}
#endif

inline bool &last_ignored() { static bool b = false; return b; }       // PBT_ONLY_UB: the run ended early for a reason that does not concern us
// Runs cases produced by `get(i)` for i in [0,count) in one forked child.
// Returns -1 if all passed, else the position that failed; *why receives the reason.
inline long run_forked(Check &ck, u64 count, const std::function<Case(u64)> &get, std::string *why, double cpu_limit,
        double wall_limit, bool collect) {
    Shared *sh = shared(); last_ignored() = false;
    sh->cur = 0; sh->done = 0; sh->evals = 0; sh->nontrivial = 0; sh->nhash = 0; sh->failed = 0;
    sh->msg[0] = 0; sh->labels[0] = 0; sh->samples[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); std::exit(3); }
    if (pid == 0) {
        setpgid(0, 0);
#if !defined(PBT_SANITIZER) && !defined(PBT_MEMCHECK)
        if (ck.mem_limit_mb) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = ck.mem_limit_mb << 20; setrlimit(RLIMIT_AS, &rl); }
#endif
        struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
#ifdef PBT_ONLY_UB
        std::set_terminate([]() { _exit(43); });
#endif
        ck.child_init();
        std::map<std::string, u64> labels; std::string samples; int nsamples = 0;
        for (u64 i = 0; i < count; i++) {
            sh->cur = i;
            struct itimerval it; memset(&it, 0, sizeof it);
            it.it_value.tv_sec = (long) cpu_limit; it.it_value.tv_usec = (long) ((cpu_limit - (long) cpu_limit) * 1e6);
            setitimer(ITIMER_PROF, &it, 0);
            Case c = get(i); Ctx ctx;
            try { run_guarded(ck, c, ctx); }
            catch (Fail &f) {
                snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
                sh->failed = 1; _exit(41);
            }
            sh->evals = sh->evals + 1 + ctx.evals;
            if (ctx.nontrivial) {
                sh->nontrivial = sh->nontrivial + 1;
                if (sh->nhash < (1 << 14)) { sh->hashes[sh->nhash] = c.hash(); sh->nhash = sh->nhash + 1; }
                if (nsamples < 2 && (i % 3) == 1) { samples += c.brief().substr(0, 900) + "\n"; nsamples++; }
            }
            for (auto &kv : ctx.labels) labels[kv.first] += kv.second;
            sh->done = i + 1;
        }
        if (collect) {
            std::string l; for (auto &kv : labels) l += kv.first + "\t" + std::to_string(kv.second) + "\n";
            snprintf(sh->labels, sizeof sh->labels, "%s", l.c_str());
            snprintf(sh->samples, sizeof sh->samples, "%s", samples.c_str());
        }
        // run leak detection etc. at exit in sanitizer builds
        fflush(stdout); fflush(stderr);
#ifdef PBT_EXIT_NORMALLY
        exit(0);
#else
        _exit(0);
#endif
    }
    int status = 0; u64 last = ~0ULL; double tlast = now(); bool hung = false;
    long nap = 200;
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) { perror("waitpid"); std::exit(3); }
        u64 cur = sh->done;
        if (cur != last) { last = cur; tlast = now(); }
        else if (now() - tlast > wall_limit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
        usleep(nap); if (nap < 5000) nap += nap / 4;
    }
    kill(-pid, SIGKILL);
    if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) return -1;
#ifdef PBT_ONLY_UB
    if (!sh->failed) {      // timeouts, std::terminate, exhausted memory
        int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0; bool fatal = sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE || sig == SIGILL || sig == SIGABRT || sig == SIGTRAP;
        bool memory = strstr(sh->msg, "out of memory") || strstr(sh->msg, "allocation-size-too-big") || strstr(sh->msg, "rss limit") || strstr(sh->msg, "failed to allocate") || strstr(sh->msg, "Failed to mmap");
        bool report = sh->msg[0] != 0 || (WIFEXITED(status) && (WEXITSTATUS(status) == 66 || WEXITSTATUS(status) == 67 || WEXITSTATUS(status) == 97));
        if (hung || memory || !(fatal || report)) { last_ignored() = true; return (long) std::min<u64>((u64) sh->cur, count ? count - 1 : 0); }
    }
#endif
    if (why) {
        if (sh->failed) *why = sh->msg;
        else if (hung) *why = "no progress within the wall-clock watchdog (deadlock or non-termination)";
        else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) *why = "does not terminate within the CPU watchdog";
        else if (WIFSIGNALED(status)) *why = std::string("process died of signal ") + strsignal(WTERMSIG(status)) + (sh->msg[0] ? std::string(": ") + sh->msg : "");
        else *why = "process ended with exit status " + std::to_string(WEXITSTATUS(status)) + " (sanitizer report, leak, or exit inside the library)" + (sh->msg[0] ? std::string(": ") + sh->msg : "");
    }
    return (long) std::min<u64>((u64) sh->cur, count ? count - 1 : 0);
}

inline bool fails(Check &ck, const std::vector<Case> &cs, std::string *why, double cpu = 0, double wall = 0) {
    return run_forked(ck, cs.size(), [&](u64 i) { return cs[i]; }, why, cpu ? cpu : ck.cpu_limit, wall ? wall : ck.wall_limit, false) >= 0 && !last_ignored();
}

// ---- shrinking -----------------------------------------------------------------------------
inline Case drop_vertices(const Case &c, const std::vector<char> &dead) {
    Case r = c; std::vector<int> m(c.n, -1); int k = 0;
    for (int i = 0; i < c.n; i++) if (!dead[i]) m[i] = k++;
    r.n = k; r.e.clear();
    for (auto &x : c.e) if (x.u < c.n && x.v < c.n && m[x.u] >= 0 && m[x.v] >= 0) r.e.push_back(E { m[x.u], m[x.v], x.w });
    return r;
}

inline void candidates(const Check &ck, const Case &c, std::vector<Case> &out) {
    out.clear();
    // large cases: only coarse steps (they become fine as the case gets smaller)
    const std::size_t most = std::max<std::size_t>(200, 6000000 / (1 + (std::size_t) std::max(c.n, 0) + c.e.size() * 3 + c.text.size() + c.ops.size() * 4)); std::size_t from = 0;
    auto room = [&]() { return out.size() - from < most; };
    from = out.size();
    for (int len = c.n / 2; len >= 1; len = len / 2)
        for (int s = 0; s < c.n && room(); s += len) {
            std::vector<char> dead(c.n, 0); for (int i = s; i < std::min(c.n, s + len); i++) dead[i] = 1;
            out.push_back(drop_vertices(c, dead));
        }
    from = out.size();
    for (int len = (int) c.e.size() / 2; len >= 1; len = len / 2)
        for (int s = 0; s < (int) c.e.size() && room(); s += len) {
            Case r = c; r.e.erase(r.e.begin() + s, r.e.begin() + std::min((int) c.e.size(), s + len)); out.push_back(r);
        }
    from = out.size();
    for (int len = (int) c.ops.size() / 2; len >= 1; len = len / 2)
        for (int s = 0; s < (int) c.ops.size() && room(); s += len) {
            Case r = c; r.ops.erase(r.ops.begin() + s, r.ops.begin() + std::min((int) c.ops.size(), s + len)); out.push_back(r);
        }
    from = out.size();
    for (int len = (int) c.text.size() / 2; len >= 1; len = len / 2)
        for (int s = 0; s < (int) c.text.size() && room(); s += len) { Case r = c; r.text.erase(s, len); out.push_back(r); }
    for (auto &kv : ck.shrink_params) {
        auto it = c.p.find(kv.first); if (it == c.p.end()) continue;
        i64 v = it->second, lo = kv.second;
        if (v == lo) continue;
        std::set<i64> tries { lo, lo + 1, lo + 2, lo + 3, lo + (v - lo) / 2, v - 1 };
        for (i64 t : tries) if (t != v && (t < v || v < lo) ) { Case r = c; r.p[kv.first] = t; out.push_back(r); }
    }
    if (c.shift != 0) { Case r = c; r.shift = 0; out.push_back(r); }
    { bool any = false; Case r = c; for (auto &x : r.e) if (x.w > 1) { x.w = 1; any = true; } if (any) out.push_back(r); }
    { bool any = false; Case r = c; for (auto &x : r.e) if (x.w > 1) { x.w = (x.w + 1) / 2; any = true; } if (any) out.push_back(r); }
    from = out.size();
    for (std::size_t i = 0; i < c.e.size() && room(); i++) {
        if (c.e[i].w > 1) {
            Case r = c; r.e[i].w = 1; out.push_back(r);
            if (c.e[i].w > 2) { r = c; r.e[i].w = c.e[i].w / 2; out.push_back(r); r = c; r.e[i].w = c.e[i].w - 1; out.push_back(r); }
        }
        if (c.e[i].u > c.e[i].v) { Case r = c; std::swap(r.e[i].u, r.e[i].v); out.push_back(r); }
    }
    from = out.size();
    for (std::size_t i = 0; i < c.ops.size() && room(); i++)
        for (std::size_t j = 0; j < c.ops[i].size(); j++) {
            i64 v = c.ops[i][j];
            if (v != 0) {
                Case r = c; r.ops[i][j] = 0; out.push_back(r);
                if (v != 1 && v != -1) { r.ops[i][j] = 1; out.push_back(r); r.ops[i][j] = v / 2; out.push_back(r); }
                r.ops[i][j] = v > 0 ? v - 1 : v + 1; out.push_back(r);
                if (v < 0 && v != INT64_MIN) { r.ops[i][j] = -v; out.push_back(r); }
            }
        }
}

inline std::string cmplx_str(const Case &c) { return c.str(); }
inline u64 measure(const Case &c) {
    u64 m = (u64) c.n * 1000 + c.e.size() * 1000 + c.ops.size() * 1000 + c.text.size() * 100 + (u64) std::abs(c.shift);
    for (auto &x : c.e) { m += 2 * (u64) (64 - __builtin_clzll((u64) x.w | 1)) + (x.w > 1) + (u64)std::min<i64>(std::max<i64>(x.w,0), 50) + (x.u > x.v); }
    for (auto &o : c.ops) for (i64 v : o) m += v ? 2 * (64 - __builtin_clzll((u64) (v < 0 ? -(v+1) : v) | 1)) + (v < 0) + (u64) std::min<i64>(v<0?-(v+1):v, 20) : 0;
    return m;
}

inline Case shrink(Check &ck, Case c, std::string &why, double budget) {
    double t0 = now(); bool progress = true;
    double cpu = std::min(ck.cpu_limit, 8.0), wall = std::min(ck.wall_limit, 25.0);
    std::set<u64> seen;
    while (progress && now() - t0 < budget) {
        progress = false;
        std::vector<Case> cand; candidates(ck, c, cand);
        for (auto &k : cand) {
            if (now() - t0 > budget) break;
            if (!seen.insert(k.hash()).second) continue;
            u64 a = measure(k), b = measure(c);
            bool params_lower = false;
            for (auto &kv : ck.shrink_params) if (k.get(kv.first.c_str()) != c.get(kv.first.c_str())) params_lower = true;
            if (a > b || (a == b && !params_lower)) continue;
            if (!ck.valid(k)) continue;
            std::string w;
            if (fails(ck, { k }, &w, cpu, wall)) { c = k; why = w; progress = true; break; }
        }
    }
    return c;
}

inline void write_replay(const std::string &path, const std::vector<Case> &cs, const std::string &id, const std::string &why) {
    std::ofstream o(path);
    std::string w = why; for (auto &ch : w) if (ch == '\n') ch = ' ';
    o << "# property " << id << "\n# " << w << "\n";
    for (auto &c : cs) o << c.str();
}

inline int main(int argc, char **argv, Check &ck, const char *id) {
    std::string mode = argc > 1 ? argv[1] : "run";
    std::map<std::string, std::string> opt; std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { opt[a.substr(2)] = argv[++i]; } else pos.push_back(a);
    }
    ck.thorough = opt["tier"] == "thorough";
    if (mode == "replay") {
        std::ifstream in(pos.at(0)); std::vector<Case> cs; Case c;
        while (parse_case(in, c)) cs.push_back(c);
        int bad = 0; std::string why;
        int times = opt.count("times") ? std::stoi(opt["times"]) : 1;
        for (int t = 0; t < times; t++) if (fails(ck, cs, &why)) bad++;
        std::printf("replay: %d of %d runs violate%s%s\n", bad, times, bad ? ": " : "", bad ? why.c_str() : "");
        return bad ? 1 : 0;
    }
    if (mode == "show") {
        u64 seed = std::stoull(opt["seed"]); u64 i = std::stoull(opt["index"]);
        Rng r(case_seed(seed, i)); std::cout << ck.gen(r, i).str(); return 0;
    }
    u64 seed = opt.count("seed") ? std::stoull(opt["seed"]) : 1, from = opt.count("from") ? std::stoull(opt["from"]) : 0,
        to = std::stoull(opt["to"]), step = opt.count("step") ? std::stoull(opt["step"]) : 1;
    double max_wall = opt.count("max-wall") ? std::stod(opt["max-wall"]) : 1e18;
    std::string out = opt["out"];
    double t0 = now();
    std::map<std::string, u64> labels; std::vector<std::string> samples; std::vector<u64> hashes;
    u64 evals = 0, nontriv = 0, ran = 0; bool cut = false; int rc = 0;
    auto gen = [&](u64 i) { Rng r(case_seed(seed, i)); return ck.gen(r, i); };
    auto flush_stats = [&]() {
        std::ofstream o(out + ".stats");
        o << "evals\t" << evals << "\nran\t" << ran << "\nnontrivial\t" << nontriv << "\ncut\t" << cut << "\n";
        for (auto &kv : labels) o << "label:" << kv.first << "\t" << kv.second << "\n";
        for (auto &s : samples) o << "sample:" << s << "\n";
        std::ofstream h(out + ".hash", std::ios::binary); h.write((const char*) hashes.data(), hashes.size() * 8);
    };
    for (u64 i = from; i < to;) {
        if (now() - t0 > max_wall) { cut = true; break; }
        u64 cnt = 0; for (u64 j = i; j < to && cnt < (u64) ck.batch; j += step) cnt++;
        std::string why;
        long bad = run_forked(ck, cnt, [&](u64 k) { return gen(i + k * step); }, &why, ck.cpu_limit, ck.wall_limit, true);
        Shared *sh = shared();
        evals += sh->evals; nontriv += sh->nontrivial; ran += sh->done;
        for (u64 k = 0; k < sh->nhash; k++) hashes.push_back(sh->hashes[k]);
        std::istringstream ls(sh->labels); std::string line;
        while (std::getline(ls, line)) { auto t = line.rfind('\t'); labels[line.substr(0, t)] += std::stoull(line.substr(t + 1)); }
        std::istringstream ss(sh->samples);
        while (samples.size() < 8 && std::getline(ss, line)) samples.push_back(line);
        if (bad >= 0 && last_ignored()) { labels["cases ended early for a reason that concerns other properties"]++; i += (u64) (bad + 1) * step; continue; }
        if (bad >= 0) {
            std::vector<Case> cs { gen(i + bad * step) };
            std::string w1, raw_why; std::vector<Case> raw;
            bool alone = fails(ck, cs, &w1);
            if (alone) {
                why = w1;
                write_replay(out + ".fail.raw", cs, id, why); raw = cs; raw_why = why;
                if (opt["noshrink"] != "1") cs[0] = shrink(ck, cs[0], why, ck.shrink_wall);
            } else {
                // depends on the history of the process (e.g. leak found at exit, static state)
                std::vector<Case> all; for (long k = 0; k <= bad; k++) all.push_back(gen(i + k * step));
                if (std::string(why).find("exit status") != std::string::npos) { all.clear(); for (u64 k = 0; k < cnt; k++) all.push_back(gen(i + k * step)); }
                std::string w2;
                if (!fails(ck, all, &w2)) {
                    // not reproducible: never reported as a violation
                    labels["unreproducible-failure: " + why.substr(0, 200)]++;
                    std::ofstream u(out + ".unrepro", std::ios::app); u << why << "\n"; for (auto &c : all) u << c.str();
                    i += cnt * step; continue;
                }
                why = w2;
                double ts = now();
                for (std::size_t len = all.size() / 2; len >= 1; len /= 2)
                    for (std::size_t s = 0; s < all.size() && all.size() > 1 && now() - ts < ck.shrink_wall;) {
                        std::vector<Case> t(all); t.erase(t.begin() + s, t.begin() + std::min(all.size(), s + len));
                        std::string w3;
                        if (!t.empty() && fails(ck, t, &w3)) { all = t; why = w3; } else s += len;
                    }
                cs = all;
                if (cs.size() == 1 && opt["noshrink"] != "1") cs[0] = shrink(ck, cs[0], why, ck.shrink_wall);
            }
            int ok = 0; std::string w4;
            for (int t = 0; t < 3; t++) if (fails(ck, cs, &w4)) ok++;
            if (ok < 3 && !raw.empty()) {        // the shrunk case does not fail every time: the case as it was generated may
                int again = 0; for (int t = 0; t < 3; t++) if (fails(ck, raw, &w4)) again++;
                if (again > ok) { ok = again; cs = raw; why = raw_why; }
            }
            if (ok < 3) {
                labels["flaky-failure (" + std::to_string(ok) + "/3): " + why.substr(0, 200)]++;
                write_replay(out + ".flaky", cs, id, why);
                if (ok == 0) { i += cnt * step; continue; }
            }
            write_replay(out + ".fail", cs, id, why);
            rc = 1; break;
        }
        i += cnt * step;
    }
    flush_stats();
    return rc;
}

} // namespace pbt
#ifdef PBT_SANITIZER
// collects the text of a sanitizer's report
extern "C" void __sanitizer_on_print(const char *s) {
    if (strstr(s, "WARNING: ASan") || strstr(s, "WARNING: AddressSanitizer")) return;
    pbt::Shared *sh = pbt::shared(); std::size_t l = strlen(sh->msg), n = strlen(s); if (l + n + 2 < 3000) memcpy(sh->msg + l, s, n + 1);
}
#endif
