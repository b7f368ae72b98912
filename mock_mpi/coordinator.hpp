// Runs `body(rank)` in P forked processes that are the ranks of the stand-in communicator, answers their
// requests and detects histories in which a rank is left waiting.
#pragma once
#include "../lib/pbt.hpp"
#include "link.hpp"
#include <poll.h>
#include <sys/prctl.h>

namespace mm {
struct Stats { pbt::u64 collectives = 0, merges = 0, empty_blobs = 0; };

// what a rank reports at the end of one unit of work (a rendezvous of all ranks)
inline void result(const std::string &s) { Frame f; f.op = RESULT; f.data.push_back(s); write_frame(link().fd, f); wait_reply(); }
inline void failed(const std::string &s) { Frame f; f.op = FAILED; f.data.push_back(s); write_frame(link().fd, f); _exit(78); }

struct Coordinator {
    struct Mail { int from, tag; bool array; pbt::u64 type; std::vector<std::string> data; };
    enum State { RUNNING, WAITING, GONE };
    int P; pbt::Rng rng; Stats &st;
    std::vector<int> fd; std::vector<pid_t> pid; std::vector<State> state; std::vector<Frame> req; std::vector<std::vector<Mail>> box; std::vector<int> count;
    std::function<void(const std::vector<std::string>&)> on_result;
    Coordinator(int p, pbt::u64 seed, Stats &s) : P(p), rng(seed), st(s), fd(p, -1), pid(p, -1), state(p, RUNNING), req(p), box(p), count(p, 0) {}
    ~Coordinator() {
        for (int i = 0; i < P; i++) { if (fd[i] >= 0) ::close(fd[i]); if (pid[i] > 0) { ::kill(pid[i], SIGKILL); int x; ::waitpid(pid[i], &x, 0); } }
    }
    void start(const std::function<void(int)> &body, long cpu_limit) {
        std::fflush(stdout); std::fflush(stderr);
        for (int i = 0; i < P; i++) {
            int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) { perror("socketpair"); std::exit(3); }
            pid_t parent = getpid(), p = fork(); if (p < 0) { perror("fork"); std::exit(3); }
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(79);
                for (int j = 0; j < i; j++) ::close(fd[j]); ::close(sv[0]);
                struct rlimit rl; rl.rlim_cur = (rlim_t) cpu_limit; rl.rlim_max = (rlim_t) cpu_limit + 5; setrlimit(RLIMIT_CPU, &rl);
                link().fd = sv[1]; link().rank = i; link().size = P;
                try { body(i); _exit(0); }
                catch (pbt::Fail &f) { failed(f.msg); }
                catch (std::exception &x) { failed(std::string("throws ") + x.what()); }
                catch (...) { failed("throws an object of unknown type"); }
                _exit(80);
            }
            ::close(sv[1]); fd[i] = sv[0]; pid[i] = p;
        }
    }
    static bool collective(int op) { return op >= BARRIER && op <= RESULT; }
    std::string describe(int i) const {
        std::ostringstream o; o << "rank " << i << " ";
        if (state[i] == GONE) o << "ended"; else if (state[i] == RUNNING) o << "runs";
        else if (req[i].op == RESULT) o << "has returned"; else { o << "waits in " << op_name(req[i].op); if (req[i].op == BCAST || req[i].op == REDUCE || req[i].op == SCATTER || req[i].op == GATHER) o << " with root " << req[i].a; if (req[i].op == RECV || req[i].op == PROBE) o << " from " << req[i].a; o << " (its request #" << count[i] << ")"; }
        return o.str();
    }
    std::string all() const { std::string s; for (int i = 0; i < P && i < 20; i++) s += (i ? "; " : "") + describe(i); return s; }
    void reply(int i, const Frame &f) { write_frame(fd[i], f); state[i] = RUNNING; }
    void read_from(int i) {
        Frame f;
        if (!read_frame(fd[i], f)) {
            int status = 0; pid_t p = pid[i]; ::waitpid(p, &status, 0); pid[i] = -1; ::close(fd[i]); fd[i] = -1; state[i] = GONE;
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGXCPU) PBT_FAIL("rank " << i << " of " << P << " does not return within its CPU limit");
            if (WIFSIGNALED(status)) PBT_FAIL("rank " << i << " of " << P << " dies of signal " << strsignal(WTERMSIG(status)));
            PBT_FAIL("rank " << i << " of " << P << " exits with status " << WEXITSTATUS(status));
        }
        if (f.op == FAILED) PBT_FAIL("rank " << i << " of " << P << ": " << f.data.at(0));
        if (f.op == SEND) { if (f.a < 0 || f.a >= P) PBT_FAIL("rank " << i << " sends to rank " << f.a << " of " << P); box[f.a].push_back(Mail { i, f.b, f.c != 0, f.type, f.data }); return; }
        req[i] = std::move(f); state[i] = WAITING; count[i]++;
    }
    Frame rpc_merge(const std::vector<std::string> &x, const std::vector<std::string> &y) {
        int who = (int) rng.below((pbt::u64) P); Frame f; f.op = MERGE; f.data = x; f.data.insert(f.data.end(), y.begin(), y.end());
        write_frame(fd[who], f); Frame r;
        if (!read_frame(fd[who], r)) { read_from(who); PBT_FAIL("rank " << who << " ends inside a reduction"); }
        if (r.op == FAILED) PBT_FAIL("rank " << who << " of " << P << ": reduction operator " << r.data.at(0));
        st.merges++; return r;
    }
    std::vector<std::string> combine(std::vector<std::vector<std::string>> v, bool commutes) {
        while (v.size() > 1) {
            std::size_t i, j;
            if (commutes) { i = rng.below(v.size()); j = rng.below(v.size() - 1); if (j >= i) j++; } else { i = rng.below(v.size() - 1); j = i + 1; }
            Frame r = rpc_merge(v[i], v[j]); v[i] = r.data; v.erase(v.begin() + (long) j);
        }
        return v[0];
    }
    void run_collective() {
        const Frame &f0 = req[0]; int op = f0.op, root = f0.a;
        for (int i = 1; i < P; i++) {
            if (req[i].op != op) PBT_FAIL("the ranks disagree on the next collective (a rank would be left waiting): " << all());
            if (op == RESULT) continue;
            if (op != BARRIER && req[i].a != root) PBT_FAIL("the ranks disagree on the root of a " << op_name(op) << ": " << all());
            if (req[i].type != f0.type) PBT_FAIL("the ranks pass different types to " << op_name(op) << " (rank 0 and rank " << i << ")");
            if (op != SCATTER && op != GATHER && req[i].c != f0.c) PBT_FAIL("the ranks pass " << f0.c << " and " << req[i].c << " values to " << op_name(op));
        }
        if (op != RESULT && (root < 0 || root >= P)) PBT_FAIL(op_name(op) << " with root " << root << " in a communicator of " << P);
        if (op == RESULT) {
            std::vector<std::string> r; for (int i = 0; i < P; i++) r.push_back(req[i].data.at(0));
            on_result(r); for (int i = 0; i < P; i++) { if (!box[i].empty()) PBT_FAIL("a message to rank " << i << " was never received"); count[i] = 0; }
            Frame d; d.op = DONE; for (int i : order()) reply(i, d); return;
        }
        st.collectives++;
        std::vector<Frame> out(P); for (auto &o : out) o.op = DONE;
        std::size_t n = (std::size_t) f0.c;
        switch (op) {
        case BARRIER: break;
        case BCAST: for (auto &o : out) o.data = req[root].data; break;
        case REDUCE: case ALLREDUCE: {
            std::vector<std::vector<std::string>> v; for (auto &q : req) v.push_back(q.data);
            std::vector<std::string> r = n ? combine(v, f0.b != 0) : std::vector<std::string>();
            for (int i = 0; i < P; i++) if (op == ALLREDUCE || i == root) out[i].data = r;
            break; }
        case SCAN: for (int i = 0; i < P; i++) { std::vector<std::vector<std::string>> v; for (int j = 0; j <= i; j++) v.push_back(req[j].data); out[i].data = combine(v, false); } break;
        case GATHER: case ALLGATHER: for (int i = 0; i < P; i++) if (op == ALLGATHER || i == root) for (auto &q : req) out[i].data.insert(out[i].data.end(), q.data.begin(), q.data.end()); break;
        case SCATTER: {
            n = (std::size_t) req[root].c; for (int i = 0; i < P; i++) if ((std::size_t) req[i].c != n) PBT_FAIL("the ranks expect different counts in scatter");
            if (req[root].data.size() < n * (std::size_t) P) PBT_FAIL("scatter of " << req[root].data.size() << " values to " << P << " ranks");
            for (int i = 0; i < P; i++) out[i].data.assign(req[root].data.begin() + (long) (n * i), req[root].data.begin() + (long) (n * (i + 1)));
            break; }
        case ALLTOALL: { std::size_t m = n / (std::size_t) P; for (int i = 0; i < P; i++) for (auto &q : req) out[i].data.insert(out[i].data.end(), q.data.begin() + (long) (m * i), q.data.begin() + (long) (m * (i + 1))); break; }
        }
        for (int i : order()) reply(i, out[i]);
    }
    std::vector<int> order() { std::vector<int> o; for (int i = 0; i < P; i++) o.push_back(i); rng.shuffle(o); return o; }
    int find_mail(int i) const { for (std::size_t k = 0; k < box[i].size(); k++) if ((req[i].a < 0 || box[i][k].from == req[i].a) && (req[i].b < 0 || box[i][k].tag == req[i].b)) return (int) k; return -1; }
    bool point_to_point() {
        bool any = false;
        for (int i = 0; i < P; i++) {
            if (state[i] != WAITING) continue;
            int op = req[i].op; if (op != RECV && op != PROBE && op != IPROBE) continue;
            int k = find_mail(i); Frame r; r.op = DONE;
            if (op == IPROBE) { r.c = k >= 0; if (k >= 0) { r.a = box[i][k].from; r.b = box[i][k].tag; } reply(i, r); any = true; continue; }
            if (k < 0) continue;
            r.a = box[i][k].from; r.b = box[i][k].tag;
            if (op == RECV) { if (box[i][k].type != req[i].type) PBT_FAIL("rank " << i << " receives a value of another type than rank " << r.a << " sent"); r.data = box[i][k].data; box[i].erase(box[i].begin() + k); }
            reply(i, r); any = true;
        }
        return any;
    }
    void loop() {
        for (;;) {
            std::vector<struct pollfd> p; std::vector<int> who; int gone = 0;
            for (int i = 0; i < P; i++) { if (state[i] == RUNNING) { struct pollfd q; q.fd = fd[i]; q.events = POLLIN; q.revents = 0; p.push_back(q); who.push_back(i); } else if (state[i] == GONE) gone++; }
            if (gone == P) return;
            if (!p.empty()) {
                int r = ::poll(p.data(), p.size(), -1); if (r < 0) { if (errno == EINTR) continue; perror("poll"); std::exit(3); }
                for (std::size_t k = 0; k < p.size(); k++) if (p[k].revents) read_from(who[k]);
                point_to_point(); continue;
            }
            if (point_to_point()) continue;
            bool coll = gone == 0; for (int i = 0; i < P && coll; i++) if (!collective(req[i].op)) coll = false;
            if (!coll) PBT_FAIL("deadlock: " << all());
            run_collective();
        }
    }
};
} // namespace mm
