// Transport of the stand-in MPI: every rank is a process connected to a coordinator by a socket pair.
// A request is answered by the coordinator only when every rank that has to take part has arrived.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>

namespace mm {
enum Op { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, SCAN, GATHER, ALLGATHER, SCATTER, ALLTOALL, RESULT, FAILED, SEND, RECV, PROBE, IPROBE, MERGED,
          DONE = 100, MERGE, DIE };
inline const char *op_name(int op) {
    static const char *n[] = { "?", "barrier", "broadcast", "reduce", "all_reduce", "scan", "gather", "all_gather", "scatter", "all_to_all", "result", "failed", "send", "recv", "probe", "iprobe", "merged" };
    return op >= 0 && op <= MERGED ? n[op] : "?";
}
struct Frame {
    int op = 0, a = 0, b = 0, c = 0;      // collectives: a = root, b = op is commutative, c = number of values; send/recv: a = peer, b = tag
    std::uint64_t type = 0; std::vector<std::string> data;
};
inline void put(int fd, const void *p, std::size_t n) {
    const char *s = (const char*) p;
    while (n) { ssize_t r = ::send(fd, s, n, MSG_NOSIGNAL); if (r < 0) { if (errno == EINTR) continue; throw std::runtime_error("link closed"); } s += r; n -= (std::size_t) r; }
}
inline bool take(int fd, void *p, std::size_t n) {
    char *s = (char*) p;
    while (n) { ssize_t r = ::read(fd, s, n); if (r < 0) { if (errno == EINTR) continue; return false; } if (r == 0) return false; s += r; n -= (std::size_t) r; }
    return true;
}
inline void write_frame(int fd, const Frame &f) {
    std::string s; auto add = [&](const void *p, std::size_t n) { s.append((const char*) p, n); };
    std::int32_t h[5] = { f.op, f.a, f.b, f.c, (std::int32_t) f.data.size() }; add(h, sizeof h); add(&f.type, 8);
    for (auto &d : f.data) { std::uint64_t l = d.size(); add(&l, 8); add(d.data(), d.size()); }
    put(fd, s.data(), s.size());
}
inline bool read_frame(int fd, Frame &f) {
    std::int32_t h[5]; if (!take(fd, h, sizeof h) || !take(fd, &f.type, 8)) return false;
    f.op = h[0]; f.a = h[1]; f.b = h[2]; f.c = h[3]; f.data.assign((std::size_t) h[4], std::string());
    for (auto &d : f.data) { std::uint64_t l; if (!take(fd, &l, 8)) return false; d.resize(l); if (l && !take(fd, &d[0], l)) return false; }
    return true;
}
struct Link { int fd = -1, rank = 0, size = 1; };
inline Link &link() { static Link l; return l; }
inline Frame wait_reply() { Frame f; if (!read_frame(link().fd, f) || f.op == DIE) _exit(77); return f; }
} // namespace mm
