// A stand-in for the parts of Boost.MPI that a library of collectives is likely to use.
#pragma once
#include "../../link.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/complex.hpp>
#include <boost/serialization/list.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <algorithm>
#include <chrono>
#include <functional>
#include <iterator>
#include <memory>
#include <sstream>
#include <typeinfo>
#include <type_traits>
#define PARMCB_STANDIN_MPI 1

namespace boost { namespace mpi {

struct exception : std::exception { const char *what() const noexcept override { return "stand-in MPI error"; } };

// ---- traits
template<class T> struct is_mpi_datatype : mpl::bool_<std::is_arithmetic<T>::value> {};
template<class T> struct is_mpi_builtin_datatype : mpl::bool_<std::is_arithmetic<T>::value> {};
template<class T> struct maximum { typedef T first_argument_type, second_argument_type, result_type; const T& operator()(const T &x, const T &y) const { return x < y ? y : x; } };
template<class T> struct minimum { typedef T first_argument_type, second_argument_type, result_type; const T& operator()(const T &x, const T &y) const { return x < y ? x : y; } };
template<class T> struct bitwise_and { T operator()(const T &x, const T &y) const { return x & y; } };
template<class T> struct bitwise_or { T operator()(const T &x, const T &y) const { return x | y; } };
template<class T> struct bitwise_xor { T operator()(const T &x, const T &y) const { return x ^ y; } };
template<class T> struct logical_xor { T operator()(const T &x, const T &y) const { return (x || y) && !(x && y); } };
template<class Op, class T> struct is_commutative : mpl::false_ {};
template<class T> struct is_commutative<maximum<T>, T> : mpl::true_ {};
template<class T> struct is_commutative<minimum<T>, T> : mpl::true_ {};
template<class T> struct is_commutative<std::plus<T>, T> : mpl::bool_<std::is_arithmetic<T>::value> {};
template<class T> struct is_commutative<std::multiplies<T>, T> : mpl::bool_<std::is_arithmetic<T>::value> {};
template<class T> struct is_commutative<std::logical_and<T>, T> : mpl::bool_<std::is_arithmetic<T>::value> {};
template<class T> struct is_commutative<std::logical_or<T>, T> : mpl::bool_<std::is_arithmetic<T>::value> {};

namespace threading { enum level { single, funneled, serialized, multiple }; }
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
const int any_source = -1; const int any_tag = -1;

namespace standin {
template<class T> std::string pack(const T &v) {
    std::ostringstream o; { boost::archive::binary_oarchive a(o, boost::archive::no_header | boost::archive::no_codecvt); a << v; } return o.str();
}
template<class T> void unpack(const std::string &s, T &v) {
    std::istringstream i(s); boost::archive::binary_iarchive a(i, boost::archive::no_header | boost::archive::no_codecvt); a >> v;
}
template<class T> std::uint64_t type_of() { std::uint64_t h = 1469598103934665603ULL; for (const char *p = typeid(T).name(); *p; ++p) { h ^= (unsigned char) *p; h *= 1099511628211ULL; } return h; }
template<class T> std::vector<std::string> pack_n(const T *v, std::size_t n) { std::vector<std::string> r; for (std::size_t i = 0; i < n; i++) r.push_back(pack(v[i])); return r; }
template<class T> mm::Frame request(int op, int root, std::vector<std::string> data, std::size_t n, bool commutes = false) {
    mm::Frame f; f.op = op; f.a = root; f.b = commutes; f.c = (int) n; f.type = type_of<T>(); f.data = std::move(data);
    mm::write_frame(mm::link().fd, f); return mm::Frame();
}
inline mm::Frame finish() { return mm::wait_reply(); }
template<class T, class F> mm::Frame finish_merging(F op) {
    for (;;) {
        mm::Frame f = mm::wait_reply(); if (f.op != mm::MERGE) return f;
        mm::Frame r; r.op = mm::MERGED; std::size_t n = f.data.size() / 2;
        for (std::size_t i = 0; i < n; i++) { T x = T(), y = T(); unpack(f.data[i], x); unpack(f.data[n + i], y); T z = op(x, y); r.data.push_back(pack(z)); }
        mm::write_frame(mm::link().fd, r);
    }
}
}

class status {
public:
    int source() const { return s; } int tag() const { return t; } int error() const { return 0; } bool cancelled() const { return false; }
    template<class T> optional<int> count() const { return 1; }
    int s = -1, t = -1;
};
class communicator;
class request {
public:
    request() {}
    explicit request(std::function<status()> w, std::function<bool()> t) : st(std::make_shared<State>()) { st->wait = w; st->test = t; }
    status wait() { if (!st) return status(); if (!st->done) { st->res = st->wait(); st->done = true; } return st->res; }
    optional<status> test() { if (!st) return status(); if (st->done || st->test()) return wait(); return none; }
    bool active() const { return st && !st->done; }
    void cancel() {}
private:
    struct State { std::function<status()> wait; std::function<bool()> test; bool done = false; status res; };
    std::shared_ptr<State> st;
};
template<class It> void wait_all(It a, It b) { for (; a != b; ++a) a->wait(); }
template<class It, class Out> Out wait_all(It a, It b, Out o) { for (; a != b; ++a) *o++ = a->wait(); return o; }

class communicator {
public:
    communicator() {}
    int rank() const { return mm::link().rank; }
    int size() const { return mm::link().size; }
    operator bool() const { return true; }
    bool has_cartesian_topology() const { return false; }
    void barrier() const { standin::request<int>(mm::BARRIER, 0, {}, 0); standin::finish(); }
    void abort(int) const { std::abort(); }
    template<class T> void send(int dest, int tag, const T &v) const { mm::Frame f; f.op = mm::SEND; f.a = dest; f.b = tag; f.type = standin::type_of<T>(); f.data.push_back(standin::pack(v)); mm::write_frame(mm::link().fd, f); }
    template<class T> void send(int dest, int tag, const T *v, int n) const { mm::Frame f; f.op = mm::SEND; f.a = dest; f.b = tag; f.c = 1; f.type = standin::type_of<T>(); f.data = standin::pack_n(v, (std::size_t) n); mm::write_frame(mm::link().fd, f); }
    void send(int dest, int tag) const { send(dest, tag, (char) 0); }
    template<class T> status recv(int source, int tag, T &v) const {
        mm::Frame f; f.op = mm::RECV; f.a = source; f.b = tag; f.type = standin::type_of<T>(); mm::write_frame(mm::link().fd, f);
        mm::Frame r = standin::finish(); standin::unpack(r.data.at(0), v); status s; s.s = r.a; s.t = r.b; return s;
    }
    template<class T> status recv(int source, int tag, T *v, int n) const {
        mm::Frame f; f.op = mm::RECV; f.a = source; f.b = tag; f.c = 1; f.type = standin::type_of<T>(); mm::write_frame(mm::link().fd, f);
        mm::Frame r = standin::finish(); for (int i = 0; i < n && i < (int) r.data.size(); i++) standin::unpack(r.data[i], v[i]); status s; s.s = r.a; s.t = r.b; return s;
    }
    status recv(int source, int tag) const { char c; return recv(source, tag, c); }
    status probe(int source = any_source, int tag = any_tag) const {
        mm::Frame f; f.op = mm::PROBE; f.a = source; f.b = tag; mm::write_frame(mm::link().fd, f); mm::Frame r = standin::finish(); status s; s.s = r.a; s.t = r.b; return s;
    }
    optional<status> iprobe(int source = any_source, int tag = any_tag) const {
        mm::Frame f; f.op = mm::IPROBE; f.a = source; f.b = tag; mm::write_frame(mm::link().fd, f); mm::Frame r = standin::finish();
        if (!r.c) return none; status s; s.s = r.a; s.t = r.b; return s;
    }
    template<class T> mpi::request isend(int dest, int tag, const T &v) const { send(dest, tag, v); return mpi::request([]() { return status(); }, []() { return true; }); }
    template<class T> mpi::request isend(int dest, int tag, const T *v, int n) const { send(dest, tag, v, n); return mpi::request([]() { return status(); }, []() { return true; }); }
    template<class T> mpi::request irecv(int source, int tag, T &v) const {
        communicator c(*this); T *p = &v; return mpi::request([c, source, tag, p]() { return c.recv(source, tag, *p); }, [c, source, tag]() { return (bool) c.iprobe(source, tag); });
    }
    template<class T> mpi::request irecv(int source, int tag, T *v, int n) const {
        communicator c(*this); return mpi::request([c, source, tag, v, n]() { return c.recv(source, tag, v, n); }, [c, source, tag]() { return (bool) c.iprobe(source, tag); });
    }
};
inline bool operator==(const communicator&, const communicator&) { return true; }

class environment {
public:
    explicit environment(bool = true) {}
    explicit environment(threading::level, bool = true) {}
    environment(int&, char**&, bool = true) {}
    environment(int&, char**&, threading::level, bool = true) {}
    static bool initialized() { return true; } static bool finalized() { return false; }
    static void abort(int) { std::abort(); }
    static std::string processor_name() { return "standin"; }
    static threading::level thread_level() { return threading::multiple; }
    static bool is_main_thread() { return true; }
};

class timer {
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
public:
    void restart() { t0 = std::chrono::steady_clock::now(); }
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    double elapsed_max() const { return 1e9; } double elapsed_min() const { return 1e-9; }
    static bool time_is_global() { return false; }
};

template<class T> struct inplace_t { T &buffer; explicit inplace_t(T &b) : buffer(b) {} };
template<class T> struct inplace_t<T*> { T *buffer; explicit inplace_t(T *b) : buffer(b) {} };
template<class T> inplace_t<T> inplace(T &v) { return inplace_t<T>(v); }
template<class T> inplace_t<T*> inplace(T *v) { return inplace_t<T*>(v); }

// ---- broadcast
template<class T> void broadcast(const communicator &c, T *v, int n, int root) {
    bool me = c.rank() == root; standin::request<T>(mm::BCAST, root, me ? standin::pack_n(v, (std::size_t) n) : std::vector<std::string>(), (std::size_t) n);
    mm::Frame r = standin::finish(); if (!me) for (int i = 0; i < n; i++) standin::unpack(r.data.at((std::size_t) i), v[i]);
}
template<class T> void broadcast(const communicator &c, T &v, int root) { broadcast(c, &v, 1, root); }

// ---- reduce
namespace standin {
template<class T, class Op> void reduce_n(int kind, const communicator &c, const T *in, std::size_t n, T *out, Op op, int root) {
    request<T>(kind, root, pack_n(in, n), n, is_commutative<Op, T>::value);
    mm::Frame r = finish_merging<T>(op);
    if (out && (kind != mm::REDUCE || c.rank() == root)) for (std::size_t i = 0; i < n; i++) unpack(r.data.at(i), out[i]);
}
}
template<class T, class Op> void reduce(const communicator &c, const T *in, int n, T *out, Op op, int root) { standin::reduce_n(mm::REDUCE, c, in, (std::size_t) n, out, op, root); }
template<class T, class Op> void reduce(const communicator &c, const T *in, int n, Op op, int root) { standin::reduce_n(mm::REDUCE, c, in, (std::size_t) n, (T*) 0, op, root); }
template<class T, class Op> void reduce(const communicator &c, const T &in, T &out, Op op, int root) { standin::reduce_n(mm::REDUCE, c, &in, 1, &out, op, root); }
template<class T, class Op> void reduce(const communicator &c, const T &in, Op op, int root) { standin::reduce_n(mm::REDUCE, c, &in, 1, (T*) 0, op, root); }
template<class T, class Op> void reduce(const communicator &c, const std::vector<T> &in, std::vector<T> &out, Op op, int root) { if (c.rank() == root) out.resize(in.size()); standin::reduce_n(mm::REDUCE, c, in.data(), in.size(), out.data(), op, root); }
template<class T, class Op> void reduce(const communicator &c, const std::vector<T> &in, Op op, int root) { standin::reduce_n(mm::REDUCE, c, in.data(), in.size(), (T*) 0, op, root); }
template<class T, class Op> void all_reduce(const communicator &c, const T *in, int n, T *out, Op op) { standin::reduce_n(mm::ALLREDUCE, c, in, (std::size_t) n, out, op, 0); }
template<class T, class Op> void all_reduce(const communicator &c, const T &in, T &out, Op op) { standin::reduce_n(mm::ALLREDUCE, c, &in, 1, &out, op, 0); }
template<class T, class Op> T all_reduce(const communicator &c, const T &in, Op op) { T out = T(); standin::reduce_n(mm::ALLREDUCE, c, &in, 1, &out, op, 0); return out; }
template<class T, class Op> void all_reduce(const communicator &c, inplace_t<T*> v, int n, Op op) { std::vector<T> in(v.buffer, v.buffer + n); standin::reduce_n(mm::ALLREDUCE, c, in.data(), in.size(), v.buffer, op, 0); }
template<class T, class Op> void all_reduce(const communicator &c, inplace_t<T> v, Op op) { T in(v.buffer); standin::reduce_n(mm::ALLREDUCE, c, &in, 1, &v.buffer, op, 0); }
template<class T, class Op> void scan(const communicator &c, const T &in, T &out, Op op) { standin::reduce_n(mm::SCAN, c, &in, 1, &out, op, 0); }
template<class T, class Op> T scan(const communicator &c, const T &in, Op op) { T out = T(); standin::reduce_n(mm::SCAN, c, &in, 1, &out, op, 0); return out; }

// ---- gather
namespace standin {
template<class T> void gather_n(int kind, const communicator &c, const T *in, std::size_t n, T *out, int root) {
    request<T>(kind, root, pack_n(in, n), n); mm::Frame r = finish();
    if (out && (kind == mm::ALLGATHER || c.rank() == root)) for (std::size_t i = 0; i < r.data.size(); i++) unpack(r.data[i], out[i]);
}
}
template<class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) { if (c.rank() == root) out.resize((std::size_t) c.size()); standin::gather_n(mm::GATHER, c, &in, 1, out.data(), root); }
template<class T> void gather(const communicator &c, const T &in, T *out, int root) { standin::gather_n(mm::GATHER, c, &in, 1, out, root); }
template<class T> void gather(const communicator &c, const T &in, int root) { standin::gather_n(mm::GATHER, c, &in, 1, (T*) 0, root); }
template<class T> void gather(const communicator &c, const T *in, int n, std::vector<T> &out, int root) { if (c.rank() == root) out.resize((std::size_t) c.size() * n); standin::gather_n(mm::GATHER, c, in, (std::size_t) n, out.data(), root); }
template<class T> void gather(const communicator &c, const T *in, int n, T *out, int root) { standin::gather_n(mm::GATHER, c, in, (std::size_t) n, out, root); }
template<class T> void gather(const communicator &c, const T *in, int n, int root) { standin::gather_n(mm::GATHER, c, in, (std::size_t) n, (T*) 0, root); }
template<class T> void all_gather(const communicator &c, const T &in, std::vector<T> &out) { out.resize((std::size_t) c.size()); standin::gather_n(mm::ALLGATHER, c, &in, 1, out.data(), 0); }
template<class T> void all_gather(const communicator &c, const T &in, T *out) { standin::gather_n(mm::ALLGATHER, c, &in, 1, out, 0); }
template<class T> void all_gather(const communicator &c, const T *in, int n, std::vector<T> &out) { out.resize((std::size_t) c.size() * n); standin::gather_n(mm::ALLGATHER, c, in, (std::size_t) n, out.data(), 0); }

// ---- scatter
namespace standin {
template<class T> void scatter_n(const communicator &c, const T *in, std::size_t have, T *out, std::size_t n, int root) {
    request<T>(mm::SCATTER, root, c.rank() == root ? pack_n(in, have) : std::vector<std::string>(), n); mm::Frame r = finish();
    for (std::size_t i = 0; i < n; i++) unpack(r.data.at(i), out[i]);
}
}
template<class T> void scatter(const communicator &c, const std::vector<T> &in, T &out, int root) { standin::scatter_n(c, in.data(), in.size(), &out, 1, root); }
template<class T> void scatter(const communicator &c, const T *in, T &out, int root) { standin::scatter_n(c, in, (std::size_t) c.size(), &out, 1, root); }
template<class T> void scatter(const communicator &c, T &out, int root) { standin::scatter_n(c, (const T*) 0, 0, &out, 1, root); }
template<class T> void scatter(const communicator &c, const std::vector<T> &in, T *out, int n, int root) { standin::scatter_n(c, in.data(), in.size(), out, (std::size_t) n, root); }
template<class T> void scatter(const communicator &c, const T *in, T *out, int n, int root) { standin::scatter_n(c, in, (std::size_t) c.size() * n, out, (std::size_t) n, root); }
template<class T> void scatter(const communicator &c, T *out, int n, int root) { standin::scatter_n(c, (const T*) 0, 0, out, (std::size_t) n, root); }

template<class T> void all_to_all(const communicator &c, const std::vector<T> &in, std::vector<T> &out) {
    standin::request<T>(mm::ALLTOALL, 0, standin::pack_n(in.data(), in.size()), in.size()); mm::Frame r = standin::finish();
    out.resize(r.data.size()); for (std::size_t i = 0; i < r.data.size(); i++) standin::unpack(r.data[i], out[i]);
}
} } // namespace boost::mpi
