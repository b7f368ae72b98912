// Replaces operator new/delete by an arena at a fixed address whose slots are handed out in a seeded
// order, while it is switched on. Addresses (and with them every order derived from pointers) become a
// pure function of the seed, and differ between seeds. This is compiled without instrumentation.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>

namespace layout {
enum { CLASSES = 64, GRAN = 16, BLOCK = 64 };
static char lk;
struct Lock { Lock() { while (__atomic_test_and_set(&lk, __ATOMIC_ACQUIRE)) {} } ~Lock() { __atomic_clear(&lk, __ATOMIC_RELEASE); } };
struct State {
    char *base, *cur, *end; bool on; uint64_t rng; bool shuffle;
    void *free_[CLASSES + 1];
};
static State state_; static State& st() { return state_; }
static uint64_t rnd() { uint64_t z = (st().rng += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void start(uint64_t seed) {
    std::size_t bytes = (std::size_t) 4 << 30; std::uintptr_t at = 0x200000000000ULL;
    State &s = st();
    if (!s.base) {
        void *p = mmap((void*) at, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) return;
        s.base = s.cur = (char*) p; s.end = s.base + bytes;
    }
    s.rng = seed; s.shuffle = seed % 4 != 0; s.on = true;
}
void stop() { st().on = false; }
static bool owns(void *p) { State &s = st(); return s.base && (char*) p >= s.base && (char*) p < s.end; }
static void *get(std::size_t n) {
    State &s = st(); if (n == 0) n = 1;
    std::size_t c = (n + GRAN - 1) / GRAN;
    if (c > CLASSES) {       // header with the class index so that all blocks look alike
        std::size_t b = (n + 15) & ~(std::size_t) 15; if ((std::size_t) (s.end - s.cur) < b + 16) return 0;
        char *p = s.cur; s.cur += b + 16; *(std::size_t*) p = 0; return p + 16;
    }
    if (!s.free_[c]) {
        std::size_t sz = c * GRAN + 16; if ((std::size_t) (s.end - s.cur) < sz * BLOCK) return 0;
        char *b = s.cur; s.cur += sz * BLOCK; int order[BLOCK]; for (int i = 0; i < BLOCK; i++) order[i] = i;
        if (s.shuffle) for (int i = BLOCK; i > 1; i--) { int j = (int) (rnd() % i), t = order[i - 1]; order[i - 1] = order[j]; order[j] = t; }
        else for (int i = 0; i < BLOCK / 2; i++) { int t = order[i]; order[i] = order[BLOCK - 1 - i]; order[BLOCK - 1 - i] = t; }
        for (int i = 0; i < BLOCK; i++) { char *p = b + sz * order[i]; *(std::size_t*) p = c; void **q = (void**) (p + 16); *q = s.free_[c]; s.free_[c] = q; }
    }
    void **q = (void**) s.free_[c]; s.free_[c] = *q; return q;
}
static void put(void *p) { State &s = st(); std::size_t c = *(std::size_t*) ((char*) p - 16); if (!c) return; *(void**) p = s.free_[c]; s.free_[c] = p; }
static void *alloc(std::size_t n) {
    if (st().on) { Lock l; void *p = get(n); if (p) return p; }
    void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
static void dealloc(void *p) { if (!p) return; if (owns(p)) { Lock l; put(p); } else std::free(p); }
}
void *operator new(std::size_t n) { return layout::alloc(n); }
void *operator new[](std::size_t n) { return layout::alloc(n); }
void *operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return layout::alloc(n); } catch (...) { return 0; } }
void *operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return layout::alloc(n); } catch (...) { return 0; } }
void operator delete(void *p) noexcept { layout::dealloc(p); }
void operator delete[](void *p) noexcept { layout::dealloc(p); }
void operator delete(void *p, std::size_t) noexcept { layout::dealloc(p); }
void operator delete[](void *p, std::size_t) noexcept { layout::dealloc(p); }
void operator delete(void *p, const std::nothrow_t&) noexcept { layout::dealloc(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { layout::dealloc(p); }
