// operator new/delete (in layout.cpp) can be switched to an arena at a fixed address whose slots are handed
// out in a seeded order: addresses, and with them every order derived from pointers, become a pure
// function of the seed, and differ between seeds.
#pragma once
#include <cstdint>
namespace layout { void start(uint64_t seed); void stop(); }
