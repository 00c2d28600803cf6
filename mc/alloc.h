// Memory that runs out: while a Fail object lives, the k-th allocation of this thread fails (k = 0 is the
// next one), and optionally every later one. Include in one translation unit of a harness.
#pragma once
#include <cstdlib>
#include <new>
namespace mc { namespace alloc {
inline thread_local long left = -1, seen = 0; inline thread_local bool counting = false, forever = false, hit = false;
struct Fail { Fail(long k, bool all) { seen = 0; hit = false; left = k; forever = all; counting = true; } ~Fail() { counting = false; left = -1; } };
inline void* get(size_t n) {
    if (counting) { seen++; if (left == 0) { hit = true; if (!forever) left = -1; throw std::bad_alloc(); } if (left > 0) left--; }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
// the number of allocations f makes
template <class F> long count(F f) { f(); { Fail q(-1, false); f(); } return seen; }
} }
void* operator new(size_t n) { return mc::alloc::get(n); }
void* operator new[](size_t n) { return mc::alloc::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return mc::alloc::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return mc::alloc::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
