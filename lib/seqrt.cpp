#include "seqrt.h"
#include <cstdlib>
#include <new>
namespace seq {
static long g_live = 0, g_allocs = 0, g_fail = -1;
static bool g_fired = false;
long live() { return g_live; }
long allocs() { return g_allocs; }
void failAlloc(long n) { g_fail = n; g_fired = false; }
bool allocFaultFired() { return g_fired; }
long Elem::live = 0, Elem::ops = 0, Elem::faultAt = -1;
bool Elem::fired = false;
static void* alloc(size_t n) {
   if (g_fail >= 0 && g_fail-- == 0) { g_fired = true; throw std::bad_alloc(); }
   void* p = malloc(n ? n : 1);
   if (!p) throw std::bad_alloc();
   ++g_live; ++g_allocs;
   return p;
}
static void release(void* p) noexcept { if (p) { --g_live; free(p); } }
}
void* operator new(size_t n) { return seq::alloc(n); }
void* operator new[](size_t n) { return seq::alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return seq::alloc(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return seq::alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { seq::release(p); }
void operator delete[](void* p) noexcept { seq::release(p); }
void operator delete(void* p, size_t) noexcept { seq::release(p); }
void operator delete[](void* p, size_t) noexcept { seq::release(p); }
