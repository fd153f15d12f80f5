// The runtime behind tsrt.h.  It is not instrumented itself; it provides the functions that
// instrumented code calls (__tsan_*) and stands in for the thread, clock and allocation calls.
#include "tsrt.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" char __data_start[] __attribute__((weak));
extern "C" char _end[];
extern "C" char __executable_start[];

namespace ts {

Options opt;
void (*onAtomic)(int thread, const volatile void* addr, uint64_t before, bool wrote) = nullptr;

namespace {

constexpr int MAXT = 12;
constexpr size_t STACK = 1 << 20;
constexpr size_t ARENA = 512ULL << 20;
constexpr uintptr_t ARENA_BASE = 0x200000000000ULL;
constexpr uintptr_t ARENA_END = ARENA_BASE + ARENA * MAXT;
constexpr uintptr_t STACK_BASE = 0x210000000000ULL;
constexpr uintptr_t VB_BASE = 0x220000000000ULL;      // one byte per 8 bytes of arena
constexpr uintptr_t SH_BASE = 0x230000000000ULL;      // one granule per 8 bytes of arena
constexpr uintptr_t GSH_BASE = 0x240000000000ULL;     // one granule per 8 bytes of globals
constexpr uint64_t NEVER = UINT64_MAX;

enum : uint8_t { VB_NONE = 0, VB_FREED = 0xF0, VB_START = 0xA0, VB_STARTFREED = 0xA1 };

struct VC {
   uint32_t c[MAXT];
   void clear() { for (auto& x : c) x = 0; }
   void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Loc {
   uintptr_t addr;
   uint32_t epoch;
   uint64_t hw;          // hash of the last write event
   uint64_t ver;         // number of changes
   VC rel;               // what an acquire operation synchronises with
   int owner;            // mutexes, rwlocks (writer)
   unsigned count;       // recursion; semaphores: balance of posts; rwlocks: readers
   uint32_t readers;
   uint32_t waiters;     // condition variables
   int gstate;           // once / guards: 0 new, 1 in progress, 2 done
   bool semInit;
};

enum Wait : uint8_t { W_NONE, W_LOCK, W_RD, W_WR, W_COND, W_JOIN, W_GUARD, W_SLEEP, W_QUIESCE, W_SEM };
const char* const waitName[] = {"runnable", "waiting for a mutex", "waiting for a read lock", "waiting for a write lock", "waiting for a condition variable",
                          "joining a thread", "waiting for a static initialization", "sleeping", "waiting for quiescence", "waiting for a semaphore"};

struct Watch { Loc* l; uint64_t ver; uintptr_t pc; unsigned n; };
constexpr int MAXWATCH = 48;

struct Thread {
   int id;
   pthread_t pt;
   std::atomic<int> baton;
   Wait wk;
   Loc* wl;
   Loc* wm;               // the mutex to be locked again after a wait
   Thread* wt;            // joined thread
   uint64_t deadline;
   bool timedOut, woken;
   bool finished, joined, detached;
   uint64_t chain;
   VC vc, fenceRel, fenceAcq;
   unsigned quiet, guardDepth;
   unsigned guardQuiet, guardQuietAt[8];     // static initializations going on unseen
   uint64_t yields;
   Watch watch[MAXWATCH];
   int nwatch;
   bool wantPark, parked, watchClock;
   uint32_t E, S, P;      // fairness: see yieldFair()
   char* bump;
   char* base;
   void* (*fn)(void*);
   void* arg;
   void* ret;
   unsigned mdepth;
   bool pooled, gone;     // the thread exists / has left the pool
   unsigned nDtors;
   struct { void (*fn)(void*); void* obj; } dtors[64];     // of thread_local objects
};

Thread T[MAXT];
int nT = 0;
thread_local Thread* tself = nullptr;
uint32_t epoch = 0;
int usedPreempt, usedCas, usedSpur;
uint64_t nsteps, vnow;
int64_t epochSeconds;
uint64_t obsHash;
long nlive;
uint64_t effects, unparkEffects;
int unparkRounds;
bool arenaOff = false;
bool endedAll;
std::atomic<int> allDone;
pthread_key_t endKey;
const std::function<void()>* theBody;
bool inited = false;

constexpr unsigned LOCS = 1 << 14;
Loc* locs = nullptr;
unsigned nlocs;

// ---------------------------------------------------------------- low level
void fwait(std::atomic<int>* a, int v) { syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fwake(std::atomic<int>* a) { syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

inline void rawcpy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
inline void rawset(void* d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }

template<class F> F real(const char* name, const char* ver = nullptr) {
   void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
   if (!p) p = dlsym(RTLD_NEXT, name);
   if (!p) { fprintf(stderr, "no %s\n", name); _exit(3); }
   return (F)p;
}
#define REAL(name) ([]() { static auto f = real<decltype(&::name)>(#name); return f; }())
#define REALV(name, v) ([]() { static auto f = real<decltype(&::name)>(#name, v); return f; }())

inline uint64_t hmix(uint64_t a, uint64_t b) {
   uint64_t h = (a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdULL;
   return h ^ (h >> 32);
}

std::string where(const void* pc) {
   Dl_info di; char b[512];
   if (dladdr((const char*)pc - 1, &di) && di.dli_sname) {
      int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
      std::string n = d ? d : di.dli_sname;
      free(d);
      if (n.size() > 150) n = n.substr(0, 150) + "...";
      snprintf(b, sizeof b, "%s+0x%lx", n.c_str(), (unsigned long)((const char*)pc - (const char*)di.dli_saddr));
   }
   else snprintf(b, sizeof b, "0x%lx", (unsigned long)((const char*)pc - __executable_start));
   return b;
}

struct Q {      // internal quiet section
   Thread* t;
   Q(): t(tself) { if (t) ++t->quiet; }
   ~Q() { if (t) --t->quiet; }
};

void tnote(Thread* t, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void tnote(Thread* t, const char* fmt, ...) {
   char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
   mc::note("  T%d %s\n", t->id, b);
}
#define TNOTE(t, pc, ...) do { if (__builtin_expect(mc::noting() && !arenaOff, 0)) { Q q_; char nb_[200]; snprintf(nb_, sizeof nb_, __VA_ARGS__); tnote(t, "%s in %s", nb_, where(pc).c_str()); } } while (0)

std::string spinning() {
   std::string r;
   for (int i = 0; i < nT; ++i) if (T[i].parked && !T[i].finished)
      for (int k = 0; k < T[i].nwatch; ++k) if (T[i].watch[k].n > 1 && r.size() < 1500) r += (r.empty() ? " (reading in " : ", ") + where((void*)T[i].watch[k].pc);
   return r.empty() ? r : r + ")";
}

std::string threadStates() {
   std::string r;
   for (int i = 0; i < nT; ++i) {
      char b[100];
      snprintf(b, sizeof b, "%sT%d %s", i ? ", " : "", i, T[i].finished ? "finished" : T[i].parked ? "spinning" : waitName[T[i].wk]);
      r += b;
   }
   return r;
}

// ---------------------------------------------------------------- locations
Loc* loc(uintptr_t a) {
   unsigned i = (unsigned)(hmix(a, 77) & (LOCS - 1));
   for (;; i = (i + 1) & (LOCS - 1)) {
      Loc& l = locs[i];
      if (l.epoch != epoch) {
         if (++nlocs > LOCS / 2) mc::broken("too many synchronization objects");
         rawset(&l, 0, sizeof l);
         l.addr = a; l.epoch = epoch; l.owner = -1;
         return &l;
      }
      if (l.addr == a) return &l;
   }
}
Loc* loc(const volatile void* p) { return loc((uintptr_t)p); }

// ---------------------------------------------------------------- memory checks
struct Cell { uint32_t clk; uint8_t tid, mask, flags, pad; uint32_t pc; };       // flags: 1 write, 2 atomic, 4 release of memory
constexpr int CELLS = 10;
struct Granule { uint32_t epoch; uint32_t n; Cell c[CELLS]; };

inline bool inArena(uintptr_t a) { return a - ARENA_BASE < ARENA * MAXT; }
inline bool inGlobals(uintptr_t a) { return a >= (uintptr_t)__data_start && a < (uintptr_t)_end; }
inline uint8_t* vb(uintptr_t a) { return (uint8_t*)(VB_BASE + ((a - ARENA_BASE) >> 3)); }

const char* kindName(unsigned f) { return f & 4 ? "release of the memory" : f & 2 ? (f & 1 ? "atomic write" : "atomic read") : (f & 1 ? "write" : "read"); }

[[noreturn]] void raceFail(Thread* t, uintptr_t a, const Cell& o, unsigned flags, const void* pc) {
   ++t->quiet;
   mc::fail("data race: %s by T%d in %s, concurrent with %s by T%d in %s (at %s memory, +%lx)", kindName(flags), t->id, where(pc).c_str(),
            kindName(o.flags), o.tid, where(__executable_start + o.pc).c_str(), inArena(a) ? "heap" : "global",
            (unsigned long)(inArena(a) ? a - ARENA_BASE : a - (uintptr_t)__executable_start));
}

void granule(Thread* t, Granule* g, uintptr_t a, uint8_t mask, unsigned flags, const void* pc) {
   if (g->epoch != epoch) { g->epoch = epoch; g->n = 0; }
   int same = -1, drop = -1;
   for (unsigned i = 0; i < g->n; ++i) {
      Cell& o = g->c[i];
      if (o.tid == t->id) {
         if (o.mask == mask && o.flags == flags) same = i;
         if ((o.mask & ~mask) == 0 && ((flags & 1) || !(o.flags & 1)) && !(flags & 2)) drop = i;    // subsumed by the new access
         continue;
      }
      bool ordered = o.clk <= t->vc.c[o.tid];
      if (ordered) { if ((o.mask & ~mask) == 0 && (flags & 1) && !(flags & 2)) drop = i; continue; }
      if ((o.mask & mask) && ((o.flags | flags) & 1) && !((o.flags & 2) && (flags & 2))) { if (opt.races) raceFail(t, a, o, flags, pc); }
   }
   Cell n{t->vc.c[t->id], (uint8_t)t->id, mask, (uint8_t)flags, 0, (uint32_t)((const char*)pc - __executable_start)};
   if (same >= 0) g->c[same] = n;
   else if (drop >= 0) g->c[drop] = n;
   else if (g->n < CELLS) g->c[g->n++] = n;
   else { int old = 0; for (int i = 1; i < CELLS; ++i) if (g->c[i].clk < g->c[old].clk) old = i; g->c[old] = n; }
}

[[noreturn]] void badAccess(Thread* t, uintptr_t a, size_t n, bool write, const void* pc) {
   ++t->quiet;
   // find the block
   uintptr_t lo = ARENA_BASE + (a - ARENA_BASE) / ARENA * ARENA;
   const char* what = "outside of any block";
   for (uintptr_t x = a & ~7ULL; x >= lo; x -= 8) {
      uint8_t v = *vb(x);
      if (v == VB_FREED) { what = "in released memory"; break; }
      if (v == VB_STARTFREED) { what = "beside released memory"; break; }
      if (v >= 1 && v <= 8 && x != (a & ~7ULL)) { what = "past the end of a block"; break; }
      if (v == VB_START) { what = "before or past a block"; break; }
      if (x == lo) break;
   }
   mc::fail("invalid %s of %zu bytes %s by T%d in %s", write ? "write" : "read", n, what, t->id, where(pc).c_str());
}

void access(Thread* t, uintptr_t a, size_t n, unsigned flags, const void* pc) {
   bool arena = inArena(a);
   if (!arena && !inGlobals(a)) return;
   if (!n) return;
   uintptr_t e = a + n;
   if (arena) {
      for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
         uint8_t v = *vb(g);
         unsigned last = e - g >= 8 ? 8 : (unsigned)(e - g);
         if (v > 8 || v < last) {
            if (v == VB_FREED && opt.races) {
               // concurrent with the release, or after it?
               Granule* gr = (Granule*)(SH_BASE + ((g - ARENA_BASE) >> 3) * sizeof(Granule));
               if (gr->epoch == epoch) for (unsigned i = 0; i < gr->n; ++i) if ((gr->c[i].flags & 4) && gr->c[i].tid != t->id && gr->c[i].clk > t->vc.c[gr->c[i].tid]) raceFail(t, a, gr->c[i], flags, pc);
            }
            badAccess(t, a, n, flags & 1, pc);
         }
      }
   }
   if (opt.races) for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
      unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = e - g >= 8 ? 8 : (unsigned)(e - g);
      uint8_t mask = (uint8_t)((0xff << lo) & (0xff >> (8 - hi)));
      Granule* gr = arena ? (Granule*)(SH_BASE + ((g - ARENA_BASE) >> 3) * sizeof(Granule))
                          : (Granule*)(GSH_BASE + ((g - ((uintptr_t)__data_start & ~7ULL)) >> 3) * sizeof(Granule));
      granule(t, gr, a, mask, flags, pc);
   }
}

inline void plain(const volatile void* p, size_t n, unsigned flags, const void* pc) {
   Thread* t = tself;
   if (!t || t->quiet) return;
   uintptr_t a = (uintptr_t)p;
   if (!inArena(a) && !inGlobals(a)) return;
   access(t, a, n, flags, pc);
}

// ---------------------------------------------------------------- heap
struct Header { uint64_t size; const void* pc; };

void* allocate(size_t n, size_t align, const void* pc) {
   Thread* t = tself;
   if (!t || t->quiet || t->guardDepth || arenaOff) {
      if (align <= 16) return malloc(n ? n : 1);
      void* p = nullptr; return posix_memalign(&p, align, n ? n : 1) ? nullptr : p;
   }
   if (align < 16) align = 16;
   if (n > ARENA / 8) return nullptr;
   uintptr_t p = ((uintptr_t)t->bump + 16 + align - 1) & ~(align - 1);
   size_t r = (n + 7) & ~7ULL;
   uintptr_t e = p + (r ? r : 8) + 16;
   if (e > (uintptr_t)t->base + ARENA) mc::broken("the arena of thread %d is exhausted", t->id);
   t->bump = (char*)e;
   Header* h = (Header*)(p - 16);
   h->size = n; h->pc = pc;
   *vb(p - 8) = VB_START;
   uint8_t* v = vb(p);
   size_t full = n / 8;
   rawset(v, 8, full);
   if (n & 7) v[full] = n & 7;
   rawset((void*)p, 0xcd, r);
   ++nlive;
   return (void*)p;
}

void release(void* q, const void* pc) {
   if (!q) return;
   uintptr_t p = (uintptr_t)q;
   if (!inArena(p)) { free(q); return; }
   Thread* t = tself;
   if (*vb(p - 8) != VB_START) {
      if (t) ++t->quiet;
      mc::fail("%s by T%d in %s", *vb(p - 8) == VB_STARTFREED ? "memory released twice" : "release of something that is not a block", t ? t->id : -1, where(pc).c_str());
   }
   Header* h = (Header*)(p - 16);
   size_t n = h->size;
   if (t && !t->quiet && n) access(t, p, n, 1 | 4, pc);
   *vb(p - 8) = VB_STARTFREED;
   rawset(vb(p), VB_FREED, (n + 7) / 8);
   --nlive;
}

// ---------------------------------------------------------------- scheduler
[[noreturn]] void deadlock(const char* what) {
   if (tself) ++tself->quiet;
   mc::fail("%s: %s", what, threadStates().c_str());
}

inline void event(Thread* t, Loc* l, unsigned op, bool write, uint64_t extra = 0) {
   uint64_t h = hmix(hmix(t->chain, op), extra);
   if (l) h = hmix(hmix(h, l->addr), l->hw);
   t->chain = h;
   if (l && write) l->hw = h;
   t->vc.c[t->id]++;
   if (!mc::pruned()) mc::transition();
}

inline void effect(Thread* t) { t->nwatch = 0; t->wantPark = false; t->watchClock = false; ++effects; }

// A read that found nothing new may be part of a busy wait.
void idleRead(Thread* t, Loc* l, const void* pc) {
   for (int i = 0; i < t->nwatch; ++i) {
      Watch& w = t->watch[i];
      if (w.l == l && w.pc == (uintptr_t)pc) {
         if (w.ver != l->ver) { w.ver = l->ver; w.n = 1; t->wantPark = false; }
         else if (++w.n > (unsigned)opt.spin) t->wantPark = true;
         return;
      }
   }
   if (t->nwatch == MAXWATCH) t->nwatch = 0;
   t->watch[t->nwatch++] = Watch{l, l->ver, (uintptr_t)pc, 1};
}

bool runnable(Thread* t) {
   if (t->finished) return false;
   if (t->parked) {
      bool changed = false;
      for (int i = 0; i < t->nwatch; ++i) if (t->watch[i].l->ver != t->watch[i].ver) changed = true;
      if (!changed) return false;
      t->parked = false; t->nwatch = 0; t->wantPark = false; t->watchClock = false;
   }
   switch (t->wk) {
   case W_NONE: return true;
   case W_LOCK: return t->wl->owner == -1 || t->wl->owner == t->id || (t->deadline != NEVER && t->timedOut);
   case W_RD: return t->wl->owner == -1;
   case W_WR: return t->wl->owner == -1 && t->wl->readers == 0;
   case W_JOIN: return t->wt->finished;
   case W_GUARD: return t->wl->gstate != 1;
   case W_SLEEP: return vnow >= t->deadline;
   case W_SEM: return (int)t->wl->count > 0 || (t->deadline != NEVER && t->timedOut);
   case W_COND: case W_QUIESCE: return false;
   }
   return false;
}

// The thread waits for something with a deadline that has not come yet.
bool canTimeOut(Thread* t) {
   if (t->finished || t->parked || t->deadline == NEVER) return false;
   switch (t->wk) {
   case W_SLEEP: return vnow < t->deadline;
   case W_COND: return true;
   case W_LOCK: case W_SEM: return !runnable(t) && !t->timedOut;
   default: return false;
   }
}

void condToLock(Thread* t) {
   t->wk = W_LOCK; t->wl = t->wm; t->wm = nullptr; t->deadline = NEVER;
}

void setTime(uint64_t v) { if (v > vnow) { vnow = v; ++effects; } }

void timeOut(Thread* t) {
   setTime(t->deadline);
   t->timedOut = true;
   if (t->wk == W_COND) { t->wl->waiters &= ~(1u << t->id); condToLock(t); }
}

uint64_t stateKey(Thread* cur, bool yielding) {
   uint64_t x = 0;
   for (int i = 0; i < nT; ++i) {
      uint64_t h = hmix(T[i].chain, i * 131 + T[i].parked * 7 + 3);
      if (T[i].yields) h = hmix(h, (uint64_t)T[i].P | (uint64_t)T[i].E << 16 | (uint64_t)T[i].S << 32);
      x += hmix(h, 99);
   }
   x = hmix(x, (cur ? cur->id + 1 : 0) * 2 + yielding);
   x = hmix(x, usedPreempt | usedCas << 8 | usedSpur << 16);
   x = hmix(x, obsHash);
   return hmix(x, vnow);
}

int pick(Thread* cur, bool yielding) {
   for (;;) {
      uint32_t en = 0;
      for (int i = 0; i < nT; ++i) if (runnable(&T[i])) en |= 1u << i;
      uint32_t ok = 0;
      for (int i = 0; i < nT; ++i) if ((en >> i & 1) && !(T[i].P & en)) ok |= 1u << i;
      if (en && !ok) ok = en;
      struct { int t; uint8_t how, cost; } o[3 * MAXT]; int n = 0;
      bool curOk = cur && (ok >> cur->id & 1);
      bool budget = usedPreempt < opt.preempt;
      if (curOk && !yielding) o[n++] = {cur->id, 0, 0};
      int from = cur ? cur->id : 0;
      for (int k = 1; k <= nT; ++k) {
         int i = (from + k) % nT;
         if (cur && i == cur->id) continue;
         if (!(ok >> i & 1)) continue;
         bool cost = curOk && !yielding;
         if (cost && !budget) continue;
         o[n++] = {i, 0, (uint8_t)cost};
      }
      if (!curOk && cur && (ok >> cur->id & 1)) o[n++] = {cur->id, 0, 0};
      if (curOk && yielding) { if (n == 0) o[n++] = {cur->id, 0, 0}; else if (budget) o[n++] = {cur->id, 0, 1}; }
      if (n) {
         if (budget) for (int i = 0; i < nT; ++i) if (canTimeOut(&T[i])) o[n++] = {i, 1, 1};
         if (usedSpur < opt.spurious) for (int i = 0; i < nT; ++i) if (!T[i].finished && T[i].wk == W_COND) o[n++] = {i, 2, 0};
      }
      if (n == 0) {
         int q = -1;
         for (int i = 0; i < nT; ++i) if (!T[i].finished && T[i].wk == W_QUIESCE) { q = i; break; }
         if (q >= 0) { T[q].wk = W_NONE; return q; }
         uint64_t best = NEVER;
         for (int i = 0; i < nT; ++i) if (canTimeOut(&T[i]) && T[i].deadline < best) best = T[i].deadline;
         if (best != NEVER) {
            setTime(best);
            for (int i = 0; i < nT; ++i) if (canTimeOut(&T[i]) && T[i].deadline <= best) timeOut(&T[i]);
            for (int i = 0; i < nT; ++i) if (T[i].wk == W_SLEEP && T[i].deadline <= vnow) T[i].timedOut = true;
            continue;
         }
         bool any = false, clock = false, alive = false;
         for (int i = 0; i < nT; ++i) { if (T[i].parked && !T[i].finished) { any = true; clock |= T[i].watchClock; } if (!T[i].finished) alive = true; }
         if (!alive) return -1;
         if (any) {
            if (clock) { vnow += 1000000; }
            else {
               if (effects != unparkEffects) { unparkEffects = effects; unparkRounds = 0; }
               if (++unparkRounds > 3) deadlock(("threads wait in a loop forever" + spinning()).c_str());
            }
            for (int i = 0; i < nT; ++i) if (T[i].parked) { T[i].parked = false; T[i].nwatch = 0; T[i].wantPark = false; T[i].watchClock = false; }
            if (++nsteps > opt.horizon) deadlock("no progress");
            continue;
         }
         deadlock("deadlock");
      }
      int c = 0;
      if (n > 1 && opt.choices) {
         if (mc::fresh() && !mc::pruned()) { if (!mc::state(stateKey(cur, yielding))) mc::prune(); }
         c = mc::choose(n);
      }
      usedPreempt += o[c].cost;
      Thread* t = &T[o[c].t];
      if (o[c].how == 1) { timeOut(t); if (!runnable(t)) continue; }
      if (o[c].how == 2) { ++usedSpur; t->wl->waiters &= ~(1u << t->id); t->chain = hmix(t->chain, 31337); condToLock(t); if (!runnable(t)) continue; }
      return o[c].t;
   }
}

void scheduled(int id) {
   uint32_t en = 0;
   for (int i = 0; i < nT; ++i) if (runnable(&T[i])) en |= 1u << i;
   for (int i = 0; i < nT; ++i) {
      T[i].P &= ~(1u << id);
      if (T[i].yields) { T[i].S |= 1u << id; T[i].E &= en; }
   }
}

void wake(Thread* t) { t->baton.store(1); fwake(&t->baton); }
void sleepUntilPicked(Thread* t) {
   while (!t->baton.load()) fwait(&t->baton, 0);
   t->baton.store(0);
}

void go(Thread* cur, bool yielding) {
   int n = pick(cur, yielding);
   if (n < 0) mc::broken("nothing to run");
   scheduled(n);
   if (n == cur->id) return;
   wake(&T[n]);
   sleepUntilPicked(cur);
}

// A scheduling point before an operation of the running thread.
void sched(Thread* t, Wait wk = W_NONE, Loc* l = nullptr, uint64_t deadline = NEVER) {
   if (++nsteps > opt.horizon) deadlock("no progress");
   t->wk = wk; t->wl = l; t->deadline = deadline; t->timedOut = false;
   if (t->wantPark) { t->parked = true; t->wantPark = false; }
   go(t, false);
   t->wk = W_NONE; t->deadline = NEVER;
}

void yieldPoint(Thread* t) {
   if (++nsteps > opt.horizon) deadlock("no progress");
   // fair scheduling (Musuvathi & Qadeer): threads that were continuously able to run since
   // the last yield of this one and did not, go before it.
   uint32_t en = 0;
   for (int i = 0; i < nT; ++i) if (i != t->id && runnable(&T[i])) en |= 1u << i;
   if (t->yields) t->P |= t->E & ~t->S & en;
   t->E = en; t->S = 0;
   ++t->yields;
   event(t, nullptr, 40, false);
   t->wk = W_NONE;
   if (t->wantPark) { t->parked = true; t->wantPark = false; }
   go(t, true);
}

void threadEnd(void* p) {
   Thread* t = (Thread*)p;
   if (tself != t) return;
   if (t->quiet) mc::broken("thread %d ended in a quiet section", t->id);
   event(t, nullptr, 50, false);
   TNOTE(t, (void*)&threadEnd, "ends");
   t->finished = true;
   ++effects;
   t->nwatch = 0;
   tself = nullptr;
   int n = pick(t, false);
   if (n < 0) { allDone.store(1); fwake(&allDone); return; }
   scheduled(n);
   wake(&T[n]);
}

// The thread_local variables of the program (not those of the libraries).
struct TlsImage { const void* init; size_t filesz, memsz; void* data; };
int findTls(dl_phdr_info* info, size_t, void* p) {
   TlsImage* im = (TlsImage*)p;
   for (int i = 0; i < info->dlpi_phnum; ++i) if (info->dlpi_phdr[i].p_type == PT_TLS) {
      im->init = (const void*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
      im->filesz = info->dlpi_phdr[i].p_filesz; im->memsz = info->dlpi_phdr[i].p_memsz;
      im->data = info->dlpi_tls_data;
   }
   return 1;      // (the program comes first)
}

// The threads of the executions are played by threads that live on (starting and ending real ones
// tens of thousands of times a second makes the kernel run out of memory).  What a new thread
// finds is restored: the initial values of the thread_local variables.
void* trampoline(void* p) {
   Thread* t = (Thread*)p;
   TlsImage im = {};
   dl_iterate_phdr(findTls, &im);
   for (;;) {
      sleepUntilPicked(t);
      if (im.data) { rawcpy(im.data, im.init, im.filesz); rawset((char*)im.data + im.filesz, 0, im.memsz - im.filesz); }
      pthread_setspecific(endKey, t);      // (for the case that the thread really ends)
      tself = t;
      t->wk = W_NONE;
      t->ret = t->fn(t->arg);
      while (t->nDtors) { auto d = t->dtors[--t->nDtors]; d.fn(d.obj); }
      pthread_setspecific(endKey, nullptr);
      threadEnd(t);
   }
}

Thread* spawn(void* (*fn)(void*), void* arg, Thread* parent) {
   // When all places are taken, one of a thread that was joined (as the new one will know) is used again.
   int place = nT;
   if (nT == MAXT) for (place = 1; place < MAXT; ++place) if (T[place].joined && T[place].vc.c[place] <= parent->vc.c[place]) break;
   if (place == MAXT) mc::broken("too many threads");
   bool again = place < nT;
   Thread* t = &T[place];
   t->id = place;
   t->baton = 0; t->wk = W_NONE; t->wl = t->wm = nullptr; t->wt = nullptr; t->deadline = NEVER;
   t->timedOut = t->woken = t->finished = t->joined = t->detached = false;
   t->chain = parent ? hmix(parent->chain, 1234567) : 42;
   t->fenceRel.clear(); t->fenceAcq.clear(); t->vc.clear();
   if (parent) t->vc = parent->vc;
   t->vc.c[t->id]++;
   if (parent) parent->vc.c[parent->id]++;
   t->quiet = t->guardDepth = t->guardQuiet = 0; t->yields = 0; t->nwatch = 0; t->wantPark = t->parked = t->watchClock = false;
   t->E = t->P = 0; t->S = 0; t->mdepth = 0;
   if (!again) t->base = t->bump = (char*)(ARENA_BASE + ARENA * place);
   t->fn = fn; t->arg = arg; t->ret = nullptr; t->nDtors = 0;
   if (t->pooled && t->gone) { REAL(pthread_join)(t->pt, nullptr); t->pooled = false; }
   if (!t->pooled) {
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, (void*)(STACK_BASE + STACK * 2 * place), STACK);
      t->gone = false;
      int r = REAL(pthread_create)(&t->pt, &at, trampoline, t);
      pthread_attr_destroy(&at);
      if (r) mc::broken("pthread_create: %s", strerror(r));
      t->pooled = true;
   }
   if (!again) ++nT;
   ++effects;
   return t;
}

void reallyEnds(void* p) { if (tself == p) { ((Thread*)p)->gone = true; threadEnd(p); } }

void* bodyMain(void*) { (*theBody)(); return nullptr; }

void init() {
   if (inited) return;
   inited = true;
   locs = (Loc*)mmap(nullptr, sizeof(Loc) * LOCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   auto map = [](uintptr_t a, size_t n) {
      void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (p != (void*)a) mc::broken("cannot map memory at %lx", (unsigned long)a);
   };
   map(ARENA_BASE, ARENA * MAXT);
   map(VB_BASE, ARENA * MAXT / 8);
   map(SH_BASE, ARENA * MAXT / 8 * sizeof(Granule));
   map(GSH_BASE, (_end - __data_start + 64) / 8 * sizeof(Granule));
   map(STACK_BASE, STACK * 2 * MAXT);
   pthread_key_create(&endKey, reallyEnds);
}

void runOnce(const std::function<void()>& body) {
   ++epoch;
   opt = Options();
   onAtomic = nullptr;
   nT = 0; nlocs = 0; nsteps = 0; vnow = 0; epochSeconds = 1551571200; obsHash = 0; nlive = 0;
   usedPreempt = usedCas = usedSpur = 0;
   effects = unparkEffects = 0; unparkRounds = 0;
   allDone = 0;
   theBody = &body;
   Thread* t = spawn(bodyMain, nullptr, nullptr);
   wake(t);
   while (!allDone.load()) fwait(&allDone, 0);
   if (opt.leaks && nlive && !arenaOff) {
      std::string s;
      for (int i = 0; i < nT && s.empty(); ++i)
         for (uintptr_t a = (uintptr_t)T[i].base; a < (uintptr_t)T[i].bump; a += 8)
            if (*vb(a) == VB_START) { Header* h = (Header*)(a - 8); s = where(h->pc) + " (" + std::to_string(h->size) + " bytes)"; break; }
      mc::fail("memory leak: %ld blocks are never released; the first was allocated in %s", nlive, s.c_str());
   }
   for (int i = 0; i < nT; ++i) {
      uintptr_t lo = (uintptr_t)T[i].base, hi = (uintptr_t)T[i].bump + 8;
      rawset(vb(lo), 0, (hi - lo + 7) / 8);
   }
}

bool warmed = false;
void runBody(const std::function<void()>& body) {
   init();
   if (!warmed && !mc::current->forked) {
      warmed = true;
      mc::setPruned(true);
      arenaOff = true;
      runOnce(body);
      arenaOff = false;
      mc::setPruned(false);
   }
   runOnce(body);
}

struct Install { Install() { mc::run_body = runBody; } } install;

// ---------------------------------------------------------------- atomics
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

inline void doAcquire(Thread* t, Loc* l, int mo) { if (acq(mo)) t->vc.join(l->rel); else t->fenceAcq.join(l->rel); }
inline void doRelease(Thread* t, Loc* l, int mo, bool rmw) {
   if (!rmw) l->rel.clear();
   if (rel(mo)) l->rel.join(t->vc); else l->rel.join(t->fenceRel);
}

inline Thread* active() { Thread* t = tself; return t && !t->quiet ? t : nullptr; }

// The guards of static variables, from the symbol table.  Once set they stay set.
constexpr unsigned GUARDS = 1 << 14;
uintptr_t guardSet[GUARDS];
bool isGuard(uintptr_t a) {
   for (unsigned i = (unsigned)(hmix(a, 5) & (GUARDS - 1)); guardSet[i]; i = (i + 1) & (GUARDS - 1)) if (guardSet[i] == a) return true;
   return false;
}
void addGuard(uintptr_t a) {
   unsigned i = (unsigned)(hmix(a, 5) & (GUARDS - 1));
   for (; guardSet[i]; i = (i + 1) & (GUARDS - 1)) if (guardSet[i] == a) return;
   guardSet[i] = a;
}
struct FindGuards {
   FindGuards() {
      FILE* f = fopen("/proc/self/exe", "rb");
      if (!f) return;
      Elf64_Ehdr eh;
      if (fread(&eh, sizeof eh, 1, f) == 1 && eh.e_shnum) {
         std::vector<Elf64_Shdr> sh(eh.e_shnum);
         fseek(f, (long)eh.e_shoff, SEEK_SET);
         if (fread(sh.data(), sizeof(Elf64_Shdr), sh.size(), f) == sh.size())
            for (auto& h : sh) if (h.sh_type == SHT_SYMTAB && h.sh_link < sh.size()) {
               std::vector<Elf64_Sym> sy(h.sh_size / sizeof(Elf64_Sym));
               std::string names(sh[h.sh_link].sh_size, 0);
               fseek(f, (long)h.sh_offset, SEEK_SET);
               if (fread(sy.data(), sizeof(Elf64_Sym), sy.size(), f) != sy.size()) continue;
               fseek(f, (long)sh[h.sh_link].sh_offset, SEEK_SET);
               if (fread(&names[0], 1, names.size(), f) != names.size()) continue;
               uintptr_t base = eh.e_type == ET_DYN ? (uintptr_t)__executable_start : 0;
               for (auto& y : sy) if (y.st_shndx && y.st_name < names.size() && !strncmp(&names[y.st_name], "_ZGV", 4)) addGuard(base + y.st_value);
            }
      }
      fclose(f);
   }
} findGuards;
// Where executions share a process, static variables are initialized once for all of them, unseen.
inline bool staticsUnseen() { return !mc::current->forked; }

template<class V> V aload(const volatile V* p, int mo, const void* pc, const char* name = "load") {
   Thread* t = active();
   if (!t) return *p;
   if (sizeof(V) == 1 && isGuard((uintptr_t)p) && (*p != 0 || staticsUnseen())) {
      if (staticsUnseen()) return *p;
      Loc* l = loc(p);
      doAcquire(t, l, mo);
      event(t, l, 1, false);
      return *p;
   }
   sched(t);
   access(t, (uintptr_t)p, sizeof(V), 2, pc);
   Loc* l = loc(p);
   V v = *p;
   doAcquire(t, l, mo);
   event(t, l, 1, false);
   idleRead(t, l, pc);
   if (onAtomic) onAtomic(t->id, p, (uint64_t)v, false);
   TNOTE(t, pc, "%s = %lld", name, (long long)v);
   return v;
}
template<class V> void astore(volatile V* p, V v, int mo, const void* pc, const char* name = "store") {
   Thread* t = active();
   if (!t) { *p = v; return; }
   sched(t);
   access(t, (uintptr_t)p, sizeof(V), 3, pc);
   Loc* l = loc(p);
   bool change = *p != v;
   *p = v;
   doRelease(t, l, mo, false);
   event(t, l, 2, true);
   if (change) { l->ver++; effect(t); } else idleRead(t, l, pc);
   TNOTE(t, pc, "%s %lld", name, (long long)v);
}
template<class V, class F> V armw(volatile V* p, int mo, const void* pc, const char* name, F f) {
   Thread* t = active();
   if (!t) { V o = *p; *p = f(o); return o; }
   sched(t);
   access(t, (uintptr_t)p, sizeof(V), 3, pc);
   Loc* l = loc(p);
   V o = *p, n = f(o);
   *p = n;
   doAcquire(t, l, mo);
   doRelease(t, l, mo, true);
   event(t, l, 3, true);
   if (o != n) { l->ver++; effect(t); } else idleRead(t, l, pc);
   if (onAtomic) onAtomic(t->id, p, (uint64_t)o, true);
   TNOTE(t, pc, "%s %lld -> %lld", name, (long long)o, (long long)n);
   return o;
}
template<class V> int acas(volatile V* p, V* exp, V v, int mo, int fmo, bool weak, const void* pc) {
   Thread* t = active();
   if (!t) { V o = *p; if (o == *exp) { *p = v; return 1; } *exp = o; return 0; }
   sched(t);
   Loc* l = loc(p);
   V o = *p;
   bool ok = o == *exp;
   bool spur = false;
   if (ok && weak && usedCas < opt.casFail) {
      if (mc::fresh() && !mc::pruned()) { if (!mc::state(hmix(stateKey(t, false), 4711))) mc::prune(); }
      if (mc::choose(2)) { ok = false; spur = true; ++usedCas; }
   }
   access(t, (uintptr_t)p, sizeof(V), ok ? 3 : 2, pc);
   if (ok) {
      *p = v;
      doAcquire(t, l, mo);
      doRelease(t, l, mo, true);
      event(t, l, 4, true);
      if (o != v) { l->ver++; effect(t); } else idleRead(t, l, pc);
      if (onAtomic) onAtomic(t->id, p, (uint64_t)o, true);
      TNOTE(t, pc, "compare-exchange %lld -> %lld", (long long)o, (long long)v);
      return 1;
   }
   doAcquire(t, l, fmo);
   event(t, l, spur ? 6 : 5, false);
   idleRead(t, l, pc);
   if (onAtomic) onAtomic(t->id, p, (uint64_t)o, false);
   TNOTE(t, pc, "compare-exchange fails%s, found %lld", spur ? " spuriously" : "", (long long)o);
   *exp = o;
   return 0;
}

void fence(int mo) {
   Thread* t = active();
   if (!t) return;
   if (acq(mo)) { t->vc.join(t->fenceAcq); }
   if (rel(mo)) { t->fenceRel = t->vc; t->vc.c[t->id]++; }
}

// ---------------------------------------------------------------- locks
bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
bool isErrorCheck(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }

int mlock(Thread* t, pthread_mutex_t* m, uint64_t deadline, const void* pc) {
   access(t, (uintptr_t)m, sizeof *m, 3, pc);
   Loc* l = loc(m);
   if (l->owner == t->id) {
      if (isRecursive(m)) { sched(t); l->count++; event(t, l, 10, true); effect(t); return 0; }
      if (isErrorCheck(m)) return EDEADLK;
      if (deadline == NEVER) { ++t->quiet; mc::fail("deadlock: T%d locks a mutex it already holds, in %s", t->id, where(pc).c_str()); }
      sched(t, W_SLEEP, nullptr, deadline);
      return ETIMEDOUT;
   }
   sched(t, W_LOCK, l, deadline);
   if (l->owner != -1) { event(t, l, 11, false); TNOTE(t, pc, "lock times out"); return ETIMEDOUT; }
   access(t, (uintptr_t)m, sizeof *m, 3, pc);
   l->owner = t->id; l->count = 1; l->ver++;
   t->vc.join(l->rel);
   event(t, l, 12, true);
   effect(t);
   TNOTE(t, pc, "locks %lx", (unsigned long)(l->addr & 0xffffff));
   return 0;
}
int mtrylock(Thread* t, pthread_mutex_t* m, const void* pc) {
   sched(t);
   access(t, (uintptr_t)m, sizeof *m, 3, pc);
   Loc* l = loc(m);
   if (l->owner == t->id && isRecursive(m)) { l->count++; event(t, l, 10, true); effect(t); return 0; }
   if (l->owner != -1) { event(t, l, 13, false); idleRead(t, l, pc); TNOTE(t, pc, "trylock fails"); return EBUSY; }
   l->owner = t->id; l->count = 1; l->ver++;
   t->vc.join(l->rel);
   event(t, l, 12, true);
   effect(t);
   TNOTE(t, pc, "locks %lx", (unsigned long)(l->addr & 0xffffff));
   return 0;
}
void munlockNow(Thread* t, Loc* l) {
   l->owner = -1; l->count = 0; l->ver++;
   l->rel = t->vc;
   event(t, l, 14, true);
   effect(t);
}
int munlock(Thread* t, pthread_mutex_t* m, const void* pc) {
   sched(t);
   access(t, (uintptr_t)m, sizeof *m, 3, pc);
   Loc* l = loc(m);
   if (l->owner != t->id) { ++t->quiet; mc::fail("T%d unlocks a mutex it does not hold, in %s", t->id, where(pc).c_str()); }
   if (l->count > 1) { l->count--; event(t, l, 15, true); effect(t); return 0; }
   munlockNow(t, l);
   TNOTE(t, pc, "unlocks %lx", (unsigned long)(l->addr & 0xffffff));
   return 0;
}

int cwait(Thread* t, pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, const void* pc) {
   sched(t);
   access(t, (uintptr_t)c, sizeof *c, 3, pc);
   access(t, (uintptr_t)m, sizeof *m, 3, pc);
   Loc* lc = loc(c); Loc* lm = loc(m);
   if (lm->owner != t->id) { ++t->quiet; mc::fail("T%d waits on a condition variable without holding the mutex, in %s", t->id, where(pc).c_str()); }
   unsigned cnt = lm->count;
   munlockNow(t, lm);
   event(t, lc, 16, true);
   TNOTE(t, pc, "waits on condition %lx", (unsigned long)(lc->addr & 0xffffff));
   lc->waiters |= 1u << t->id;
   ++nsteps;
   t->wk = W_COND; t->wl = lc; t->wm = lm; t->deadline = deadline; t->timedOut = false;
   go(t, false);
   // picked with the mutex free
   bool to = t->timedOut;
   t->wk = W_NONE; t->deadline = NEVER;
   access(t, (uintptr_t)c, sizeof *c, 3, pc);
   access(t, (uintptr_t)m, sizeof *m, 3, pc);
   lm->owner = t->id; lm->count = cnt; lm->ver++;
   t->vc.join(lm->rel);
   event(t, lm, 17, true, to);
   effect(t);
   TNOTE(t, pc, "wakes up%s", to ? " (timeout)" : "");
   return to ? ETIMEDOUT : 0;
}

int csignal(Thread* t, pthread_cond_t* c, bool all, const void* pc) {
   sched(t);
   access(t, (uintptr_t)c, sizeof *c, 3, pc);
   Loc* l = loc(c);
   uint32_t w = l->waiters;
   event(t, l, all ? 18 : 19, true);
   effect(t);
   TNOTE(t, pc, "%s condition %lx (waiters %x)", all ? "notifies all of" : "notifies one of", (unsigned long)(l->addr & 0xffffff), w);
   if (!w) return 0;
   if (all) {
      for (int i = 0; i < nT; ++i) if (w >> i & 1) { T[i].chain = hmix(T[i].chain, t->chain); condToLock(&T[i]); }
      l->waiters = 0;
   }
   else {
      int k = 0; for (uint32_t x = w; x; x &= x - 1) ++k;
      int c2 = mc::choose(k);
      for (int i = 0; i < nT; ++i) if (w >> i & 1) { if (c2-- == 0) { T[i].chain = hmix(T[i].chain, t->chain); condToLock(&T[i]); l->waiters &= ~(1u << i); break; } }
   }
   l->ver++;
   return 0;
}

uint64_t toDeadline(const timespec* ts, bool realtime) {
   int64_t ns = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
   if (realtime) ns -= epochSeconds * 1000000000LL;
   return ns < 0 ? 0 : (uint64_t)ns;
}

void sleepFor(Thread* t, uint64_t ns, const void* pc) {
   uint64_t d = vnow + ns;
   event(t, nullptr, 30, false, ns);
   if (ns == 0) { yieldPoint(t); return; }
   sched(t, W_SLEEP, nullptr, d);
   event(t, nullptr, 31, false, vnow);
   TNOTE(t, pc, "wakes up after a sleep of %llu ns", (unsigned long long)ns);
}

void readClock(Thread* t) {
   static char clockLoc;
   sched(t);
   Loc* l = loc(&clockLoc);
   l->ver = vnow;
   event(t, nullptr, 32, false, vnow);
   idleRead(t, l, &clockLoc);
   t->watchClock = true;
}

Thread* byPthread(pthread_t p) { for (int i = 0; i < nT; ++i) if (T[i].pt == p) return &T[i]; return nullptr; }

// once and guards: returns true if the caller has to initialise
bool onceEnter(Thread* t, uintptr_t a, bool doneAlready, const void* pc) {
   Loc* l = loc(a);
   if (l->gstate == 1 && l->owner == t->id) { ++t->quiet; mc::fail("recursive static initialization by T%d in %s", t->id, where(pc).c_str()); }
   sched(t, W_GUARD, l);
   if (doneAlready && l->gstate == 0) l->gstate = 2;
   if (l->gstate == 2) { t->vc.join(l->rel); event(t, l, 20, false); return false; }
   l->gstate = 1; l->owner = t->id; l->ver++;
   t->vc.join(l->rel);
   event(t, l, 21, true);
   effect(t);
   TNOTE(t, pc, "begins a static initialization");
   return true;
}
void onceLeave(Thread* t, uintptr_t a, bool done, const void* pc) {
   sched(t);
   Loc* l = loc(a);
   l->gstate = done ? 2 : 0; l->owner = -1; l->ver++;
   l->rel.join(t->vc);
   event(t, l, done ? 22 : 23, true);
   effect(t);
   TNOTE(t, pc, "%s a static initialization", done ? "completes" : "abandons");
}

}  // namespace

// ---------------------------------------------------------------- interface
int choose(int n) {
   Thread* t = tself;
   int c = mc::choose(n);
   if (t) t->chain = hmix(t->chain, 1000 + c);
   return c;
}
void quietEnter() { if (tself) ++tself->quiet; }
void quietLeave() { if (tself) --tself->quiet; }
int self() { return tself ? tself->id : -1; }
void point() { Thread* t = active(); if (t) { sched(t); event(t, nullptr, 60, false); } }
void observe(uint64_t v) { obsHash = hmix(obsHash, v + 1); if (tself) { tself->chain = hmix(tself->chain, obsHash); tself->nwatch = 0; } }
void quiesce() {
   Thread* t = active(); if (!t) return;
   sched(t, W_QUIESCE);
   event(t, nullptr, 61, false);
   for (int i = 0; i < nT; ++i) t->chain = hmix(t->chain, T[i].chain);
   t->nwatch = 0;
}
int liveThreads() { int n = 0; for (int i = 0; i < nT; ++i) n += !T[i].finished; return n; }
int startedThreads() { return nT; }
uint64_t yields(int t) { return t < nT ? T[t].yields : 0; }
uint64_t steps() { return nsteps; }
long liveBlocks() { return nlive; }
bool blocked(int t) { return t < nT && !T[t].finished && !runnable(&T[t]); }
bool liveHeap(const void* p, size_t n) {
   uintptr_t a = (uintptr_t)p, e = a + n;
   if (!inArena(a)) return false;
   for (uintptr_t g = a & ~7ULL; g < e; g += 8) { uint8_t v = *vb(g); unsigned last = e - g >= 8 ? 8 : (unsigned)(e - g); if (v > 8 || v < last) return false; }
   return true;
}
uint64_t vtime() { return vnow; }
void setEpoch(int64_t s) { epochSeconds = s; }

}  // namespace ts

using namespace ts;
#define PC __builtin_return_address(0)

// ---------------------------------------------------------------- allocation
void* operator new(size_t n) { void* p = allocate(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = allocate(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { void* p = allocate(n, (size_t)a, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = allocate(n, (size_t)a, PC); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { release(p, PC); }
void operator delete[](void* p) noexcept { release(p, PC); }
void operator delete(void* p, size_t) noexcept { release(p, PC); }
void operator delete[](void* p, size_t) noexcept { release(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p, PC); }

extern "C" {

// ---------------------------------------------------------------- plain accesses
#define ACC(N) \
void __tsan_read##N(void* p) { plain(p, N, 0, PC); } \
void __tsan_write##N(void* p) { plain(p, N, 1, PC); } \
void __tsan_unaligned_read##N(void* p) { plain(p, N, 0, PC); } \
void __tsan_unaligned_write##N(void* p) { plain(p, N, 1, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
// Volatile accesses are taken as atomic ones without ordering.
// (those on the thread's own stack, such as volatile parameters, are not shared)
static void vol(void* p, size_t n, bool w, const void* pc) {
   Thread* t = active(); if (!t) return;
   if ((uintptr_t)p - (STACK_BASE + STACK * 2 * t->id) < STACK) return;
   sched(t);
   access(t, (uintptr_t)p, n, w ? 3 : 2, pc);
   Loc* l = loc(p);
   event(t, l, w ? 8 : 7, w);
   if (w) { l->ver++; effect(t); } else idleRead(t, l, pc);
   TNOTE(t, pc, "volatile %s", w ? "write" : "read");
}
#define VACC(N) \
void __tsan_volatile_read##N(void* p) { vol(p, N, false, PC); } \
void __tsan_volatile_write##N(void* p) { vol(p, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void* p) { vol(p, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void* p) { vol(p, N, true, PC); }
VACC(1) VACC(2) VACC(4) VACC(8) VACC(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, 0, PC); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, sizeof(void*), 1, PC); }
void __tsan_vptr_read(void** p) { plain(p, sizeof(void*), 0, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

// ---------------------------------------------------------------- atomics
typedef int mo_t;
#define ATOM(N, V) \
V __tsan_atomic##N##_load(const volatile V* p, mo_t mo) { return aload<V>(p, mo, PC); } \
void __tsan_atomic##N##_store(volatile V* p, V v, mo_t mo) { astore<V>(p, v, mo, PC); } \
V __tsan_atomic##N##_exchange(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "exchange", [v](V) -> V { return v; }); } \
V __tsan_atomic##N##_fetch_add(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "fetch-add", [v](V o) -> V { return o + v; }); } \
V __tsan_atomic##N##_fetch_sub(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "fetch-sub", [v](V o) -> V { return o - v; }); } \
V __tsan_atomic##N##_fetch_and(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "fetch-and", [v](V o) -> V { return o & v; }); } \
V __tsan_atomic##N##_fetch_or(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "fetch-or", [v](V o) -> V { return o | v; }); } \
V __tsan_atomic##N##_fetch_xor(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "fetch-xor", [v](V o) -> V { return o ^ v; }); } \
V __tsan_atomic##N##_fetch_nand(volatile V* p, V v, mo_t mo) { return armw<V>(p, mo, PC, "fetch-nand", [v](V o) -> V { return ~(o & v); }); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile V* p, V* e, V v, mo_t mo, mo_t f) { return acas<V>(p, e, v, mo, f, false, PC); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile V* p, V* e, V v, mo_t mo, mo_t f) { return acas<V>(p, e, v, mo, f, true, PC); } \
V __tsan_atomic##N##_compare_exchange_val(volatile V* p, V e, V v, mo_t mo, mo_t f) { V x = e; acas<V>(p, &x, v, mo, f, false, PC); return x; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(mo_t mo) { ts::fence(mo); }
void __tsan_atomic_signal_fence(mo_t) {}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
   Thread* t = tself;
   if (!t) return REAL(pthread_create)(out, at, fn, arg);
   sched(t);
   event(t, nullptr, 70, false);
   Thread* n = spawn(fn, arg, t);
   effect(t);
   *out = n->pt;
   TNOTE(t, PC, "starts thread T%d", n->id);
   return 0;
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
   Thread* t = tself;
   if (!t) return REAL(__cxa_thread_atexit)(fn, obj, dso);
   if (t->nDtors == 64) mc::broken("too many thread_local objects");
   t->dtors[t->nDtors++] = {fn, obj};
   return 0;
}
int pthread_join(pthread_t p, void** ret) {
   Thread* t = tself;
   Thread* w = t ? byPthread(p) : nullptr;
   if (!w) return REAL(pthread_join)(p, ret);
   if (w == t) return EDEADLK;
   if (w->joined || w->detached) { ++t->quiet; mc::fail("T%d joins a thread that cannot be joined, in %s", t->id, where(PC).c_str()); }
   if (++nsteps > opt.horizon) deadlock("no progress");
   t->wk = W_JOIN; t->wt = w; t->deadline = NEVER;
   go(t, false);
   t->wk = W_NONE;
   w->joined = true;
   t->vc.join(w->vc);
   event(t, nullptr, 71, false, w->chain);
   effect(t);
   TNOTE(t, PC, "joined T%d", w->id);
   if (ret) *ret = w->ret;
   return 0;
}
int pthread_detach(pthread_t p) {
   Thread* t = tself;
   Thread* w = t ? byPthread(p) : nullptr;
   if (!w) return REAL(pthread_detach)(p);
   w->detached = true;
   event(t, nullptr, 72, false);
   return 0;
}
int sched_yield() {
   Thread* t = active();
   if (!t) return REAL(sched_yield)();
   TNOTE(t, PC, "yields");
   yieldPoint(t);
   return 0;
}

// ---------------------------------------------------------------- mutexes
int pthread_mutex_lock(pthread_mutex_t* m) { Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_mutex_lock)(m); return mlock(t, m, NEVER, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_mutex_trylock)(m); return mtrylock(t, m, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_mutex_unlock)(m); return munlock(t, m, PC); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { Thread* t = active(); if (!t) return REAL(pthread_mutex_timedlock)(m, ts); return mlock(t, m, toDeadline(ts, true), PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) { Thread* t = active(); if (!t) return REAL(pthread_mutex_clocklock)(m, c, ts); return mlock(t, m, toDeadline(ts, c == CLOCK_REALTIME), PC); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
   Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_mutex_destroy)(m);
   if (loc(m)->owner != -1) { ++t->quiet; mc::fail("T%d destroys a locked mutex, in %s", t->id, where(PC).c_str()); }
   plain(m, sizeof *m, 1, PC);
   return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
   Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_rwlock_rdlock)(m);
   Loc* l = loc(m);
   if (l->owner == t->id) return EDEADLK;
   sched(t, W_RD, l);
   access(t, (uintptr_t)m, sizeof *m, 3, PC);
   l->readers++; l->ver++; t->vc.join(l->rel); event(t, l, 80, true); effect(t); TNOTE(t, PC, "read-locks"); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
   Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_rwlock_tryrdlock)(m);
   sched(t); Loc* l = loc(m);
   if (l->owner != -1) { event(t, l, 81, false); idleRead(t, l, PC); return EBUSY; }
   l->readers++; l->ver++; t->vc.join(l->rel); event(t, l, 80, true); effect(t); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
   Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_rwlock_wrlock)(m);
   Loc* l = loc(m);
   if (l->owner == t->id) return EDEADLK;
   sched(t, W_WR, l);
   access(t, (uintptr_t)m, sizeof *m, 3, PC);
   l->owner = t->id; l->ver++; t->vc.join(l->rel); event(t, l, 82, true); effect(t); TNOTE(t, PC, "write-locks"); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
   Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_rwlock_trywrlock)(m);
   sched(t); Loc* l = loc(m);
   if (l->owner != -1 || l->readers) { event(t, l, 83, false); idleRead(t, l, PC); return EBUSY; }
   l->owner = t->id; l->ver++; t->vc.join(l->rel); event(t, l, 82, true); effect(t); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
   Thread* t = active(); if (!t) return tself ? 0 : REAL(pthread_rwlock_unlock)(m);
   sched(t); Loc* l = loc(m);
   access(t, (uintptr_t)m, sizeof *m, 3, PC);
   if (l->owner == t->id) l->owner = -1; else if (l->readers) l->readers--; else { ++t->quiet; mc::fail("T%d unlocks a free read-write lock", t->id); }
   l->ver++; l->rel.join(t->vc); event(t, l, 84, true); effect(t); TNOTE(t, PC, "rw-unlocks"); return 0;
}

// ---------------------------------------------------------------- condition variables
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Thread* t = active(); if (!t) return REALV(pthread_cond_wait, "GLIBC_2.3.2")(c, m); return cwait(t, c, m, NEVER, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { Thread* t = active(); if (!t) return REALV(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, ts); return cwait(t, c, m, toDeadline(ts, true), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { Thread* t = active(); if (!t) return REAL(pthread_cond_clockwait)(c, m, k, ts); return cwait(t, c, m, toDeadline(ts, k == CLOCK_REALTIME), PC); }
int pthread_cond_signal(pthread_cond_t* c) { Thread* t = active(); if (!t) return tself ? 0 : REALV(pthread_cond_signal, "GLIBC_2.3.2")(c); return csignal(t, c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t* c) { Thread* t = active(); if (!t) return tself ? 0 : REALV(pthread_cond_broadcast, "GLIBC_2.3.2")(c); return csignal(t, c, true, PC); }
int pthread_cond_destroy(pthread_cond_t* c) {
   Thread* t = active(); if (!t) return tself ? 0 : REALV(pthread_cond_destroy, "GLIBC_2.3.2")(c);
   if (loc(c)->waiters) { ++t->quiet; mc::fail("T%d destroys a condition variable others wait for, in %s", t->id, where(PC).c_str()); }
   plain(c, sizeof *c, 1, PC);
   return 0;
}

// ---------------------------------------------------------------- semaphores
static void semInit(Loc* l, sem_t* s) { if (!l->semInit) { l->semInit = true; int v = 0; static auto f = real<int (*)(sem_t*, int*)>("sem_getvalue"); f(s, &v); l->count = v; } }
static int semWait(sem_t* s, uint64_t dl, const void* pc) {
   Thread* t = active(); Loc* l = loc(s); semInit(l, s);
   sched(t, W_SEM, l, dl);
   access(t, (uintptr_t)s, sizeof *s, 3, pc);
   if ((int)l->count <= 0) { event(t, l, 91, false); errno = ETIMEDOUT; return -1; }
   l->count--; l->ver++; t->vc.join(l->rel); event(t, l, 90, true); effect(t); return 0;
}
int sem_wait(sem_t* s) { if (!active()) return REAL(sem_wait)(s); return semWait(s, NEVER, PC); }
int sem_timedwait(sem_t* s, const timespec* ts) { if (!active()) return REAL(sem_timedwait)(s, ts); return semWait(s, toDeadline(ts, true), PC); }
int sem_trywait(sem_t* s) {
   Thread* t = active(); if (!t) return REAL(sem_trywait)(s);
   sched(t); Loc* l = loc(s); semInit(l, s);
   if ((int)l->count <= 0) { event(t, l, 92, false); idleRead(t, l, PC); errno = EAGAIN; return -1; }
   l->count--; l->ver++; t->vc.join(l->rel); event(t, l, 90, true); effect(t); return 0;
}
int sem_post(sem_t* s) {
   Thread* t = active(); if (!t) return REAL(sem_post)(s);
   sched(t); Loc* l = loc(s); semInit(l, s);
   access(t, (uintptr_t)s, sizeof *s, 3, PC);
   l->count++; l->ver++; l->rel.join(t->vc); event(t, l, 93, true); effect(t); return 0;
}

// ---------------------------------------------------------------- once
int pthread_once(pthread_once_t* o, void (*f)()) {
   Thread* t = active(); if (!t) return REAL(pthread_once)(o, f);
   if (staticsUnseen() && !inArena((uintptr_t)o) && !((uintptr_t)o - STACK_BASE < STACK * 2 * MAXT)) { Q q; return REAL(pthread_once)(o, f); }
   if (onceEnter(t, (uintptr_t)o, *(int*)o == 2, PC)) {
      struct G { Thread* t; pthread_once_t* o; bool ok = false; ~G() { if (ok) *(int*)o = 2; onceLeave(t, (uintptr_t)o, ok, (void*)&pthread_once); } } g{t, o};
      f();
      g.ok = true;
   }
   return 0;
}
static void guardLeft() { if (Thread* t = tself) if (t->guardQuiet && t->quiet == t->guardQuietAt[t->guardQuiet - 1]) { --t->guardQuiet; --t->quiet; } }
int __cxa_guard_acquire(long long* g) {
   Thread* t = active();
   if (!t || staticsUnseen()) {
      static auto f = real<int (*)(long long*)>("__cxa_guard_acquire");
      int r = f(g);
      if (t && r) { ++t->quiet; t->guardQuietAt[t->guardQuiet++] = t->quiet; }
      return r;
   }
   if (!onceEnter(t, (uintptr_t)g, *(char*)g != 0, PC)) return 0;
   t->guardDepth++;
   return 1;
}
void __cxa_guard_release(long long* g) {
   Thread* t = tself && tself->guardQuiet ? nullptr : active();
   if (!t) { static auto f = real<void (*)(long long*)>("__cxa_guard_release"); f(g); guardLeft(); return; }
   t->guardDepth--;
   onceLeave(t, (uintptr_t)g, true, PC);
   *(volatile char*)g = 1;
   Loc* l = loc(g);
   l->ver++;
}
void __cxa_guard_abort(long long* g) {
   Thread* t = tself && tself->guardQuiet ? nullptr : active();
   if (!t) { static auto f = real<void (*)(long long*)>("__cxa_guard_abort"); f(g); guardLeft(); return; }
   t->guardDepth--;
   onceLeave(t, (uintptr_t)g, false, PC);
}

// ---------------------------------------------------------------- time
int nanosleep(const timespec* a, timespec* b) {
   Thread* t = active(); if (!t) return REAL(nanosleep)(a, b);
   sleepFor(t, (uint64_t)a->tv_sec * 1000000000ULL + a->tv_nsec, PC); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
   Thread* t = active(); if (!t) return REAL(clock_nanosleep)(c, fl, a, b);
   if (fl & TIMER_ABSTIME) { uint64_t d = toDeadline(a, c == CLOCK_REALTIME); sleepFor(t, d > vnow ? d - vnow : 0, PC); }
   else sleepFor(t, (uint64_t)a->tv_sec * 1000000000ULL + a->tv_nsec, PC);
   return 0;
}
int usleep(useconds_t u) { Thread* t = active(); if (!t) return REAL(usleep)(u); sleepFor(t, (uint64_t)u * 1000, PC); return 0; }
unsigned sleep(unsigned s) { Thread* t = active(); if (!t) return REAL(sleep)(s); sleepFor(t, (uint64_t)s * 1000000000ULL, PC); return 0; }
static void clk(timespec* ts, bool realtime) {
   uint64_t ns = vnow;
   ts->tv_sec = (time_t)(ns / 1000000000ULL) + (realtime ? epochSeconds : 0);
   ts->tv_nsec = ns % 1000000000ULL;
}
int clock_gettime(clockid_t c, timespec* ts) {
   Thread* t = tself; if (!t) return REAL(clock_gettime)(c, ts);
   if (!t->quiet) readClock(t);
   clk(ts, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
   return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
   Thread* t = tself; if (!t) return REAL(gettimeofday)(tv, tz);
   if (!t->quiet) readClock(t);
   timespec s; clk(&s, true); tv->tv_sec = s.tv_sec; tv->tv_usec = s.tv_nsec / 1000;
   return 0;
}
time_t time(time_t* o) {
   Thread* t = tself; if (!t) { timespec s; REAL(clock_gettime)(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
   if (!t->quiet) readClock(t);
   timespec s; clk(&s, true); if (o) *o = s.tv_sec; return s.tv_sec;
}

// ---------------------------------------------------------------- memory functions
void* memcpy(void* d, const void* s, size_t n) { plain(s, n, 0, PC); plain(d, n, 1, PC); rawcpy(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) {
   plain(s, n, 0, PC); plain(d, n, 1, PC);
   if ((uintptr_t)d - (uintptr_t)s >= n) rawcpy(d, s, n);
   else { volatile char* x = (volatile char*)d; const volatile char* y = (const volatile char*)s; while (n--) x[n] = y[n]; }
   return d;
}
void* memset(void* d, int v, size_t n) { plain(d, n, 1, PC); rawset(d, v, n); return d; }
int memcmp(const void* a, const void* b, size_t n) {
   plain(a, n, 0, PC); plain(b, n, 0, PC);
   const volatile unsigned char* x = (const volatile unsigned char*)a; const volatile unsigned char* y = (const volatile unsigned char*)b;
   for (size_t i = 0; i < n; ++i) { unsigned char p = x[i], q = y[i]; if (p != q) return p < q ? -1 : 1; }
   return 0;
}
size_t strlen(const char* s) {
   const volatile char* x = s; size_t n = 0; while (x[n]) ++n;
   plain(s, n + 1, 0, PC);
   return n;
}
void* ts_memchr(const void* s, int c, size_t n) asm("memchr");
void* ts_memchr(const void* s, int c, size_t n) {
   const volatile unsigned char* x = (const volatile unsigned char*)s; size_t i = 0;
   while (i < n && x[i] != (unsigned char)c) ++i;
   plain(s, i < n ? i + 1 : n, 0, PC);
   return i < n ? (void*)((const char*)s + i) : nullptr;
}

}
