// Futex, RFutex and the atomic primitives: C09 (exclusion), C10 (progress, yields), C11 (recursion), C12 (atomics).
#include "tsrt.h"
#include "lin.h"
#include <falcon/futex.h>
#include <falcon/atomic.h>
#include <climits>
#include <cstdarg>
#include <memory>
#include <thread>

using falcon::Futex;
using falcon::RFutex;

namespace {
std::string S(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string S(const char* f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// What may be known about a lock from outside of it (kept in quiet sections).
struct Watcher {
   int sure = 0;             // threads between the return of lock() and the call of unlock()
   int maybe = 0;            // threads between the call of lock() and the return of unlock()
   int holder = -1;
   struct Query { bool open = false, sawFree = false, sawHeld = false; } q[12];
   void changed() { for (auto& x : q) if (x.open) { if (!sure) x.sawFree = true; if (maybe) x.sawHeld = true; } }
   void begin() { Query& x = q[ts::self()]; x.open = true; x.sawFree = !sure; x.sawHeld = maybe > 0; }
   void end(bool locked, const char* what) {
      Query& x = q[ts::self()]; x.open = false;
      MC_CHECK(locked || x.sawFree, "%s: isLocked() is false while the lock is held by T%d", what, holder);
      MC_CHECK(!locked || x.sawHeld, "%s: isLocked() is true while nobody holds the lock", what);
   }
};

#if PROP == 9 || PROP == 10
// The state shared by the threads of a scenario.
template<class F> struct Shared {
   F f;
   long data[2] = {0, 0};    // protected by f
   Watcher w;
};

template<class F> void enter(Shared<F>& s, const char* what) {
   { ts::Quiet q; s.w.maybe++; s.w.changed(); }
   s.f.lock();
   { ts::Quiet q; MC_CHECK(s.w.sure == 0, "%s: T%d and T%d hold the lock at once", what, s.w.holder, ts::self()); s.w.sure++; s.w.holder = ts::self(); s.w.changed(); ts::observe(100 + ts::self()); }
}
template<class F> void leave(Shared<F>& s) {
   { ts::Quiet q; s.w.sure--; s.w.changed(); ts::observe(200 + ts::self()); }
   s.f.unlock();
   { ts::Quiet q; s.w.maybe--; s.w.changed(); }
}
template<class F> void query(Shared<F>& s, const char* what) {
   { ts::Quiet q; s.w.begin(); }
   bool l = s.f.isLocked();
   { ts::Quiet q; s.w.end(l, what); }
}
#endif

#if PROP == 9
template<class F> void exclusion(const char* what, int threads, int iters, int observers, int preempt, int casFail, int spin) {
   ts::opt.preempt = preempt; ts::opt.casFail = casFail; ts::opt.spin = spin;
   auto s = std::make_unique<Shared<F>>();
   std::vector<std::thread> th;
   for (int t = 0; t < threads; ++t) th.emplace_back([&s, iters, what]() {
      Shared<F>& sh = *s;
      for (int i = 0; i < iters; ++i) {
         enter(sh, what);
         long a = sh.data[0];
         sh.data[0] = a + 1;
         if (i == 0) query(sh, what);
         sh.data[1] = sh.data[1] + 1;
         MC_CHECK(sh.data[0] == sh.data[1], "%s: torn update", what);
         leave(sh);
      }
   });
   for (int t = 0; t < observers; ++t) th.emplace_back([&s, what]() { query(*s, what); query(*s, what); });
   for (auto& t : th) t.join();
   MC_CHECK(s->data[0] == long(threads) * iters, "%s: %ld updates are left of %d", what, s->data[0], threads * iters);
   query(*s, what);
   mc::outcome(s->data[0]);
   if (mc::noting()) mc::note("%s: %d threads x %d sections done\n", what, threads, iters);
}

template<class F> void add(std::vector<mc::Scenario>& v, const char* what, bool th) {
   auto sc = [&](const char* n, int threads, int iters, int obs, int pre, int cas, int spin, double cap) {
      std::string w = what;
      v.push_back({w + "-" + n, [=]() { exclusion<F>(w.c_str(), threads, iters, obs, pre, cas, spin); }, false, cap,
         S("%d threads x %d critical sections, %d isLocked() observers, %s preemptions, %d spurious compare-and-swap failures, busy waits of up to %d attempts",
           threads, iters, obs, pre > 50 ? "unbounded" : std::to_string(pre).c_str(), cas, spin)});
   };
   sc("2x2", 2, 2, 0, 99, 0, 2, 60);
   sc("2x1-spurious", 2, 1, 1, th ? 6 : 4, 2, 2, 60);
   sc("2x3", 2, 3, 0, th ? 8 : 5, 1, 3, 120);
   sc("3x1", 3, 1, 0, th ? 6 : 4, 1, 1, 120);
   sc("3x2", 3, 2, 0, th ? 5 : 3, th ? 1 : 0, 2, 200);
   sc("3x1-observer", 3, 1, 1, th ? 4 : 2, 0, 2, 200);
   if (th) sc("4x1", 4, 1, 0, 4, 1, 1, 200);
   // the first threads ever to use a lock: each execution in a process of its own
   for (int n = 2; n <= 3; ++n) {
      std::string w = what;
      int pre = n == 2 ? (th ? 8 : 5) : (th ? 5 : 3);
      v.push_back({w + "-first-" + std::to_string(n), [=]() { exclusion<F>(w.c_str(), n, 1, 0, pre, 0, 1); }, true, 120,
         S("%d threads x 1 critical section in a new process, %d preemptions", n, pre)});
   }
}
#endif

#if PROP == 10
struct Calls { const volatile char* lo = nullptr; const volatile char* hi = nullptr; uint64_t failed[12] = {}; } calls;
void counted(int t, const volatile void* a, uint64_t before, bool) {
   const volatile char* p = (const volatile char*)a;
   if (p >= calls.lo && p < calls.hi && before != 0) calls.failed[t]++;
}

// Every lock() yields as often as its failed attempts require.
template<unsigned N> void progress(int waiters, int iters, int preempt, int spin, int casFail, bool holderYields) {
   ts::opt.preempt = preempt; ts::opt.spin = spin; ts::opt.casFail = casFail;
   auto s = std::make_unique<Shared<Futex<N>>>();
   uint64_t maxFailed = 0, all = 0;
   { ts::Quiet q; calls = Calls(); calls.lo = (const volatile char*)&s->f; calls.hi = calls.lo + sizeof s->f; ts::onAtomic = counted; }
   auto worker = [&](bool first) {
      for (int i = 0; i < iters; ++i) {
         int me = ts::self();
         uint64_t f0 = calls.failed[me], y0 = ts::yields(me);
         s->f.lock();
         uint64_t f = calls.failed[me] - f0, y = ts::yields(me) - y0;
         { ts::Quiet q;
           if (f > maxFailed) maxFailed = f;
           all = all * 31 + f;
           if (casFail == 0) {
              if (N == 0) MC_CHECK(y == 0, "Futex<0>: lock() yielded %llu times", (unsigned long long)y);
              else MC_CHECK(y == f / N, "Futex<%u>: lock() yielded %llu times in %llu failed attempts instead of %llu", N, (unsigned long long)y, (unsigned long long)f, (unsigned long long)(f / N));
           }
           else if (N == 0) MC_CHECK(y == 0, "Futex<0>: lock() yielded"); }
         if (first && holderYields) ts::point();
         s->f.unlock();
      }
   };
   std::vector<std::thread> th;
   for (int t = 0; t < waiters; ++t) th.emplace_back(worker, false);
   worker(true);
   for (auto& t : th) t.join();
   // Free again, and taken without contention.
   uint64_t f0 = calls.failed[0], y0 = ts::yields(0);
   MC_CHECK(!s->f.isLocked(), "Futex<%u> is still locked when everybody has left", N);
   s->f.lock();
   MC_CHECK(casFail > 0 || (ts::yields(0) == y0 && calls.failed[0] == f0), "Futex<%u>: uncontended lock() did not go through at once", N);
   MC_CHECK(s->f.isLocked(), "Futex<%u> is not locked after lock()", N);
   s->f.unlock();
   MC_CHECK(!s->f.isLocked(), "Futex<%u> is locked after unlock()", N);
   mc::outcome(maxFailed);
   mc::outcome(1000 + all);
   if (mc::noting()) mc::note("Futex<%u>: at most %llu failed attempts in a lock()\n", N, (unsigned long long)maxFailed);
}

// A wait of exactly so many failed attempts: the futex is freed, from outside, after the last of them.
struct LongWait { const volatile char* lo = nullptr; size_t n = 0; char image[64] = {}; uint64_t failed = 0, limit = 0; } lw;
__attribute__((no_sanitize("thread"))) void freed(int, const volatile void* a, uint64_t before, bool) {
   const volatile char* p = (const volatile char*)a;
   if (p < lw.lo || p >= lw.lo + lw.n || before == 0) return;
   if (++lw.failed == lw.limit) for (size_t i = 0; i < lw.n; ++i) ((volatile char*)lw.lo)[i] = lw.image[i];
}
template<unsigned N> void longWait() {
   static const uint64_t times[] = {1, 2, 3, 99, 100, 101, 254, 255, 256, 257, 511, 512, 513, 1000, 3000, 65534, 65535, 65536, 65537, 131072, 140003};
   uint64_t k = times[ts::choose(sizeof times / sizeof *times)];
   ts::opt.preempt = 0; ts::opt.spin = 1000000; ts::opt.horizon = 1000000; ts::opt.casFail = 0;
   auto f = std::make_unique<Futex<N>>();
   static_assert(sizeof *f <= sizeof lw.image, "");
   { ts::Quiet q; lw = LongWait(); lw.lo = (const volatile char*)f.get(); lw.n = sizeof *f; for (size_t i = 0; i < lw.n; ++i) lw.image[i] = lw.lo[i]; lw.limit = k; }
   f->lock();
   { ts::Quiet q; MC_CHECK(lw.failed == 0, "lock() of a free futex went wrong"); ts::onAtomic = freed; }
   uint64_t y0 = ts::yields(0);
   f->lock();
   uint64_t y = ts::yields(0) - y0;
   { ts::Quiet q; ts::onAtomic = nullptr;
     MC_CHECK(lw.failed == k, "lock() returned after %llu failed attempts, the futex was freed after %llu", (unsigned long long)lw.failed, (unsigned long long)k); }
   uint64_t want = N == 0 ? 0 : k / (N ? N : 1);
   MC_CHECK(y == want, "Futex<%u>: lock() yielded %llu times in %llu failed attempts instead of %llu", N, (unsigned long long)y, (unsigned long long)k, (unsigned long long)want);
   MC_CHECK(f->isLocked(), "Futex<%u> is not locked after lock()", N);
   f->unlock();
   MC_CHECK(!f->isLocked(), "Futex<%u> is locked after unlock()", N);
   mc::outcome(y);
   if (mc::noting()) mc::note("Futex<%u>: %llu failed attempts, %llu yields\n", N, (unsigned long long)k, (unsigned long long)y);
}

template<unsigned N> void addLong(std::vector<mc::Scenario>& v) {
   v.push_back({"Futex" + std::to_string(N) + "-long", []() { longWait<N>(); }, false, 120, S("one wait on a Futex<%u> of 1 to 140003 failed attempts (21 numbers around powers of two and others)", N)});
}
template<unsigned N> void add(std::vector<mc::Scenario>& v, bool th) {
   auto sc = [&](const char* n, int w, int it, int pre, int spin, int cas, bool hy, double cap) {
      v.push_back({"Futex" + std::to_string(N) + "-" + n, [=]() { progress<N>(w, it, pre, spin, cas, hy); }, false, cap,
         S("1+%d threads x %d lock/unlock pairs on a Futex<%u>, %d preemptions, %d spurious compare-and-swap failures, up to %d failed attempts in a row before the schedule turns to the others", w, it, N, pre, cas, spin)});
   };
   int spin = N <= 1 ? 4 : 2 * N + 2;
   sc("1waiter", 1, 2, th ? 8 : 5, th ? 2 * spin : spin, 0, true, 60);
   sc("2waiters", 2, 1, th ? 5 : 3, spin, 0, true, 60);
   sc("spurious", 1, 2, th ? 6 : 4, 3, 2, true, 60);
   if (th) sc("3waiters", 3, 1, 2, spin, 0, true, 120);
}
#endif

#if PROP == 11
// Threads acting in turns: every sequence of calls, each executed in the thread it names.
struct Turn {
   std::atomic<bool> go{false};
   std::function<void()> what;
   bool over = false;
};
void turns(int threads, int futexes, int depth, int maxNest) {
   ts::opt.preempt = 0; ts::opt.spin = 1; ts::opt.races = true;
   auto fx = std::make_unique<RFutex[]>(futexes);
   auto tn = std::make_unique<Turn[]>(threads);
   std::vector<std::thread> th;
   for (int t = 0; t < threads; ++t) th.emplace_back([&tn, t]() {
      for (;;) {
         while (!tn[t].go.load()) {}
         if (tn[t].over) return;
         tn[t].what();
         tn[t].go.store(false);
      }
   });
   std::vector<int> owner(futexes, -1), nest(futexes, 0);
   auto in = [&](int t, std::function<void()> w) {
      tn[t].what = std::move(w);
      tn[t].go.store(true);
      while (tn[t].go.load()) {}
   };
   for (int d = 0; d < depth; ++d) {
      // the calls that make sense now
      struct Call { int op, t, f; };
      std::vector<Call> can{{0, 0, 0}};
      for (int f = 0; f < futexes; ++f) for (int t = 0; t < threads; ++t) {
         if (owner[f] == -1 || (owner[f] == t && nest[f] < maxNest)) can.push_back({1, t, f});
         if (owner[f] == -1 || owner[f] == t) can.push_back({2, t, f});
      }
      Call c = can[ts::choose((int)can.size())];
      if (c.op == 0) break;
      if (c.op == 1) { in(c.t, [&]() { fx[c.f].lock(); }); owner[c.f] = c.t; nest[c.f]++; if (mc::noting()) mc::note("T%d lock(%d)\n", c.t, c.f); }
      if (c.op == 2) { in(c.t, [&]() { fx[c.f].unlock(); }); if (nest[c.f] && --nest[c.f] == 0) owner[c.f] = -1; if (mc::noting()) mc::note("T%d unlock(%d)\n", c.t, c.f); }
      for (int t = 0; t < threads; ++t) in(t, [&]() {
         for (int f = 0; f < futexes; ++f) {
            bool o = fx[f].isOwner(), l = fx[f].isLocked();
            MC_CHECK(o == (owner[f] == t), "after %d calls, isOwner() of futex %d is %d in thread %d; its owner is %d", d + 1, f, o, t, owner[f]);
            MC_CHECK(l == (owner[f] != -1), "after %d calls, isLocked() of futex %d is %d; its owner is %d", d + 1, f, l, owner[f]);
         }
      });
   }
   uint64_t h = 0; for (int f = 0; f < futexes; ++f) h = mc::hash2(h, owner[f] * 16 + nest[f] + 1);
   mc::outcome(h);
   // The futexes become free exactly when the owner leaves as often as it entered.
   for (int f = 0; f < futexes; ++f) {
      while (nest[f]) {
         in(owner[f], [&]() { fx[f].unlock(); });
         if (--nest[f] == 0) owner[f] = -1;
         in((f + 1) % threads, [&]() { MC_CHECK(fx[f].isLocked() == (owner[f] != -1), "futex %d with %d pending unlocks: isLocked() is %d", f, nest[f], fx[f].isLocked()); });
      }
      for (int t = 0; t < threads; ++t) in(t, [&]() { fx[f].lock(); MC_CHECK(fx[f].isOwner(), "isOwner() after lock() of a free futex"); fx[f].unlock(); });
   }
   for (int t = 0; t < threads; ++t) { tn[t].over = true; tn[t].go.store(true); th[t].join(); }
}

// Concurrent nested use of several futexes.
void nested(int threads, int futexes, int iters, int depth, int preempt, int spin) {
   ts::opt.preempt = preempt; ts::opt.spin = spin;
   struct Sh { RFutex f; long data = 0; Watcher w; int nest = 0; };
   auto s = std::make_unique<Sh[]>(futexes);
   std::vector<std::thread> th;
   for (int t = 0; t < threads; ++t) th.emplace_back([&, t]() {
      for (int i = 0; i < iters; ++i) {
         Sh& x = s[(t + i) % futexes];
         MC_CHECK(!x.f.isOwner(), "isOwner() in a thread that does not hold the futex");
         { ts::Quiet q; x.w.maybe++; x.w.changed(); }
         for (int d = 0; d < depth; ++d) {
            x.f.lock();
            { ts::Quiet q;
              MC_CHECK(d > 0 || x.w.sure == 0, "T%d and T%d hold the recursive futex at once", x.w.holder, ts::self());
              MC_CHECK(d == 0 || x.w.holder == ts::self(), "T%d entered while T%d was inside", x.w.holder, ts::self());
              if (d == 0) { x.w.sure = 1; x.w.holder = ts::self(); x.w.changed(); }
              ts::observe(100 + ts::self()); }
            x.data = x.data + 1;
            MC_CHECK(x.f.isOwner(), "isOwner() is false in the owner");
         }
         for (int d = 0; d < depth; ++d) {
            x.data = x.data + 1;
            if (d == depth - 1) { ts::Quiet q; x.w.sure = 0; x.w.changed(); ts::observe(200 + ts::self()); }
            x.f.unlock();
         }
         { ts::Quiet q; x.w.maybe--; x.w.changed(); }
         MC_CHECK(!x.f.isOwner(), "isOwner() in a thread that has left the futex");
      }
   });
   th.emplace_back([&]() { for (int f = 0; f < futexes; ++f) { { ts::Quiet q; s[f].w.begin(); } bool l = s[f].f.isLocked(); { ts::Quiet q; s[f].w.end(l, "RFutex"); } MC_CHECK(!s[f].f.isOwner(), "isOwner() in a thread that never locked"); } });
   for (auto& t : th) t.join();
   long sum = 0; for (int f = 0; f < futexes; ++f) sum += s[f].data;
   MC_CHECK(sum == 2L * threads * iters * depth, "%ld updates are left of %d", sum, 2 * threads * iters * depth);
   for (int f = 0; f < futexes; ++f) MC_CHECK(!s[f].f.isLocked(), "futex %d is locked when everybody has left", f);
   mc::outcome(sum);
}

// Ever new threads: each is told from all others.
void generations(int n, int preempt) {
   ts::opt.preempt = preempt; ts::opt.spin = 1;
   auto f = std::make_unique<RFutex>();
   auto g = std::make_unique<RFutex>();
   g->lock();
   std::vector<std::thread> th;
   for (int t = 0; t < n; ++t) th.emplace_back([&]() {
      f->lock();
      MC_CHECK(f->isOwner(), "isOwner() is false in the owner");
      MC_CHECK(!g->isOwner(), "isOwner() is true in a thread for a futex held by another");
      f->unlock();
      MC_CHECK(!g->isOwner(), "isOwner() is true in a thread for a futex held by another");
   });
   for (auto& t : th) t.join();
   MC_CHECK(g->isOwner(), "isOwner() is false in the owner");
   g->unlock();
   MC_CHECK(!f->isLocked() && !g->isLocked(), "locked when everybody has left");
}
#endif

#if PROP == 12
using falcon::int32;
struct Cell { falcon::atomic_int a; };
struct Act { int op; int32 x, y; };
const char* const names[] = {"inc", "dec", "add", "set", "fetch", "exchange", "cas", "xor", "and", "or"};

// The calls: every primitive with arguments from a small domain.
std::vector<Act> acts(bool full) {
   std::vector<Act> v;
   std::vector<int32> xs = full ? std::vector<int32>{5, -1, INT_MIN} : std::vector<int32>{5, -1};
   v.push_back({0, 0, 0}); v.push_back({1, 0, 0}); v.push_back({4, 0, 0});
   for (int op : {2, 3, 5, 7, 8, 9}) for (int32 x : xs) v.push_back({op, x, 0});
   for (int32 x : {0, 5}) for (int32 y : {-1, 5}) v.push_back({6, x, y});
   return v;
}
int32 wrap(uint32_t x) { return (int32)x; }
int32 reference(int32& m, const Act& c) {
   int32 old = m;
   switch (c.op) {
   case 0: return m = wrap((uint32_t)m + 1u);
   case 1: return m = wrap((uint32_t)m - 1u);
   case 2: return m = wrap((uint32_t)m + (uint32_t)c.x);
   case 3: m = c.x; return 0;
   case 4: return m;
   case 5: m = c.x; return old;
   case 6: if (m == c.x) { m = c.y; return 1; } return 0;
   case 7: m ^= c.x; return old;
   case 8: m &= c.x; return old;
   case 9: m |= c.x; return old;
   }
   return 0;
}
int32 perform(Cell& c, const Act& a) {
   switch (a.op) {
   case 0: return falcon::atomicInc(c.a);
   case 1: return falcon::atomicDec(c.a);
   case 2: return falcon::atomicAdd(c.a, a.x);
   case 3: falcon::atomicSet(c.a, a.x); return 0;
   case 4: return falcon::atomicFetch(c.a);
   case 5: return falcon::atomicExchange(c.a, a.x);
   case 6: return falcon::atomicCAS(c.a, a.x, a.y);
   case 7: return falcon::atomicXor(c.a, a.x);
   case 8: return falcon::atomicAnd(c.a, a.x);
   case 9: return falcon::atomicOr(c.a, a.x);
   }
   return 0;
}

void program(const std::vector<Act>& all, const std::vector<int>& shape, const std::vector<int32>& inits, int preempt) {
   ts::opt.preempt = preempt;
   auto c = std::make_unique<Cell>();
   int32 init = inits[ts::choose((int)inits.size())];
   c->a = init;
   std::vector<std::vector<Act>> prog(shape.size());
   for (size_t t = 0; t < shape.size(); ++t) for (int i = 0; i < shape[t]; ++i) prog[t].push_back(all[ts::choose((int)all.size())]);
   Lin<int32>* lin; { ts::Quiet q; lin = new Lin<int32>; }
   auto run = [&](int t) {
      for (auto& a : prog[t]) {
         if (!(t == 0 && &a == &prog[t][0]) && shape.size() < 3) ts::point();
         size_t id; { ts::Quiet q; id = lin->call(S("%s(%d,%d)", names[a.op], a.x, a.y)); }
         int32 r = perform(*c, a);
         { ts::Quiet q; lin->ret(id, S(" = %d", r), [a, r](int32& m) { return reference(m, a) == r; }); }
      }
   };
   std::vector<std::thread> th;
   for (size_t t = 1; t < shape.size(); ++t) th.emplace_back(run, (int)t);
   run(0);
   for (auto& t : th) t.join();
   int32 last = falcon::atomicFetch(c->a);
   { ts::Quiet q;
     size_t id = lin->call("final value"); lin->ret(id, S(" = %d", last), [last](int32& m) { return m == last; });
     if (mc::noting()) mc::note("initially %d:\n%s", init, lin->text().c_str());
     MC_CHECK(lin->check(init, [](const int32& m) { return (uint64_t)(uint32_t)m; }), "no sequential order of these calls gives these results (initial value %d):\n%s", init, lin->text().c_str());
     mc::outcome(lin->outcome());
     delete lin; }
}
// Sequential semantics, over a denser domain.
void sequential(int depth) {
   static const int32 dom[] = {0, 1, -1, 2, 5, INT_MAX, INT_MIN, 0x5555aaaa, 255, -256};
   constexpr int D = sizeof dom / sizeof *dom;
   auto c = std::make_unique<Cell>();
   int32 m = dom[ts::choose(D)];
   c->a = m;
   for (int d = 0; d < depth; ++d) {
      Act a{ts::choose(10), 0, 0};
      if (a.op != 0 && a.op != 1 && a.op != 4) a.x = a.op == 6 && ts::choose(2) ? m : dom[ts::choose(D)];
      if (a.op == 6) a.y = dom[ts::choose(D)];
      int32 before = m, want = reference(m, a), got = perform(*c, a);
      MC_CHECK(want == got, "%s(%d,%d) on %d returned %d instead of %d", names[a.op], a.x, a.y, before, got, want);
      MC_CHECK(c->a == m && falcon::atomicFetch(c->a) == m, "%s(%d,%d) on %d left %d instead of %d", names[a.op], a.x, a.y, before, (int)c->a, m);
      mc::outcome(mc::hash2((uint32_t)m, a.op));
   }
}
#endif
}

static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
#if PROP == 9
   add<Futex<0>>(v, "Futex0", th);
   add<Futex<1>>(v, "Futex1", th);
   add<Futex<2>>(v, "Futex2", th);
   add<Futex<7>>(v, "Futex7", th);
   add<RFutex>(v, "RFutex", th);
#elif PROP == 10
   v.push_back({"default", []() { MC_CHECK((std::is_same<Futex<>, Futex<0>>::value), "the spin count is not off by default"); }, false, 60, "the default spin count"});
   add<0>(v, th); add<1>(v, th); add<2>(v, th); add<3>(v, th); add<5>(v, th);
   if (th) add<8>(v, th);
   addLong<0>(v); addLong<1>(v); addLong<2>(v); addLong<100>(v); addLong<255>(v); addLong<256>(v); addLong<1000>(v); addLong<65535>(v); addLong<65536>(v); addLong<70001>(v);
#elif PROP == 11
   v.push_back({"turns-2t1f", [=]() { turns(2, 1, th ? 11 : 9, 3); }, false, 120, S("every sequence of up to %d lock/unlock calls by 2 threads on one recursive futex, in turns, nested up to 3 deep", th ? 11 : 9)});
   v.push_back({"turns-2t2f", [=]() { turns(2, 2, th ? 7 : 6, 2); }, false, 120, S("every sequence of up to %d calls by 2 threads on 2 futexes, in turns", th ? 7 : 6)});
   v.push_back({"turns-3t1f", [=]() { turns(3, 1, th ? 9 : 7, 2); }, false, 120, S("every sequence of up to %d calls by 3 threads on one futex, in turns", th ? 9 : 7)});
   v.push_back({"nested-2t", [=]() { nested(2, 1, 1, 2, th ? 10 : 6, 1); }, false, 120, S("2 threads entering twice, 1 observer, %d preemptions", th ? 10 : 6)});
   v.push_back({"nested-2t2f", [=]() { nested(2, 2, 2, 2, th ? 5 : 3, 1); }, false, 120, S("2 threads x 2 futexes x nesting 2, 1 observer, %d preemptions", th ? 5 : 3)});
   v.push_back({"nested-3t", [=]() { nested(3, 1, 1, 3, th ? 4 : 2, 1); }, false, 120, S("3 threads x nesting 3, 1 observer, %d preemptions", th ? 4 : 2)});
   v.push_back({"generations", [=]() { generations(th ? 6 : 4, th ? 3 : 2); }, false, 120, S("%d threads locking for the first time concurrently, %d preemptions", th ? 6 : 4, th ? 3 : 2)});
   v.push_back({"turns-first", [=]() { turns(2, 1, th ? 7 : 5, 2); }, true, 120, S("every sequence of up to %d calls by the first 2 threads of a new process on one futex, in turns", th ? 7 : 5)});
   v.push_back({"nested-first", [=]() { nested(2, 1, 1, 2, th ? 4 : 2, 1); }, true, 120, S("2 threads entering twice in a new process, 1 observer, %d preemptions", th ? 4 : 2)});
   v.push_back({"generations-first", [=]() { generations(2, th ? 3 : 1); }, true, 120, S("2 threads locking for the first time in a new process, %d preemptions", th ? 3 : 1)});
#elif PROP == 12
   v.push_back({"sequential", [=]() { sequential(th ? 3 : 2); }, false, 120, S("every sequence of %d calls with operands from 10 corner values", th ? 3 : 2)});
   v.push_back({"1+1", [=]() { program(acts(true), {1, 1}, {0, 5, -1, INT_MAX}, 99); }, false, 120, "2 threads x 1 call, every pair of calls, 4 initial values, all interleavings"});
   v.push_back({"1+2", [=]() { program(acts(false), {1, 2}, {5, -1}, 99); }, false, 120, "2 threads, 1 and 2 calls, every program, 2 initial values, all interleavings"});
   v.push_back({"1+1+1", [=]() { program(acts(false), {1, 1, 1}, {5}, 99); }, false, 120, "3 threads x 1 call, every program, all interleavings"});
   if (th) v.push_back({"2+2", [=]() { program(acts(false), {2, 2}, {5, 0}, 99); }, false, 900, "2 threads x 2 calls, every program, 2 initial values, all interleavings"});
   if (th) v.push_back({"1+1+2", [=]() { program(acts(false), {1, 1, 2}, {5}, 2); }, false, 900, "3 threads with 1, 1 and 2 calls, every program, 2 preemptions"});
#endif
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
