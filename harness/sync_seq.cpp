// RFutex beyond small numbers (C11): deep nesting, many threads, many futexes, one thread at a time.
#include "seqrt.h"
#include <falcon/futex.h>
#include <memory>
#include <thread>
#include <vector>

using falcon::RFutex;
using mc::choose;

namespace {
void in(const std::function<void()>& f) { std::thread t(f); t.join(); }

// n times in, n times out.
void depth() {
   static const long sizes[] = {1, 2, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131073, 1000000};
   long n = sizes[choose(sizeof sizes / sizeof *sizes)];
   int surplus = choose(3);
   mc::note("nested %ld deep, %d unlocks too many\n", n, surplus);
   auto f = std::make_unique<RFutex>();
   auto other = [&](bool locked, const char* when) { in([&] {
      MC_CHECK(!f->isOwner(), "isOwner() is true in another thread %s", when);
      MC_CHECK(f->isLocked() == locked, "isLocked() is %d %s", f->isLocked(), when);
   }); };
   for (long i = 0; i < n; ++i) {
      f->lock();
      if (!f->isOwner() || !f->isLocked()) mc::fail("after %ld calls of lock(): isOwner() is %d, isLocked() is %d", i + 1, f->isOwner(), f->isLocked());
   }
   mc::transition(n);
   other(true, "when it is locked");
   for (long i = 0; i < n; ++i) {
      if (!f->isOwner() || !f->isLocked()) mc::fail("after %ld of %ld calls of unlock(): isOwner() is %d, isLocked() is %d", i, n, f->isOwner(), f->isLocked());
      if (i == n - 1) other(true, "before the last unlock()");
      f->unlock();
   }
   mc::transition(n);
   for (int i = 0; i < surplus; ++i) f->unlock();
   MC_CHECK(!f->isOwner() && !f->isLocked(), "after as many calls of unlock(): isOwner() is %d, isLocked() is %d", f->isOwner(), f->isLocked());
   other(false, "when it is free");
   in([&] { f->lock(); MC_CHECK(f->isOwner(), "isOwner() is false after lock()"); f->lock(); f->unlock(); MC_CHECK(f->isOwner() && f->isLocked(), "left too early"); f->unlock(); MC_CHECK(!f->isLocked(), "still locked"); });
   mc::state(mc::hash2(n, surplus));
}

// One thread after the other; the first one holds a futex all the time.
void crowd(int threads) {
   auto mine = std::make_unique<RFutex>(), shared = std::make_unique<RFutex>();
   mine->lock();
   for (int t = 0; t < threads; ++t) {
      in([&] {
         MC_CHECK(!mine->isOwner() && !shared->isOwner(), "thread %d owns a futex before it locked any", t + 2);
         shared->lock();
         MC_CHECK(shared->isOwner(), "thread %d does not own the futex it locked", t + 2);
         MC_CHECK(mine->isLocked() && !mine->isOwner(), "thread %d takes itself for the owner of a futex the first one holds", t + 2);
         shared->unlock();
         MC_CHECK(!shared->isOwner() && !shared->isLocked(), "thread %d owns the futex it left", t + 2);
      });
      if (!mine->isOwner()) mc::fail("isOwner() is false in the owner after %d other threads", t + 1);
      mc::transition();
   }
   mine->unlock();
   MC_CHECK(!mine->isLocked(), "locked when everybody has left");
   mc::note("%d threads, one after the other\n", threads);
   mc::state(threads);
}

// Many threads at once, each holding a futex of its own.
void holders(int threads) {
   auto fx = std::make_unique<RFutex[]>(threads + 1);
   fx[0].lock();
   std::function<void(int)> go = [&](int t) {
      fx[t].lock(); fx[t].lock();
      for (int i = 0; i <= threads; ++i) if (fx[i].isOwner() != (i == t) || fx[i].isLocked() != (i <= t)) mc::fail("thread %d of %d: isOwner() of futex %d is %d, isLocked() is %d", t, threads, i, fx[i].isOwner(), fx[i].isLocked());
      if (t < threads) in([&] { go(t + 1); });
      fx[t].unlock();
      MC_CHECK(fx[t].isOwner(), "thread %d left too early", t);
      fx[t].unlock();
      for (int i = 0; i <= threads; ++i) if (fx[i].isOwner() || fx[i].isLocked() != (i < t)) mc::fail("thread %d of %d, leaving: isOwner() of futex %d is %d, isLocked() is %d", t, threads, i, fx[i].isOwner(), fx[i].isLocked());
      mc::transition(2);
   };
   in([&] { go(1); });
   MC_CHECK(fx[0].isOwner(), "isOwner() is false in the owner");
   fx[0].unlock();
   mc::state(threads);
}
}

static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
   v.push_back({"depth", depth, false, 120, "one owner, nested 22 times between 1 and 1000000 deep, then 0-2 unlocks too many"});
   int n = th ? 300000 : 70000;
   v.push_back({"crowd", [n]() { crowd(n); }, true, 300, std::to_string(n) + " threads of a new process, one after the other"});
   v.push_back({"holders", []() { holders(300); }, true, 120, "300 threads of a new process at once, each holding a futex of its own"});
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
