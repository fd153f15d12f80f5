// C13: Singleton.  Each execution runs in a process of its own, so that the first access is really the first.
#include "tsrt.h"
#include <falcon/singleton.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace {
std::string S(const char* f, int a, int b) { char buf[400]; snprintf(buf, sizeof buf, f, a, b); return buf; }

int built[3], failures[3], building[3];       // kept in quiet sections
int failFirst[3];

template<int N> struct Thing {
   long a = 1;
   std::string text;
   long b = 0;
   Thing() {
      { ts::Quiet q; MC_CHECK(building[N] == 0, "two constructions of the same singleton are going on at once"); building[N]++; }
      a = 11 + N;
      ts::point();
      if (failFirst[N] > 0) { ts::Quiet q; --failFirst[N]; building[N]--; failures[N]++; throw std::runtime_error("not yet"); }
      text = "complete";
      ts::point();
      b = 22 + N;
      { ts::Quiet q; building[N]--; built[N]++; MC_CHECK(built[N] == 1, "a singleton was constructed %d times", built[N]); }
   }
   void check() const {
      MC_CHECK(a == 11 + N && b == 22 + N && text == "complete", "an accessor gave an instance whose construction is not complete (%ld, %ld, '%s')", a, b, text.c_str());
   }
   const Thing* me() const { check(); return this; }
   Thing* me() { check(); return this; }
};
template<int N> falcon::Singleton<Thing<N>>& single() { static falcon::Singleton<Thing<N>> s; return s; }

// A singleton whose construction needs another one.
struct Outer {
   const Thing<0>* in; long c;
   Outer(): in(nullptr), c(0) { falcon::Singleton<Thing<0>> s; in = s.get(); in->check(); ts::point(); c = 33; ts::Quiet q; built[2]++; MC_CHECK(built[2] == 1, "a singleton was constructed %d times", built[2]); }
};

enum { ACCESSORS = 6 };
const char* const accName[] = {"get()", "->", "*", "mtbl->", "*mtbl", "another Singleton object"};
template<int N> const void* accessOne(falcon::Singleton<Thing<N>>& s, int how) {
   const falcon::Singleton<Thing<N>>& c = s;
   switch (how) {
   case 0: { auto* p = s.get(); p->check(); return p; }
   case 1: return c->me();
   case 2: return (*c).me();
   case 3: return s.mtbl->me();
   case 4: return (*s.mtbl).me();
   case 5: { falcon::Singleton<Thing<N>> other; other.get()->check(); return other.get(); }
   }
   return nullptr;
}
template<int N> const void* accessor(falcon::Singleton<Thing<N>>& s, int how) {
   for (;;) {
      try { return accessOne(s, how); }
      catch (std::runtime_error&) { if (mc::noting()) mc::note("T%d: construction failed\n", ts::self()); }
   }
}

void concurrent(int threads, int accesses, int types, int fails, int preempt) {
   ts::opt.preempt = preempt; ts::opt.leaks = false;
   std::vector<std::vector<std::pair<int, int>>> prog(threads);
   for (auto& p : prog) for (int i = 0; i < accesses; ++i) {
      int ty = types > 1 ? ts::choose(types) : 0;
      p.push_back({ty, ts::choose(ACCESSORS)});
   }
   if (fails) failFirst[0] = 1 + ts::choose(fails);
   int expectFails = failFirst[0];
   // (the Singleton objects themselves are there before)
   auto s0 = std::make_unique<falcon::Singleton<Thing<0>>>();
   auto s1 = std::make_unique<falcon::Singleton<Thing<1>>>();
   const void* seen[2] = {nullptr, nullptr};
   bool used[2] = {false, false};
   auto run = [&](int t) {
      for (auto& a : prog[t]) {
         if (mc::noting()) mc::note("T%d: %s of type %d\n", ts::self(), accName[a.second], a.first);
         const void* p = a.first ? accessor(*s1, a.second) : accessor(*s0, a.second);
         ts::Quiet q;
         used[a.first] = true;
         MC_CHECK(!seen[a.first] || seen[a.first] == p, "%s gave another instance than an earlier access", accName[a.second]);
         seen[a.first] = p;
         MC_CHECK(built[a.first] == 1, "%s returned with %d instances constructed", accName[a.second], built[a.first]);
         MC_CHECK(seen[0] != seen[1], "two types share an instance");
      }
   };
   std::vector<std::thread> th;
   for (int t = 1; t < threads; ++t) th.emplace_back(run, t);
   run(0);
   for (auto& t : th) t.join();
   ts::Quiet q;
   for (int i = 0; i < types; ++i) MC_CHECK(built[i] == used[i], "%d instances were constructed", built[i]);
   if (used[0]) MC_CHECK(failures[0] == expectFails, "construction failed %d times instead of %d", failures[0], expectFails);
   mc::outcome(mc::hash2(built[0] * 10 + built[1], failures[0]));
}
void nestedOne(int threads, int preempt) {
   ts::opt.preempt = preempt; ts::opt.leaks = false;
   auto so = std::make_unique<falcon::Singleton<Outer>>();
   auto s0 = std::make_unique<falcon::Singleton<Thing<0>>>();
   std::vector<std::thread> th;
   const void* a = nullptr;
   auto run = [&](int t) {
      if (t % 2 == 0) { const Outer& o = **so; MC_CHECK(o.c == 33 && o.in, "an accessor gave an instance whose construction is not complete"); o.in->check(); }
      else { s0->get()->check(); }
      MC_CHECK(s0->get() == (*so)->in, "two instances of an inner singleton");
   };
   for (int t = 1; t < threads; ++t) th.emplace_back(run, t);
   run(0);
   for (auto& t : th) t.join();
   MC_CHECK(built[0] == 1 && built[2] == 1, "%d and %d instances were constructed", built[0], built[2]);
   mc::outcome(1);
}
}

static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
   auto sc = [&](const char* n, int t, int a, int ty, int f, int p) {
      v.push_back({n, [=]() { concurrent(t, a, ty, f, p); }, true, th ? 60.0 : 25.0, S("%d threads x %d accesses, every choice of accessors, ", t, a) + S("%d types, up to %d failing constructions", ty, f) + S(", %d preemptions", p, 0)});
   };
   sc("2x1", 2, 1, 1, 0, 99);
   sc("2x2", 2, 2, 1, 0, th ? 2 : 1);
   sc("2x1-types", 2, 1, 2, 0, 3);
   sc("2x1-throwing", 2, 1, 1, 2, th ? 3 : 2);
   sc("3x1", 3, 1, 1, 0, th ? 2 : 1);
   if (th) sc("3x1-throwing", 3, 1, 1, 2, 2);
   v.push_back({"nested", [=]() { nestedOne(th ? 3 : 2, 2); }, true, 25, S("%d threads, a singleton constructed while constructing another, %d preemptions", th ? 3 : 2, 2)});
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
