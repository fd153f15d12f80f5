// PagedStack with a real mutex: C07 (linearizability), and synchronised iterators under concurrency (C05).
#include "tsrt.h"
#include "lin.h"
#include <falcon/engine/pagedstack.h>
#include <falcon/futex.h>
#include <climits>
#include <cstdarg>
#include <memory>
#include <mutex>
#include <thread>

namespace {
std::string S(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string S(const char* f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

using Vec = std::vector<int>;
uint64_t hashVec(const Vec& v) { uint64_t h = 7; for (int x : v) h = mc::hash2(h, x + 1); return h; }
std::string str(const Vec& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }

template<class M> using Stack = falcon::PagedStack<int, std::allocator, M>;

#if PROP == 7
enum Op { PUSH, POP, POPV, TOP, PEEK, PEEK2, DISCARD, SIZE, STATS, EMPTY, PUSH2, POP2, DISCARD2, EMPLACE, PEEKR, POPR, DEPTH, SHRINK, CLEAR, COPY, ASSIGN, MOVEIN, MOVEOUT, NOPS };
const char* const opName[] = {"push", "pop", "pop(v)", "top=", "peek", "peek2", "discard(1)", "size", "getStats", "empty", "push2", "pop2", "discard(2)", "push_emplace", "peek_reverse2", "pop_reverse2", "peek_depth", "shrink_to_fit", "clear", "copy", "=", "= move", "moved from"};
// Elements removed at most, and needed before.
const int removes[] = {0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 2, 2, 0, 0, 2, 0, 0, 99, 0, 0, 0, 99};
const int needs[] = {0, 1, 1, 1, 1, 2, 1, 0, 0, 0, 0, 2, 2, 0, 2, 2, 3, 0, 0, 0, 0, 0, 0};

template<class M> void perform(Stack<M>& st, Lin<Vec>& lin, int op, int val, size_t ps, int fill) {
   ts::point();
   size_t id; { ts::Quiet q; id = lin.call(opName[op]); }
   Vec whole;
   Stack<M> other(ps, 1);
   if (op == ASSIGN || op == MOVEIN) for (int i = 0; i < fill; ++i) { other.push(val + i); ts::Quiet q; whole.push_back(val + i); }
   auto contents = [&](Stack<M>& x) { while (!x.empty()) { int v; x.pop(v); ts::Quiet q; whole.insert(whole.begin(), v); } };
   int a = -1, b = -1, c = -1; size_t n = 0, s1 = 0, s2 = 0, s3 = 0;
   Lin<Vec>::Apply f; std::string text;
   switch (op) {
   case PUSH: st.push(val); break;
   case EMPLACE: st.push_emplace(val); break;
   case PUSH2: st.push(val, val + 1); break;
   case POP: st.pop(); break;
   case POPV: st.pop(a); break;
   case POP2: st.pop(a, b); break;
   case TOP: st.top(val); break;
   case PEEK: st.peek(a); break;
   case PEEK2: st.peek(a, b); break;
   case PEEKR: st.peek_reverse(a, b); break;
   case POPR: st.pop_reverse(a, b); break;
   case DEPTH: st.peek_depth(3, a, b); break;
   case DISCARD: st.discard(1); break;
   case DISCARD2: st.discard(2); break;
   case SIZE: n = st.size(); break;
   case EMPTY: n = st.empty(); break;
   case STATS: st.getStats(n, s1, s2, s3); break;
   case SHRINK: st.shrink_to_fit(); break;
   case CLEAR: st.clear(); break;
   case COPY: { Stack<M> x(st); contents(x); break; }
   case MOVEOUT: { Stack<M> x(std::move(st)); contents(x); break; }
   case ASSIGN: st = other; break;
   case MOVEIN: st = std::move(other); break;
   }
   ts::Quiet q;
   switch (op) {
   case PUSH: case EMPLACE: text = S("(%d)", val); f = [val](Vec& v) { v.push_back(val); return true; }; break;
   case PUSH2: text = S("(%d,%d)", val, val + 1); f = [val](Vec& v) { v.push_back(val); v.push_back(val + 1); return true; }; break;
   case POP: f = [](Vec& v) { if (v.empty()) return false; v.pop_back(); return true; }; break;
   case POPV: text = S(" = %d", a); f = [a](Vec& v) { if (v.empty() || v.back() != a) return false; v.pop_back(); return true; }; break;
   case POP2: text = S(" = %d,%d", a, b); f = [a, b](Vec& v) { size_t z = v.size(); if (z < 2 || v[z - 1] != a || v[z - 2] != b) return false; v.resize(z - 2); return true; }; break;
   case TOP: text = S("%d", val); f = [val](Vec& v) { if (v.empty()) return false; v.back() = val; return true; }; break;
   case PEEK: text = S(" = %d", a); f = [a](Vec& v) { return !v.empty() && v.back() == a; }; break;
   case PEEK2: text = S(" = %d,%d", a, b); f = [a, b](Vec& v) { size_t z = v.size(); return z >= 2 && v[z - 1] == a && v[z - 2] == b; }; break;
   case PEEKR: text = S(" = %d,%d", a, b); f = [a, b](Vec& v) { size_t z = v.size(); return z >= 2 && v[z - 2] == a && v[z - 1] == b; }; break;
   case POPR: text = S(" = %d,%d", a, b); f = [a, b](Vec& v) { size_t z = v.size(); if (z < 2 || v[z - 2] != a || v[z - 1] != b) return false; v.resize(z - 2); return true; }; break;
   case DEPTH: text = S(" = %d,%d", a, b); f = [a, b](Vec& v) { size_t z = v.size(); return z >= 3 && v[z - 3] == a && v[z - 2] == b; }; break;
   case DISCARD: f = [](Vec& v) { if (v.empty()) return false; v.pop_back(); return true; }; break;
   case DISCARD2: f = [](Vec& v) { if (v.size() < 2) return false; v.resize(v.size() - 2); return true; }; break;
   case SIZE: text = S(" = %zu", n); f = [n](Vec& v) { return v.size() == n; }; break;
   case EMPTY: text = S(" = %zu", n); f = [n](Vec& v) { return v.empty() == (n != 0); }; break;
   case STATS: {
      MC_CHECK(s1 == ps && s2 >= 1 && s2 <= n && s3 <= ps, "getStats: %zu pages of %zu, current %zu with %zu elements", n, s1, s2, s3);
      size_t z = (s2 - 1) * ps + s3;
      text = S(": %zu elements", z); f = [z](Vec& v) { return v.size() == z; }; break; }
   case SHRINK: f = [](Vec&) { return true; }; break;
   case COPY: text = " = " + str(whole); f = [whole](Vec& v) { return v == whole; }; break;
   case MOVEOUT: text = " = " + str(whole); f = [whole](Vec& v) { if (v != whole) return false; v.clear(); return true; }; break;
   case ASSIGN: case MOVEIN: text = " " + str(whole); f = [whole](Vec& v) { v = whole; return true; }; break;
   case CLEAR: f = [](Vec& v) { v.clear(); return true; }; break;
   }
   (void)c;
   lin.ret(id, text, f);
   whole = Vec();
}

template<class M> void linearizable(const std::vector<int>& ops, const std::vector<int>& shape, int maxPs, int preempt) {
   ts::opt.preempt = preempt; ts::opt.spin = 1;
   size_t ps = 1 + ts::choose(maxPs);
   std::vector<std::vector<int>> prog(shape.size());
   int need = 0, removed = 0; bool clears = false;
   for (size_t t = 0; t < shape.size(); ++t) for (int i = 0; i < shape[t]; ++i) {
      int o = ops[ts::choose((int)ops.size())];
      prog[t].push_back(o);
      if (o == CLEAR || o == MOVEOUT) clears = true; else removed += removes[o];
      if (needs[o] > need) need = needs[o];
   }
   // clear() goes with calls that accept an empty stack only
   if (clears && need) return;
   int fill = need ? removed + need : 1;
   auto st = std::make_unique<Stack<M>>(ps, 1);
   for (int i = 0; i < fill; ++i) st->push(i + 1);
   Lin<Vec>* lin; Vec init;
   { ts::Quiet q; lin = new Lin<Vec>; for (int i = 0; i < fill; ++i) init.push_back(i + 1); }
   auto run = [&](int t) { int val = 100 * (t + 1); for (int o : prog[t]) { perform(*st, *lin, o, val, ps, fill); val += 10; } };
   std::vector<std::thread> th;
   for (size_t t = 1; t < shape.size(); ++t) th.emplace_back(run, (int)t);
   run(0);
   for (auto& t : th) t.join();
   // The final contents.
   ts::opt.preempt = 0;
   Vec left;
   while (!st->empty()) { int v; st->pop(v); ts::Quiet q; left.push_back(v); }
   ts::Quiet q;
   std::reverse(left.begin(), left.end());
   size_t id = lin->call("contents"); lin->ret(id, " = " + str(left), [left](Vec& v) { return v == left; });
   if (mc::noting()) mc::note("page size %zu, initially %s\n%s", ps, str(init).c_str(), lin->text().c_str());
   MC_CHECK(lin->check(init, hashVec), "no sequential order of these calls gives these results (page size %zu, initially %s):\n%s", ps, str(init).c_str(), lin->text().c_str());
   mc::outcome(lin->outcome());
   delete lin;
   init = Vec(); left = Vec();
}

template<class M> void add(std::vector<mc::Scenario>& v, const char* name, bool th, bool wide) {
   std::string n = name;
   std::vector<int> all, core{PUSH, POPV, TOP, PEEK2, DISCARD, SIZE, STATS}, few{PUSH, POPV, TOP, PEEK, SIZE};
   for (int i = 0; i < NOPS; ++i) all.push_back(i);
   auto sc = [&](const char* what, std::vector<int> ops, std::vector<int> shape, int ps, int pre, double cap, const char* text) {
      v.push_back({n + "-" + what, [=]() { linearizable<M>(ops, shape, ps, pre); }, false, cap,
         S("%s, page sizes 1..%d, %s preemptions", text, ps, pre > 50 ? "unbounded" : std::to_string(pre).c_str())});
   };
   sc("1+1", all, {1, 1}, 3, 99, 100, "2 threads x 1 call, every pair of 23 calls");
   if (wide || th) sc("2+2", core, {2, 2}, 2, th ? 3 : 2, 200, "2 threads x 2 calls, every program of 7 calls");
   if (wide || th) sc("1+1+1", th ? all : core, {1, 1, 1}, 2, th ? 3 : 2, 200, th ? "3 threads x 1 call, every program of 23 calls" : "3 threads x 1 call, every program of 7 calls");
   if (!wide && !th) sc("2+1", few, {2, 1}, 2, 3, 100, "2 threads, 2 and 1 calls, every program of 5 calls");
   if (th && wide) sc("2+2all", all, {2, 2}, 1, 2, 900, "2 threads x 2 calls, every program of 23 calls");
}
#endif

#if PROP == 5
struct State { Vec v; int pos; };
uint64_t hashState(const State& s) { return mc::hash2(hashVec(s.v), s.pos + 2); }

// One thread uses an iterator, another one changes the stack.
template<class M, bool CONST> void iterators(int preempt, int changes) {
   ts::opt.preempt = preempt; ts::opt.spin = 1;
   using St = Stack<M>;
   size_t ps = 1 + ts::choose(3), pre = 1 + ts::choose(2);
   enum { N = 4 };
   auto st = std::make_unique<St>(ps, pre);
   for (int i = 0; i < N; ++i) st->push(i + 1);
   Lin<State>* lin; State init{{}, N - 1};
   { ts::Quiet q; lin = new Lin<State>; for (int i = 0; i < N; ++i) init.v.push_back(i + 1); }
   // what the changing thread does: at least 2 elements stay, or all go
   static const char* const cn[] = {"pop", "discard(2)", "push", "shrink_to_fit", "clear", "top="};
   std::vector<int> prog; int size = N; bool cleared = false;
   for (int i = 0; i < changes; ++i) {
      int c = ts::choose(6);
      if (cleared) break;
      if (c == 0 && --size < 2) return;
      if (c == 1 && (size -= 2) < 2) return;
      if (c == 2) ++size;
      if (c == 4) cleared = true;
      prog.push_back(c);
   }
   using It = std::conditional_t<CONST, typename St::const_sync_iterator, typename St::sync_iterator>;
   const St& cst = *st;
   auto begin = [&]() -> It { if constexpr (CONST) return cst.sync_begin(); else return st->sync_begin(); };
   std::thread changer([&]() {
      int val = 100;
      for (int c : prog) {
         ts::point();
         size_t id; { ts::Quiet q; id = lin->call(cn[c]); }
         switch (c) {
         case 0: st->pop(); break;
         case 1: st->discard(2); break;
         case 2: st->push(val); break;
         case 3: st->shrink_to_fit(); break;
         case 4: st->clear(); break;
         case 5: st->top(val); break;
         }
         ts::Quiet q;
         lin->ret(id, "", [c, val](State& s) {
            switch (c) {
            case 0: s.v.pop_back(); break;
            case 1: s.v.resize(s.v.size() - 2); break;
            case 2: s.v.push_back(val); break;
            case 4: s.v.clear(); break;
            case 5: s.v.back() = val; break;
            }
            return true; });
         ++val;
      }
   });
   {
      size_t id; { ts::Quiet q; id = lin->call("sync_begin"); }
      // (on an emptied stack the position is not defined)
      It it0 = begin();
      { ts::Quiet q; lin->ret(id, "", [](State& s) { s.pos = (int)s.v.size() - 1; if (s.pos < 0) s.pos = 0; return true; }); }
      It it(it0);
      auto get = [&]() {
         ts::point();
         size_t id; { ts::Quiet q; id = lin->call("get"); }
         int v = -1; bool thrown = false;
         try { it.get(v); } catch (std::runtime_error&) { thrown = true; }
         ts::Quiet q;
         lin->ret(id, thrown ? " throws" : S(" = %d", v), [v, thrown](State& s) {
            if (s.pos >= (int)s.v.size()) { if (s.v.empty()) return thrown; s.pos = (int)s.v.size() - 1; }
            return !thrown && s.v[s.pos] == v; });
      };
      auto step = [&]() {
         ts::point();
         size_t id; { ts::Quiet q; id = lin->call("++"); }
         bool thrown = false;
         try { ++it; } catch (std::runtime_error&) { thrown = true; }
         ts::Quiet q;
         lin->ret(id, thrown ? " throws" : "", [thrown](State& s) {
            if (s.pos >= (int)s.v.size()) { if (s.v.empty()) return thrown; s.pos = (int)s.v.size() - 1; return !thrown; }
            --s.pos;
            return !thrown; });
      };
      if (!cleared || true) { get(); step(); get(); }
   }
   changer.join();
   ts::opt.preempt = 0;
   size_t b, d, cb, cd;
   st->getStats(b, d, cb, cd);
   bool shrinks = !prog.empty() && prog.back() == 3;
   if (shrinks) MC_CHECK(b == cb, "the shrink put off by the iterators never took place: %zu pages with %zu in use", b, cb);
   Vec left;
   while (!st->empty()) { int v; st->pop(v); ts::Quiet q; left.push_back(v); }
   ts::Quiet q;
   std::reverse(left.begin(), left.end());
   size_t id = lin->call("contents"); lin->ret(id, " = " + str(left), [left](State& s) { return s.v == left; });
   if (mc::noting()) mc::note("page size %zu, initially %s\n%s", ps, str(init.v).c_str(), lin->text().c_str());
   MC_CHECK(lin->check(init, hashState), "no sequential order of these calls gives these results (page size %zu, initially %s):\n%s", ps, str(init.v).c_str(), lin->text().c_str());
   mc::outcome(lin->outcome());
   delete lin;
   init.v = Vec(); left = Vec();
}
#endif
}

static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
#if PROP == 7
   add<std::mutex>(v, "mutex", th, true);
   add<falcon::Futex<1>>(v, "Futex1", th, false);
   add<falcon::Futex<0>>(v, "Futex0", th, false);
#elif PROP == 5
   v.push_back({"conc-mutable", [=]() { iterators<std::mutex, false>(th ? 4 : 2, th ? 3 : 2); }, false, 200, S("a thread using a synchronised iterator (and a copy) against a thread making any %d changes, page sizes 1..3, %d preemptions", th ? 3 : 2, th ? 4 : 2)});
   v.push_back({"conc-const", [=]() { iterators<std::mutex, true>(th ? 3 : 2, th ? 3 : 2); }, false, 200, S("the same with a const iterator, %d preemptions", th ? 3 : 2)});
#endif
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
