// PagedStack, sequential properties C01-C06 and C08: every operation sequence up to a
// depth, on the real class, compared step by step with a std::vector.
#include "seqrt.h"
#include <falcon/engine/pagedstack.h>
#include <memory>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>

using seq::Elem;
using Stack = falcon::PagedStack<Elem>;
using mc::choose;
using Model = std::vector<int>;

namespace {

int g_next = 0;                 // next fresh value
std::string str(const Model& m) { std::string s = "["; for (int v : m) s += std::to_string(v) + " "; return s + "]"; }

struct Pair {
   std::unique_ptr<Stack> st;
   Model m;
   size_t ps = 0, pre = 0;
};

uint64_t layoutHash(const Stack& st, const Model& m, uint64_t seed) {
   size_t b, d, cb, cd; st.getStats(b, d, cb, cd);
   uint64_t h = mc::hash2(seed, b * 1000 + cb);
   h = mc::hash2(h, cd * 1000 + m.size());
   return mc::hash2(h, d * 100 + (Elem::live - (long)m.size()));
}

void make(Pair& p, int maxPs, int maxPre) {
   p.ps = 1 + choose(maxPs);
   p.pre = 1 + choose(maxPre);
   p.st.reset(new Stack(p.ps, p.pre));
   mc::note("PagedStack(pageSize=%zu, prealloc=%zu)\n", p.ps, p.pre);
}

// ---- cheap observations ------------------------------------------------------
void checkBasic(Pair& p, const char* op) {
   const Stack& c = *p.st;
   MC_CHECK(c.size() == p.m.size(), "after %s: size() is %zu, %zu values expected %s", op, c.size(), p.m.size(), str(p.m).c_str());
   MC_CHECK(c.empty() == p.m.empty(), "after %s: empty() is %d with %zu values", op, c.empty(), p.m.size());
   if (!p.m.empty()) MC_CHECK(c.top().get() == p.m.back(), "after %s: top() is %d instead of %d", op, c.top().get(), p.m.back());
}
void checkLive(Pair& p, const char* op) {
   MC_CHECK(Elem::live == (long)p.m.size(), "after %s: %ld live elements for %zu values", op, Elem::live, p.m.size());
}
// ---- contents, destructively ---------------------------------------------------
void drain(Pair& p) {
   while (!p.m.empty()) {
      MC_CHECK(!p.st->empty(), "empty() with %zu values left", p.m.size());
      Elem e;
      p.st->pop(e);
      MC_CHECK(e.get() == p.m.back(), "popping everything: got %d, expected %d (left %s)", e.get(), p.m.back(), str(p.m).c_str());
      p.m.pop_back();
   }
   MC_CHECK(p.st->empty() && p.st->size() == 0, "not empty after popping everything: size %zu", p.st->size());
}
// ---- contents, by traversal -----------------------------------------------------
template<typename S> void checkForward(S& s, const Model& m, const char* what) {
   size_t k = 0, n = m.size();
   auto it = s.begin(); auto e = s.end();
   for (; it != e; ++it, ++k) {
      MC_CHECK(k < n, "%s: forward traversal goes on after %zu values", what, n);
      MC_CHECK((*it).get() == m[n - 1 - k], "%s: forward traversal: %d at %zu instead of %d", what, (*it).get(), k, m[n - 1 - k]);
      MC_CHECK(it->get() == m[n - 1 - k], "%s: forward operator->", what);
   }
   MC_CHECK(k == n, "%s: forward traversal stops after %zu of %zu values", what, k, n);
   MC_CHECK(it == s.end(), "%s: end() does not compare equal", what);
   // and back
   for (k = 0; k < n; ++k) { --it; MC_CHECK((*it).get() == m[k], "%s: stepping back: %d instead of %d", what, (*it).get(), m[k]); }
   MC_CHECK(it == s.begin(), "%s: stepping back does not reach begin()", what);
}
template<typename S> void checkReverse(S& s, const Model& m, const char* what) {
   size_t k = 0, n = m.size();
   auto it = s.rbegin(); auto e = s.rend();
   for (; it != e; ++it, ++k) {
      MC_CHECK(k < n, "%s: reverse traversal goes on after %zu values", what, n);
      MC_CHECK((*it).get() == m[k], "%s: reverse traversal: %d at %zu instead of %d", what, (*it).get(), k, m[k]);
      MC_CHECK(it->get() == m[k], "%s: reverse operator->", what);
   }
   MC_CHECK(k == n, "%s: reverse traversal stops after %zu of %zu values", what, k, n);
   for (k = n; k > 0; --k) { --it; MC_CHECK((*it).get() == m[k - 1], "%s: reverse stepping back: %d instead of %d", what, (*it).get(), m[k - 1]); }
   MC_CHECK(it == s.rbegin(), "%s: reverse stepping back does not reach rbegin()", what);
}
template<typename S> void checkFromTop(S& s, const Model& m, const char* what) {
   size_t n = m.size();
   for (size_t d = 0; d <= n; ++d) {
      auto it = s.from_top(d); size_t k = n - d;
      for (; it != s.rend(); ++it, ++k) {
         MC_CHECK(k < n, "%s: from_top(%zu) goes past the top", what, d);
         MC_CHECK((*it).get() == m[k], "%s: from_top(%zu): %d instead of %d", what, d, (*it).get(), m[k]);
      }
      MC_CHECK(k == n, "%s: from_top(%zu) reaches the top after %zu steps", what, d, k - (n - d));
      // walk down to the bottom
      if (d > 0) {
         auto dn = s.from_top(d);
         for (k = n - d; k > 0; --k) { --dn; MC_CHECK((*dn).get() == m[k - 1], "%s: from_top(%zu) backwards", what, d); }
         MC_CHECK(dn == s.rbegin(), "%s: from_top(%zu) backwards does not reach the bottom", what, d);
      }
   }
}
// all jumps between positions 0..n (n = end)
template<typename It> void checkJumps(It first, const Model& order, const char* what) {
   size_t n = order.size();
   for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j) {
      It it = first; it += i;
      if (i < n) MC_CHECK((*it).get() == order[i], "%s: += %zu gives %d instead of %d", what, i, (*it).get(), order[i]);
      if (j >= i) it += j - i; else it -= i - j;
      It ref = first; for (size_t k = 0; k < j; ++k) ++ref;
      MC_CHECK(it == ref && !(it != ref), "%s: jump from %zu to %zu", what, i, j);
      if (j < n) MC_CHECK((*it).get() == order[j], "%s: jump from %zu to %zu gives %d instead of %d", what, i, j, (*it).get(), order[j]);
      if (j < n) { It old = it++; MC_CHECK(old == ref, "%s: postfix ++ does not return the old position", what); ++ref; MC_CHECK(it == ref, "%s: postfix ++", what);
                   old = it--; MC_CHECK(old == ref, "%s: postfix -- does not return the old position", what); --ref; MC_CHECK(it == ref, "%s: postfix --", what); }
   }
}
void checkTraversals(Pair& p, bool full) {
   Stack& s = *p.st; const Stack& c = s;
   checkForward(s, p.m, "iterator"); checkForward(c, p.m, "const_iterator");
   checkReverse(s, p.m, "reverse_iterator"); checkReverse(c, p.m, "const_reverse_iterator");
   checkFromTop(s, p.m, "reverse_iterator"); checkFromTop(c, p.m, "const_reverse_iterator");
   MC_CHECK(c.cbegin() == c.begin() && c.cend() == c.end() && c.crbegin() == c.rbegin() && c.crend() == c.rend(), "cbegin/cend/crbegin/crend differ");
   if (!full) return;
   Model down(p.m.rbegin(), p.m.rend());
   checkJumps(s.begin(), down, "iterator"); checkJumps(c.begin(), down, "const_iterator");
   checkJumps(s.rbegin(), p.m, "reverse_iterator"); checkJumps(c.rbegin(), p.m, "const_reverse_iterator");
   // writing through
   size_t n = p.m.size(), k = 0;
   for (auto it = s.begin(); it != s.end() && k < n; ++it, ++k) { *it = Elem(1000 + (int)k); p.m[n - 1 - k] = 1000 + (int)k; }
   checkForward(c, p.m, "after writing through iterator");
   k = 0;
   for (auto it = s.rbegin(); it != s.rend() && k < n; ++it, ++k) { (*it).v = 2000 + (int)k; p.m[k] = 2000 + (int)k; }
   checkReverse(c, p.m, "after writing through reverse_iterator");
}

// ---- operations -------------------------------------------------------------------
enum Op { PUSH, PUSH2, PUSH3, EMPLACE, POP, POPV, POPV2, POPV3, TOPSET, CLEAR, SHRINK, DISCARD_N, DISCARD_IT, DISCARD_CIT, DISCARD_RIT, DISCARD_CRIT, POPREV, NOPS };
const char* names[] = {"push", "push2", "push3", "push_emplace", "pop()", "pop(x)", "pop(x,y)", "pop(x,y,z)", "top(v)", "clear", "shrink_to_fit", "discard(n)", "discard(iterator)", "discard(const_iterator)", "discard(reverse_iterator)", "discard(const_reverse_iterator)", "pop_reverse"};

bool enabled(int op, const Pair& p) {
   size_t n = p.m.size();
   switch (op) {
   case POP: case POPV: case TOPSET: return n >= 1;
   case POPV2: return n >= 2;
   case POPV3: return n >= 3;
   case DISCARD_IT: case DISCARD_CIT: case DISCARD_RIT: case DISCARD_CRIT: case POPREV: return n >= 1;
   default: return true;
   }
}

void doPopRev(Pair& p, int k) {
   Model& m = p.m; size_t n = m.size();
   std::vector<Elem> e(4);
   switch (k) {
   case 1: p.st->pop_reverse(e[0]); break;
   case 2: p.st->pop_reverse(e[0], e[1]); break;
   case 3: p.st->pop_reverse(e[0], e[1], e[2]); break;
   case 4: p.st->pop_reverse(e[0], e[1], e[2], e[3]); break;
   }
   for (int i = 0; i < k; ++i) MC_CHECK(e[i].get() == m[n - k + i], "pop_reverse of %d: parameter %d is %d instead of %d", k, i, e[i].get(), m[n - k + i]);
   m.resize(n - k);
}

void apply(Pair& p, int op) {
   Stack& s = *p.st; Model& m = p.m; size_t n = m.size();
   switch (op) {
   case PUSH: { int a = g_next++; s.push(Elem(a)); m.push_back(a); break; }
   case PUSH2: { int a = g_next++, b = g_next++; s.push(Elem(a), Elem(b)); m.push_back(a); m.push_back(b); break; }
   case PUSH3: { int a = g_next++, b = g_next++, c = g_next++; s.push(Elem(a), Elem(b), Elem(c)); m.push_back(a); m.push_back(b); m.push_back(c); break; }
   case EMPLACE: { int a = g_next++; s.push_emplace(a / 16, a % 16); m.push_back(a); break; }
   case POP: s.pop(); m.pop_back(); break;
   case POPV: { Elem x; s.pop(x); MC_CHECK(x.get() == m[n - 1], "pop(x) gives %d instead of %d", x.get(), m[n - 1]); m.resize(n - 1); break; }
   case POPV2: { Elem x, y; s.pop(x, y); MC_CHECK(x.get() == m[n - 1] && y.get() == m[n - 2], "pop(x,y) gives %d,%d from %s", x.get(), y.get(), str(m).c_str()); m.resize(n - 2); break; }
   case POPV3: { Elem x, y, z; s.pop(x, y, z); MC_CHECK(x.get() == m[n - 1] && y.get() == m[n - 2] && z.get() == m[n - 3], "pop(x,y,z) gives %d,%d,%d from %s", x.get(), y.get(), z.get(), str(m).c_str()); m.resize(n - 3); break; }
   case TOPSET: { int a = g_next++; s.top(Elem(a)); m.back() = a; break; }
   case CLEAR: s.clear(); m.clear(); break;
   case SHRINK: s.shrink_to_fit(); break;
   case DISCARD_N: { int k = choose((int)n + 1); mc::note("(%d) ", k); s.discard((size_t)k); m.resize(n - k); break; }
   case DISCARD_IT: { int k = choose((int)n); mc::note("(%d) ", k); auto it = s.begin(); it += k; s.discard(it); m.resize(n - 1 - k); break; }
   case DISCARD_CIT: { int k = choose((int)n); mc::note("(%d) ", k); auto it = s.cbegin(); it += k; s.discard(it); m.resize(n - 1 - k); break; }
   case DISCARD_RIT: { int k = choose((int)n); mc::note("(%d) ", k); auto it = s.rbegin(); it += k; s.discard(it); m.resize(k); break; }
   case DISCARD_CRIT: { int k = choose((int)n); mc::note("(%d) ", k); auto it = ((const Stack&)s).from_top(n - k); s.discard(it); m.resize(k); break; }
   case POPREV: { int k = 1 + choose((int)std::min<size_t>(n, 4)); mc::note("(%d) ", k); doPopRev(p, k); break; }
   }
}

int pick(Pair& p, std::initializer_list<int> ops) {
   int cand[NOPS], k = 0;
   for (int o : ops) if (enabled(o, p)) cand[k++] = o;
   return cand[choose(k)];
}

void step(Pair& p, std::initializer_list<int> ops, int d) {
   int op = pick(p, ops);
   mc::note("%s; ", names[op]);
   apply(p, op);
   mc::transition();
   mc::state(layoutHash(*p.st, p.m, p.ps * 10 + p.pre));
   checkBasic(p, names[op]);
   (void)d;
}

struct Balance {                   // everything allocated in the scope is released
   long before;
   Balance() { Elem::reset(); g_next = 0; before = seq::live(); }
   void done(const char* what) {
      MC_CHECK(Elem::live == 0, "%s: %ld elements never destroyed", what, Elem::live);
      MC_CHECK(seq::live() == before, "%s: %ld blocks of memory not released", what, seq::live() - before);
   }
};

// fill to a height h with page size ps, with `extra` values pushed and popped again, maybe shrunk
void build(Pair& p, int maxPs, int maxPre, int maxH, int maxExtra) {
   make(p, maxPs, maxPre);
   int h = choose(maxH + 1), extra = choose(maxExtra + 1);
   for (int i = 0; i < h + extra; ++i) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); }
   for (int i = 0; i < extra; ++i) { p.st->pop(); p.m.pop_back(); }
   bool sh = extra && choose(2);
   if (sh) p.st->shrink_to_fit();
   mc::note("height %d after %d extra%s; ", h, extra, sh ? ", shrunk" : "");
   mc::state(layoutHash(*p.st, p.m, p.ps * 10 + p.pre));
}

// ============================ C01 =============================================
void c01(int depth, int maxPs, int maxPre) {
   Balance b;
   {
      Pair p; make(p, maxPs, maxPre);
      static constexpr std::initializer_list<int> ops{PUSH, PUSH2, PUSH3, EMPLACE, POP, POPV, POPV2, POPV3, TOPSET, CLEAR, SHRINK};
      for (int i = 0; i < depth; ++i) step(p, ops, i);
      drain(p);
      mc::outcome(layoutHash(*p.st, p.m, p.ps));
      mc::note("\n");
   }
   b.done("C01");
}
// long histories made of page-sized moves
void c01macro(int depth, size_t ps, size_t pre) {
   Balance b;
   {
      Pair p; p.ps = ps; p.pre = pre; p.st.reset(pre ? new Stack(ps, pre) : new Stack());
      size_t page = ps; if (!pre) { p.ps = page = Stack::DEFAULT_PAGE_SIZE; p.st.reset(new Stack()); }
      mc::note("page %zu: ", page);
      for (int i = 0; i < depth; ++i) {
         int op = choose(9); size_t n = p.m.size(), k = 0;
         auto push = [&](size_t c) { for (size_t j = 0; j < c; ++j) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); } };
         auto pop = [&](size_t c) { c = std::min(c, n); for (size_t j = 0; j < c; ++j) { Elem x; p.st->pop(x); MC_CHECK(x.get() == p.m.back(), "pop gives %d instead of %d", x.get(), p.m.back()); p.m.pop_back(); } };
         switch (op) {
         case 0: push(1); break;
         case 1: push(page); break;
         case 2: push(page - 1); break;
         case 3: push(page * 4 + 1); break;
         case 4: pop(1); break;
         case 5: pop(page); break;
         case 6: pop(page * 3 + 1); break;
         case 7: p.st->shrink_to_fit(); break;
         case 8: p.st->clear(); p.m.clear(); break;
         }
         (void)k;
         mc::note("%d ", op);
         mc::transition(); mc::state(layoutHash(*p.st, p.m, page));
         checkBasic(p, "macro step");
      }
      drain(p);
      mc::note("\n");
   }
   b.done("C01");
}
// up, down, something, up again, down to empty, up once more
void c01ramps(int maxPs, int maxPre, int maxH) {
   Balance b;
   {
      Pair p; make(p, maxPs, maxPre);
      auto up = [&](int c) { for (int i = 0; i < c; ++i) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); checkBasic(p, "push"); mc::state(layoutHash(*p.st, p.m, p.ps * 10 + p.pre)); } mc::transition(c); };
      auto down = [&](int c) { for (int i = 0; i < c; ++i) { Elem x; p.st->pop(x); MC_CHECK(x.get() == p.m.back(), "pop gives %d instead of %d", x.get(), p.m.back()); p.m.pop_back(); checkBasic(p, "pop"); } mc::transition(c); };
      int a = choose(maxH + 1); up(a);
      int d = choose(a + 1); down(d);
      int what = choose(4);
      if (what == 1) p.st->shrink_to_fit();
      if (what == 2) { p.st->clear(); p.m.clear(); }
      if (what == 3) { p.st->clear(); p.m.clear(); p.st->shrink_to_fit(); }
      checkBasic(p, "middle");
      int c = choose(maxH / 2 + 1); up(c);
      mc::note("up %d, down %d, %s, up %d\n", a, d, what == 0 ? "-" : what == 1 ? "shrink" : what == 2 ? "clear" : "clear and shrink", c);
      drain(p);
      up(2 * (int)p.ps + 1);
      drain(p);
   }
   b.done("C01");
}
// ============================ C02 =============================================
void c02(int depth, int maxPs, int maxPre) {
   Balance b;
   {
      Pair p; make(p, maxPs, maxPre);
      static constexpr std::initializer_list<int> ops{PUSH, PUSH3, EMPLACE, POP, POPV2, CLEAR, SHRINK, DISCARD_N};
      for (int i = 0; i < depth; ++i) step(p, ops, i);
      checkTraversals(p, true);
      mc::note("traversed %zu values\n", p.m.size());
   }
   b.done("C02");
}
void c02tall(int maxPs, int maxPre, int maxH, int maxExtra) {
   Balance b;
   {
      Pair p; build(p, maxPs, maxPre, maxH, maxExtra);
      mc::transition();
      checkTraversals(p, true);
      mc::note("traversed\n");
   }
   b.done("C02");
}
// ============================ C03 =============================================
void multi(Pair& p) {
   Model& m = p.m; size_t n = m.size(); const Stack& c = *p.st;
   int kind = choose(5), maxA = (int)std::min<size_t>(n, 5);
   if (!maxA) return;
   int a = 1 + choose(maxA);
   std::vector<Elem> e(5);
   size_t depth = a;
   mc::transition();
   auto expectDown = [&](const char* w) { for (int i = 0; i < a; ++i) MC_CHECK(e[i].get() == m[n - 1 - i], "%s of %d: parameter %d is %d instead of %d", w, a, i, e[i].get(), m[n - 1 - i]); };
   auto expectUp = [&](const char* w) { for (int i = 0; i < a; ++i) MC_CHECK(e[i].get() == m[n - depth + i], "%s of %d at depth %zu: parameter %d is %d instead of %d", w, a, depth, i, e[i].get(), m[n - depth + i]); };
#define CALL(F, ...) switch (a) { \
   case 1: F(__VA_ARGS__ e[0]); break; case 2: F(__VA_ARGS__ e[0], e[1]); break; \
   case 3: F(__VA_ARGS__ e[0], e[1], e[2]); break; case 4: F(__VA_ARGS__ e[0], e[1], e[2], e[3]); break; \
   case 5: F(__VA_ARGS__ e[0], e[1], e[2], e[3], e[4]); break; }
#define COMMA ,
   switch (kind) {
   case 0: mc::note("peek/%d; ", a); CALL(c.peek); expectDown("peek"); break;
   case 1: mc::note("peek_reverse/%d; ", a); CALL(c.peek_reverse); expectUp("peek_reverse"); break;
   case 2: depth = a + choose((int)n - a + 1); mc::note("peek_depth(%zu)/%d; ", depth, a); CALL(c.peek_depth, depth COMMA); expectUp("peek_depth"); break;
   case 3: mc::note("pop/%d; ", a); CALL(p.st->pop); expectDown("pop"); m.resize(n - a); break;
   case 4: mc::note("pop_reverse/%d; ", a); CALL(p.st->pop_reverse); expectUp("pop_reverse"); m.resize(n - a); break;
   }
   checkBasic(p, "multi-value operation");
}
void c03(int maxPs, int maxPre, int maxH, int maxExtra, int nops) {
   Balance b;
   {
      Pair p; build(p, maxPs, maxPre, maxH, maxExtra);
      for (int i = 0; i < nops; ++i) {
         multi(p);
         mc::state(layoutHash(*p.st, p.m, p.ps * 10 + p.pre));
         if (i + 1 < nops && choose(2)) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); mc::note("push; "); }
      }
      drain(p);
      mc::note("\n");
   }
   b.done("C03");
}
// ============================ C04 =============================================
void c04(int maxPs, int maxPre, int maxH, int maxExtra, int depth) {
   Balance b;
   {
      Pair p; build(p, maxPs, maxPre, maxH, maxExtra);
      static constexpr std::initializer_list<int> disc{DISCARD_N, DISCARD_IT, DISCARD_CIT, DISCARD_RIT, DISCARD_CRIT, CLEAR, POPREV};
      static constexpr std::initializer_list<int> cont{PUSH, PUSH2, PUSH3, POP, SHRINK, DISCARD_N, DISCARD_IT, DISCARD_RIT, CLEAR};
      step(p, disc, 0);
      checkLive(p, "discard");
      checkForward(*p.st, p.m, "after discard"); checkReverse(*p.st, p.m, "after discard");
      for (int i = 0; i < depth; ++i) {
         step(p, cont, i);
         checkLive(p, "continuation");
      }
      checkForward(*p.st, p.m, "at end"); checkReverse(*p.st, p.m, "at end");
      if (p.m.size() >= 2) {
         Elem x, y; p.st->peek(x, y); MC_CHECK(x.get() == p.m[p.m.size() - 1] && y.get() == p.m[p.m.size() - 2], "peek after discard");
      }
      drain(p);
      mc::note("\n");
   }
   b.done("C04");
}
// ============================ C05 =============================================
// positions: index from the bottom; -1 is the end
template<typename It> struct Slot { std::unique_ptr<It> it; long pos = 0; };
template<typename It> struct Maker;
template<> struct Maker<Stack::sync_iterator> { static Stack::sync_iterator make(Stack& s) { return s.sync_begin(); } static Stack::sync_iterator end(Stack& s) { return s.sync_end(); } };
template<> struct Maker<Stack::const_sync_iterator> { static Stack::const_sync_iterator make(Stack& s) { return ((const Stack&)s).sync_begin(); } static Stack::const_sync_iterator end(Stack& s) { return s.csync_end(); } };

template<typename It>
void c05(int maxPs, int maxPre, int maxH, int depth, int nslots, bool whole = false) {
   Balance b;
   {
      Pair p; make(p, maxPs, maxPre);
      int h = choose(maxH + 1);
      for (int i = 0; i < h; ++i) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); }
      mc::note("height %d; ", h);
      std::vector<Slot<It>> sl(nslots);
      const long GONE = 1L << 40;      // the position went away with the whole content
      Stack away(2, 1); Model awayM;   // takes and gives whole contents
      if (whole) { int k = choose(2) * 3; for (int i = 0; i < k; ++i) { away.push(Elem(800 + i)); awayM.push_back(800 + i); } mc::note("the other one holds %d; ", k); }
      auto gone = [&] { for (auto& s : sl) if (s.it && s.pos >= 0) s.pos = GONE; };
      auto readBack = [](const Stack& c, Model& m) { m.clear(); for (auto it = c.rbegin(); it != c.rend(); ++it) m.push_back((*it).get()); };
      bool shrinkPending = false;
      size_t blocks, dd, cb, cd;
      auto live = [&] { int k = 0; for (auto& s : sl) k += !!s.it; return k; };
      auto stats = [&] { p.st->getStats(blocks, dd, cb, cd); };
      auto create = [&](int i) { sl[i].it.reset(new It(Maker<It>::make(*p.st))); sl[i].pos = (long)p.m.size() - 1; };
      if (depth > 0) { create(0); mc::note("create0; "); }
      for (int d = 0; d < depth; ++d) {
         // list the possible actions
         struct Act { int kind, a, b; }; std::vector<Act> acts;
         if (whole) {
            for (int o : {PUSH3, POP, DISCARD_N, DISCARD_IT, DISCARD_RIT}) if (enabled(o, p)) acts.push_back({0, o, 0});
            for (int o = 8; o <= 11; ++o) acts.push_back({o, 0, 0});
         }
         else for (int o : {PUSH, PUSH3, POP, POPV2, CLEAR, SHRINK}) if (enabled(o, p)) acts.push_back({0, o, 0});
         for (int i = 0; i < nslots; ++i) {
            auto& s = sl[i];
            if (!s.it) { if (i == 0 || sl[i - 1].it || i == nslots - 1) acts.push_back({1, i, 0}); for (int j = 0; j < nslots; ++j) if (sl[j].it) acts.push_back({2, i, j}); }
            else {
               acts.push_back({3, i, 0});
               if (s.pos >= 0) { acts.push_back({4, i, 0}); acts.push_back({5, i, 0}); long n = (long)p.m.size(); if (s.pos >= n || s.pos + 1 < n) acts.push_back({6, i, 0}); }
               for (int j = 0; j < nslots; ++j) if (j != i && sl[j].it) acts.push_back({7, i, j});
            }
         }
         stats(); size_t blocksBefore = blocks;
         Act a = acts[choose((int)acts.size())];
         long n = (long)p.m.size(); bool threw = false;
         bool wasLive = live() > 0;
         switch (a.kind) {
         case 0: mc::note("%s; ", names[a.a]); apply(p, a.a); if (a.a == SHRINK && wasLive) shrinkPending = true; break;
         case 1: mc::note("create%d; ", a.a); create(a.a); break;
         case 2: mc::note("copy %d from %d; ", a.a, a.b); sl[a.a].it.reset(new It(*sl[a.b].it)); sl[a.a].pos = sl[a.b].pos; break;
         case 3: mc::note("destroy%d; ", a.a); sl[a.a].it.reset(); break;
         case 4: {
            mc::note("get%d; ", a.a);
            Elem e;
            try { sl[a.a].it->get(e); } catch (std::runtime_error&) { threw = true; }
            if (n == 0) { MC_CHECK(threw, "get() on an empty stack does not throw"); break; }
            MC_CHECK(!threw, "get() throws on a stack of %ld values", n);
            if (sl[a.a].pos >= n) sl[a.a].pos = n - 1;
            MC_CHECK(e.get() == p.m[sl[a.a].pos], "get() gives %d instead of %d (position %ld of %ld)", e.get(), p.m[sl[a.a].pos], sl[a.a].pos, n);
            break; }
         case 5: case 6: {
            mc::note("%s%d; ", a.kind == 5 ? "++" : "--", a.a);
            try { if (a.kind == 5) ++*sl[a.a].it; else --*sl[a.a].it; } catch (std::runtime_error&) { threw = true; }
            if (n == 0) { MC_CHECK(threw, "stepping on an empty stack does not throw"); break; }
            MC_CHECK(!threw, "stepping throws on a stack of %ld values", n);
            if (sl[a.a].pos >= n) sl[a.a].pos = n - 1;
            else sl[a.a].pos += a.kind == 5 ? -1 : 1;
            // where is it?
            { It e = Maker<It>::end(*p.st); bool atEnd = *sl[a.a].it == e; MC_CHECK(atEnd == (sl[a.a].pos == -1), "after stepping to position %ld, comparison with the end gives %d", sl[a.a].pos, atEnd); }
            if (sl[a.a].pos >= 0) { Elem v; sl[a.a].it->get(v); MC_CHECK(v.get() == p.m[sl[a.a].pos], "after stepping: %d instead of %d", v.get(), p.m[sl[a.a].pos]); }
            break; }
         case 8: mc::note("move away; "); away = std::move(*p.st); awayM = p.m; readBack(*p.st, p.m); gone(); break;
         case 9: mc::note("take from the other; "); *p.st = std::move(away); p.m = awayM; readBack(away, awayM); gone(); break;
         case 10: mc::note("swap; "); std::swap(*p.st, away); p.m.swap(awayM); gone(); break;
         case 11: mc::note("copy the other; "); *p.st = away; p.m = awayM; break;
         case 7: mc::note("assign %d from %d; ", a.a, a.b); *sl[a.a].it = *sl[a.b].it; sl[a.a].pos = sl[a.b].pos; MC_CHECK(*sl[a.a].it == *sl[a.b].it, "assigned iterators differ"); break;
         }
         stats();
         if (a.kind == 0 && a.a == SHRINK && !wasLive) MC_CHECK(blocks == cb, "shrink_to_fit() without iterators leaves %zu blocks, %zu in use", blocks, cb);
         if (wasLive && live() && a.kind < 8) MC_CHECK(blocks >= blocksBefore, "memory shrunk (%zu to %zu blocks) while an iterator exists", blocksBefore, blocks);
         if (wasLive && !live()) {
            if (shrinkPending) MC_CHECK(blocks == cb, "delayed shrink not performed: %zu blocks, %zu in use", blocks, cb);
            else MC_CHECK(blocks == blocksBefore, "memory shrunk without being requested (%zu to %zu blocks)", blocksBefore, blocks);
            shrinkPending = false;
         }
         mc::transition();
         uint64_t hs = layoutHash(*p.st, p.m, p.ps * 10 + p.pre);
         for (auto& s : sl) hs = mc::hash2(hs, s.it ? s.pos + 2 : 0);
         mc::state(mc::hash2(hs, shrinkPending));
         checkBasic(p, "step");
      }
      // surviving iterators still work and a traversal by a sync iterator sees everything
      for (auto& s : sl) if (s.it && s.pos >= 0 && !p.m.empty()) { Elem e; s.it->get(e); }
      { long k = (long)p.m.size() - 1; It it = Maker<It>::make(*p.st);
        while (it != Maker<It>::end(*p.st)) { MC_CHECK(k >= 0, "sync traversal does not end"); Elem e; it.get(e); MC_CHECK(e.get() == p.m[k], "sync traversal: %d instead of %d", e.get(), p.m[k]); --k; ++it; }
        MC_CHECK(k == -1, "sync traversal ends early, %ld left", k + 1); }
      for (auto& s : sl) s.it.reset();
      drain(p);
      { Model m; readBack(away, m); MC_CHECK(m == awayM, "the other stack holds %s instead of %s", str(m).c_str(), str(awayM).c_str()); }
      mc::note("\n");
   }
   b.done("C05");
}
// ============================ C06 =============================================
void c06(int maxPs, int maxPre, int maxH, int depth, bool allocFaults) {
   Balance b;
   {
      Pair p; build(p, maxPs, maxPre, maxH, 2);
      checkLive(p, "building");
      bool fired = false;
      for (int d = 0; d < depth; ++d) {
         static constexpr std::initializer_list<int> ops{PUSH, PUSH2, PUSH3, EMPLACE, POP, POPV, POPV2, POPREV, CLEAR, DISCARD_N, SHRINK, TOPSET};
         int op = pick(p, ops);
         mc::note("%s", names[op]);
         bool isPush = op <= EMPLACE;
         bool isDelivery = !allocFaults && (op == POPV || op == POPV2 || op == POPREV);
         if (isDelivery && !fired) {
            int nv = op == POPV ? 1 : 2;
            if (op == POPREV && p.m.size() < 2) nv = 1;
            int k = choose(nv + 1);
            Elem got[2];
            bool threw = false;
            Elem::ops = 0; Elem::fired = false; Elem::faultAt = k == nv ? -1 : k;
            try {
               if (op == POPV) p.st->pop(got[0]);
               else if (op == POPV2) p.st->pop(got[0], got[1]);
               else if (nv == 1) p.st->pop_reverse(got[0]);
               else p.st->pop_reverse(got[1], got[0]);
            } catch (Elem::Fault&) { threw = true; }
            bool f = Elem::fired;
            Elem::faultAt = -1;
            MC_CHECK(threw == f, "%s: fault %s, call %s", names[op], f ? "injected" : "not injected", threw ? "threw" : "did not throw");
            size_t now = p.st->size(), was = p.m.size();
            if (threw) {
               fired = true;
               mc::note(" FAULT@%d; ", k);
               MC_CHECK(now <= was && was - now < (size_t)nv, "%s failed: size %zu, was %zu", names[op], now, was);
            }
            else {
               mc::note("; ");
               MC_CHECK(was - now == (size_t)nv, "%s: size %zu, was %zu", names[op], now, was);
            }
            // a value is gone only if it has been delivered
            for (size_t i = 0; i < was - now; ++i) {
               MC_CHECK(got[i].get() == p.m.back(), "%s: the value %d was removed, %d was delivered", names[op], p.m.back(), got[i].get());
               p.m.pop_back();
            }
         }
         else if (op == TOPSET && !fired && !allocFaults && choose(2)) {
            bool threw = false;
            Elem e(4711);
            Elem::ops = 0; Elem::fired = false; Elem::faultAt = 0;
            try { p.st->top(e); } catch (Elem::Fault&) { threw = true; }
            Elem::faultAt = -1;
            MC_CHECK(threw, "top: the fault does not arrive");
            fired = true;
            mc::note(" FAULT; ");
         }
         else if (!isPush || fired) { mc::note("; "); apply(p, op); }
         else {
            int nv = op == PUSH2 ? 2 : op == PUSH3 ? 3 : 1;
            // fault in the k-th element operation / allocation of this call; the last alternative is no fault
            int k = choose((allocFaults ? 6 : nv + 1));
            int vals[3] = {g_next, g_next + 1, g_next + 2}; g_next += nv;
            Model before = p.m;
            bool threw = false;
            Elem e0(vals[0]), e1(vals[1]), e2(vals[2]);
            if (allocFaults) seq::failAlloc(k == 5 ? -1 : k);
            else { Elem::ops = 0; Elem::fired = false; Elem::faultAt = k == nv ? -1 : k; }
            try {
               switch (op) {
               case PUSH: p.st->push(e0); break;
               case PUSH2: p.st->push(e0, e1); break;
               case PUSH3: p.st->push(e0, e1, e2); break;
               case EMPLACE: p.st->push_emplace(vals[0] / 16, vals[0] % 16); break;
               }
            } catch (Elem::Fault&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
            bool f = allocFaults ? seq::allocFaultFired() : Elem::fired;
            Elem::faultAt = -1; seq::failAlloc(-1);
            MC_CHECK(threw == f, "%s: fault %s, call %s", names[op], f ? "injected" : "not injected", threw ? "threw" : "did not throw");
            if (threw) {
               fired = true;
               mc::note(" FAULT@%d; ", k);
               // the leading part actually pushed
               size_t now = p.st->size();
               MC_CHECK(now >= before.size() && now < before.size() + nv, "%s failed: size %zu, was %zu", names[op], now, before.size());
               for (size_t i = before.size(); i < now; ++i) p.m.push_back(vals[i - before.size()]);
            }
            else { mc::note("; "); for (int i = 0; i < nv; ++i) p.m.push_back(vals[i]); }
         }
         mc::transition();
         mc::state(mc::hash2(layoutHash(*p.st, p.m, p.ps * 10 + p.pre), fired));
         checkBasic(p, names[op]);
         checkForward(*p.st, p.m, "after the step");
         checkLive(p, names[op]);
      }
      checkReverse(*p.st, p.m, "at end");
      int how = choose(2);
      if (how == 0) drain(p);
      mc::note("%s\n", how ? "destroy full" : "drain");
   }
   b.done("C06");
}
// memory does not grow with traffic
void c06traffic(int maxPs, int maxPre, int maxK) {
   Balance b;
   {
      Pair p; make(p, maxPs, maxPre);
      int base = choose(maxK + 1), k = 1 + choose(maxK), how = choose(4);
      mc::note("base %d, cycles of %d, removal %d\n", base, k, how);
      for (int i = 0; i < base; ++i) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); }
      long after2 = 0;
      for (int c = 0; c < 6; ++c) {
         for (int i = 0; i < k; ++i) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); }
         switch (how) {
         case 0: for (int i = 0; i < k; ++i) { p.st->pop(); p.m.pop_back(); } break;
         case 1: p.st->discard((size_t)k); p.m.resize(base); break;
         case 2: { auto it = p.st->begin(); it += k - 1; p.st->discard(it); p.m.resize(base); break; }
         case 3: p.st->clear(); p.m.clear(); for (int i = 0; i < base; ++i) { p.st->push(Elem(g_next)); p.m.push_back(g_next++); } break;
         }
         checkBasic(p, "cycle"); checkLive(p, "cycle");
         mc::transition(); mc::state(layoutHash(*p.st, p.m, p.ps * 10 + p.pre));
         if (c == 1) after2 = seq::live();
         if (c > 1) MC_CHECK(seq::live() <= after2, "memory grows with traffic: %ld blocks after cycle %d, %ld after cycle 2", seq::live(), c + 1, after2);
      }
   }
   b.done("C06");
}
// Copies, assignments and moves that fail half way: the source is as it was, the target a usable stack with the
// old values or a leading part of the new ones.
void c06copies(int maxPs, int maxH, int depth, bool allocFaults) {
   Balance b;
   {
      Pair p[2]; build(p[0], maxPs, 2, maxH, 1);
      p[1].ps = 2; p[1].pre = 1;
      int how = choose(5), h2 = how == 0 || how == 2 ? 0 : choose(4), ps2 = how == 4 ? p[0].ps : 2;
      static const char* const hows[] = {"copy-construct", "assign", "move-construct", "move-assign", "assign to the same page size"};
      int faults = allocFaults ? 12 : how == 2 || how == 3 ? 1 : 2 * (int)p[0].m.size() + 1, k = choose(faults + 1);
      mc::note("%s over height %d, fault at %d%s", hows[how], h2, k, k == faults ? " (none)" : "");
      if (how != 0 && how != 2) {
         p[1].st.reset(new Stack(ps2, 1));
         for (int i = 0; i < h2; ++i) { p[1].st->push(Elem(500 + i)); p[1].m.push_back(500 + i); }
      }
      bool threw = false;
      Elem::ops = 0; Elem::fired = false;
      if (k < faults) { if (allocFaults) seq::failAlloc(k); else Elem::faultAt = k; }
      try {
         switch (how) {
         case 0: p[1].st.reset(new Stack(*p[0].st)); break;
         case 1: case 4: *p[1].st = *p[0].st; break;
         case 2: p[1].st.reset(new Stack(std::move(*p[0].st))); break;
         case 3: *p[1].st = std::move(*p[0].st); break;
         }
      } catch (Elem::Fault&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
      bool f = k < faults && (allocFaults ? seq::allocFaultFired() : Elem::fired);
      Elem::faultAt = -1; seq::failAlloc(-1);
      MC_CHECK(threw == f, "%s: fault %s, call %s", hows[how], f ? "injected" : "not injected", threw ? "threw" : "did not throw");
      mc::note(threw ? ", failed; " : "; ");
      if (!threw) { p[1].m = p[0].m; if (how == 2 || how == 3) p[0].m.clear(); }
      else if (how == 0 || how == 2) { MC_CHECK(!p[1].st, "internal"); p[1].st.reset(new Stack(2, 1)); p[1].m.clear(); }
      else {
         const Stack& c = *p[1].st; size_t n = c.size();
         Model now; for (auto it = c.rbegin(); it != c.rend(); ++it) { now.push_back((*it).get()); MC_CHECK(now.size() <= n, "the stack of size %zu iterates further", n); }
         if (now != p[1].m) {
            MC_CHECK(now.size() <= p[0].m.size() && std::equal(now.begin(), now.end(), p[0].m.begin()), "after a failed %s the target holds neither its old values nor a leading part of the new ones", hows[how]);
            p[1].m = now;
         }
      }
      for (int i = 0; i < 2; ++i) { checkBasic(p[i], hows[how]); checkForward(*p[i].st, p[i].m, "after it"); checkReverse(*p[i].st, p[i].m, "after it"); }
      MC_CHECK(Elem::live == (long)(p[0].m.size() + p[1].m.size()), "%ld live elements for %zu + %zu values", Elem::live, p[0].m.size(), p[1].m.size());
      mc::state(mc::hash2(layoutHash(*p[1].st, p[1].m, ps2), how * 100 + k));
      for (int d = 0; d < depth; ++d) {
         int w = choose(2);
         static constexpr std::initializer_list<int> ops{PUSH3, POPV2, CLEAR, SHRINK};
         mc::note("%s.", w ? "target" : "source");
         step(p[w], ops, d);
         for (int i = 0; i < 2; ++i) { checkBasic(p[i], "step"); checkForward(*p[i].st, p[i].m, "after step"); }
      }
      if (choose(2)) drain(p[1]);
      mc::note("\n");
   }
   b.done("C06");
}

// ============================ C08 =============================================
void c08(int maxPs, int maxPre, int maxH, int maxExtra, int depth) {
   Balance b;
   {
      Pair p[2]; build(p[0], maxPs, maxPre, maxH, maxExtra);
      int how = choose(10);
      p[1].ps = p[0].ps; p[1].pre = p[0].pre;
      // what a moved-from stack holds is up to the stack, but it must be a usable one
      auto movedFrom = [&] {
         size_t n = p[0].st->size();
         p[0].m.clear();
         const Stack& c = *p[0].st;
         for (auto it = c.begin(); it != c.end(); ++it) { p[0].m.push_back((*it).get()); MC_CHECK(p[0].m.size() <= n, "the moved-from stack of size %zu iterates further", n); }
         int then = choose(4);
         mc::note("then %s; ", then == 0 ? "use as it is" : then == 1 ? "clear" : then == 2 ? "assign to it" : "replace it");
         if (then == 1) { p[0].st->clear(); p[0].m.clear(); }
         else if (then == 2) { Stack o(2, 1); for (int i = 0; i < 3; ++i) o.push(Elem(600 + i)); *p[0].st = o; p[0].m = Model{600, 601, 602}; }
         else if (then == 3) { p[0].st.reset(); p[0].st.reset(new Stack(p[0].ps, p[0].pre)); p[0].m.clear(); }
      };
      switch (how) {
      case 0: mc::note("copy-construct; "); p[1].st.reset(new Stack(*p[0].st)); p[1].m = p[0].m; break;
      case 1: case 2: {      // assign over a stack with its own contents and layout
         size_t ps2 = how == 1 ? p[0].ps : 2; int h2 = choose(3);
         mc::note("assign over page size %zu height %d; ", ps2, h2);
         p[1].st.reset(new Stack(ps2, 1));
         for (int i = 0; i < h2; ++i) p[1].st->push(Elem(500 + i));
         *p[1].st = *p[0].st; p[1].m = p[0].m; break; }
      case 3: {
         mc::note("self-assign; ");
         Stack& alias = *p[0].st; *p[0].st = alias;
         p[1].st.reset(new Stack(*p[0].st)); p[1].m = p[0].m; break; }
      case 4: mc::note("move-construct, "); p[1].st.reset(new Stack(std::move(*p[0].st))); p[1].m = p[0].m; movedFrom(); break;
      case 5: case 6: {
         size_t ps2 = how == 5 ? p[0].ps : 2; int h2 = choose(4);
         mc::note("move-assign over page size %zu height %d, ", ps2, h2);
         p[1].st.reset(new Stack(ps2, 1));
         for (int i = 0; i < h2; ++i) p[1].st->push(Elem(500 + i));
         *p[1].st = std::move(*p[0].st); p[1].m = p[0].m; movedFrom(); break; }
      case 7: case 8: {
         size_t ps2 = how == 7 ? p[0].ps : 2; int h2 = choose(4);
         mc::note("swap with page size %zu height %d; ", ps2, h2);
         p[1].st.reset(new Stack(ps2, 1));
         for (int i = 0; i < h2; ++i) { p[1].st->push(Elem(500 + i)); p[1].m.push_back(500 + i); }
         std::swap(*p[0].st, *p[1].st); p[0].m.swap(p[1].m); break; }
      case 9: {      // there and back
         mc::note("move away and back; ");
         { Stack t(std::move(*p[0].st)); *p[0].st = std::move(t); }
         p[1].st.reset(new Stack(*p[0].st)); p[1].m = p[0].m; break; }
      }
      for (int i = 0; i < 2; ++i) { checkBasic(p[i], "copy"); checkForward(*p[i].st, p[i].m, "after copy"); checkReverse(*p[i].st, p[i].m, "after copy"); }
      for (int d = 0; d < depth; ++d) {
         int w = choose(2);
         static constexpr std::initializer_list<int> ops{PUSH, PUSH3, POP, POPV2, TOPSET, CLEAR, SHRINK, DISCARD_N};
         mc::note("%s.", w ? "copy" : "source");
         step(p[w], ops, d);
         for (int i = 0; i < 2; ++i) { checkBasic(p[i], "step"); checkForward(*p[i].st, p[i].m, "after step"); }
         MC_CHECK(Elem::live == (long)(p[0].m.size() + p[1].m.size()), "%ld live elements for %zu + %zu values", Elem::live, p[0].m.size(), p[1].m.size());
      }
      int first = choose(2);
      mc::note("destroy %s first\n", first ? "copy" : "source");
      p[first].st.reset();
      checkBasic(p[1 - first], "destruction of the other");
      p[1 - first].st->push(Elem(g_next)); p[1 - first].m.push_back(g_next++);
      checkForward(*p[1 - first].st, p[1 - first].m, "after destruction of the other");
      drain(p[1 - first]);
   }
   b.done("C08");
}

// ---- layouts of any size: pages, preallocations and heights around every power of two ----
#if PROP != 6
using Wide = falcon::PagedStack<int>;
struct WidePair { std::unique_ptr<Wide> st; Model m; size_t page = 0, pre = 0; };
void wpush(WidePair& p, size_t n) { for (size_t i = 0; i < n; ++i) { int v = g_next++; p.st->push(v); p.m.push_back(v); } }
void wcheck(const Wide& st, const Model& m, const char* when) {
   MC_CHECK(st.size() == m.size() && st.empty() == m.empty(), "%s: size() is %zu, empty() %d, with %zu values", when, st.size(), st.empty(), m.size());
   if (m.empty()) return;
   MC_CHECK(st.top() == m.back(), "%s: top() is %d instead of %d", when, st.top(), m.back());
   size_t k = m.size();
   for (auto i = st.begin(), e = st.end(); i != e; ++i) { MC_CHECK(k > 0, "%s: the traversal visits more than %zu values", when, m.size()); --k; MC_CHECK(*i == m[k], "%s: value %zu from the bottom of %zu is %d instead of %d", when, k, m.size(), *i, m[k]); }
   MC_CHECK(k == 0, "%s: the traversal leaves out %zu of %zu values", when, k, m.size());
}
void wdrain(WidePair& p, const char* when) {
   while (!p.m.empty()) { MC_CHECK(!p.st->empty(), "%s: %zu values lost", when, p.m.size()); int v = -1; p.st->pop(v); MC_CHECK(v == p.m.back(), "%s: popping gives %d instead of %d, %zu values left", when, v, p.m.back(), p.m.size()); p.m.pop_back(); }
   MC_CHECK(p.st->empty() && p.st->size() == 0, "%s: not empty after popping everything", when);
}
bool wmake(WidePair& p, bool T) {
   static const int pages[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100003};
   static const int pres[] = {1, 2, 4, 255, 256, 257, 5, 16, 300, 1000};
   p.page = pages[choose(sizeof pages / sizeof *pages)]; p.pre = pres[choose(T ? 10 : 6)];
   if (p.page * p.pre > (1u << 20)) return false;      // no more than 4 MB at once
   size_t pg = p.page, hs[] = {0, 1, pg - 1, pg, pg + 1, 2 * pg - 1, 2 * pg + 1, p.pre * pg - 1, p.pre * pg, p.pre * pg + 1, 256, 65536, 3 * pg + 2, 255, 257, 65535, 65537, 2 * pg, 5 * pg - 1};
   int n = T ? 19 : 12, k = choose(n);
   size_t h = hs[k]; if (h > 100010) return false;
   if (PROP == 5 && h > 800 * pg) return false;          // synchronised iterators count pages at each step
   if (!T && h > 10000 && pg != 1 && pg != 7 && pg != 256 && pg != 1024 && pg != 4097 && pg != 10000 && pg != 32768 && pg != 65536 && pg != 100003) return false;
   if (!T && h > 2000 && h < 60000 && p.pre != 1 && k >= 7) return false;
   for (int i = 0; i < k; ++i) if (hs[i] == h) return false;
   p.st.reset(new Wide(p.page, p.pre));
   mc::note("pages of %zu, %zu at a time, %zu values\n", p.page, p.pre, h);
   wpush(p, h);
   mc::transition(h + 1); mc::state(mc::hash2(p.page * 1000 + p.pre, h));
   return true;
}
#if PROP == 5
// Iterators over a stack whose content is replaced again and again.
void c05replaced() {
   static const int N[] = {1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 65535, 65536, 65537, 131072};
   Balance b;
   {
      WidePair p; int n = N[choose(19)], how = choose(4); const bool few = n > 2000;
      p.page = 1 + choose(few ? 1 : 3); p.st.reset(new Wide(p.page, 1)); wpush(p, 1 + choose(few ? 2 : 5));
      int depth = few ? (int)p.m.size() - 1 : choose((int)p.m.size()), last = few ? 2 * choose(2) : choose(5);
      mc::note("%zu values in pages of %zu, iterator %d from the top, replaced %d times\n", p.m.size(), p.page, depth, n);
      auto i = p.st->sync_begin(); for (int k = 0; k < depth; ++k) ++i;
      auto j = p.st->sync_begin();
      const Wide& c = *p.st; auto x = c.sync_begin();
      for (int k = 0; k < n; ++k) {
         Model m; Wide other(p.page, 1); int h = k + 1 == n ? last : k % 4; for (int q = 0; q < h; ++q) { other.push(g_next); m.push_back(g_next++); }
         if (how == 0) *p.st = std::move(other);
         if (how == 1) std::swap(*p.st, other);
         if (how == 2) { Wide t(std::move(*p.st)); *p.st = std::move(other); }
         if (how == 3) { { Wide t(std::move(other)); std::swap(t, *p.st); } }
         p.m = m;
      }
      mc::transition(n); mc::state(mc::hash2(n * 4 + how, p.m.size() * 100 + depth));
      auto see = [&](auto& it, const char* what) { int v = -1; bool thrown = false; try { it.get(v); } catch (const std::exception&) { thrown = true; } MC_CHECK(thrown == p.m.empty() && (thrown || v == p.m.back()), "the %s, over a stack replaced %d times and now of %zu values, yields %d", what, n, p.m.size(), v); };
      see(i, "iterator"); see(j, "second iterator"); see(x, "const iterator");
      if (p.m.size() > 1) { int v = -1; ++i; i.get(v); MC_CHECK(v == p.m[p.m.size() - 2], "the value below is %d instead of %d", v, p.m[p.m.size() - 2]); }
      wpush(p, 3); int v = -1; if (!p.m.empty() && last == 0) { j.get(v); MC_CHECK(v == p.m.back(), "over the stack filled again, the iterator yields %d", v); }
      wcheck(*p.st, p.m, "after the replacements");
   }
   b.done("replaced");
}
#endif
void wide(bool T) {
   Balance b;
   do {
      WidePair p; if (!wmake(p, T)) break;
      size_t h = p.m.size(), pg = p.page; const bool all = h < (T ? 20000 : 3000);
      // places worth looking at, from the top
      std::vector<size_t> at; for (size_t x : {(size_t)0, (size_t)1, (size_t)2, pg - 1, pg, pg + 1, h % pg, h % pg + 1, h % pg + pg, (size_t)255, (size_t)256, (size_t)257, (size_t)65535, (size_t)65536, (size_t)65537, h / 2, h ? h - 1 : 0, h}) if (x <= h && (all || x == 1 || x == pg || x == pg + 1 || x > 60000) && std::find(at.begin(), at.end(), x) == at.end()) at.push_back(x);
      wcheck(*p.st, p.m, "after the pushes");
#if PROP == 1
      size_t down = at[choose((int)at.size())]; int shrink = choose(3);
      mc::note("%zu popped, %s, pushed again\n", down, shrink == 1 ? "shrunk" : shrink == 2 ? "cleared" : "");
      for (size_t i = 0; i < down; ++i) { MC_CHECK(p.st->top() == p.m.back(), "top() is %d instead of %d", p.st->top(), p.m.back()); p.st->pop(); p.m.pop_back(); }
      wcheck(*p.st, p.m, "after the pops");
      if (shrink) p.st->shrink_to_fit();
      if (shrink == 2) { p.st->clear(); p.m.clear(); }
      wpush(p, down + 1);
      wcheck(*p.st, p.m, "after pushing again");
      wdrain(p, "at the end");
#elif PROP == 2
      const Wide& c = *p.st; size_t k = 0;
      for (auto i = c.rbegin(), e = c.rend(); i != e && h; ++i) { MC_CHECK(k < h && *i == p.m[k], "reverse: value %zu of %zu is wrong", k, h); ++k; }
      MC_CHECK(k == h, "the reverse traversal visits %zu of %zu values", k, h);
      for (size_t d : at) {
         if (d) { auto i = c.from_top(d); auto j = p.st->from_top(d); k = h - d; for (auto e = c.rend(); i != e; ++i, ++j) { MC_CHECK(k < h && *i == p.m[k] && *j == p.m[k], "from_top(%zu): value %zu of %zu is wrong", d, k, h); ++k; } MC_CHECK(k == h, "from_top(%zu) takes %zu steps to the top", d, k - (h - d)); }
         if (d < h) { auto i = c.begin(); i += d; MC_CHECK(*i == p.m[h - 1 - d], "%zu steps from the top of %zu: %d instead of %d", d, h, *i, p.m[h - 1 - d]); i -= d; MC_CHECK(*i == p.m[h - 1] && i == c.begin(), "%zu steps down and back", d);
            auto r = c.rbegin(); r += d; MC_CHECK(*r == p.m[d], "%zu steps from the bottom of %zu: %d instead of %d", d, h, *r, p.m[d]); r -= d; MC_CHECK(r == c.rbegin(), "%zu steps up and back", d); }
      }
#elif PROP == 3
      for (size_t d : at) {
         if (d < 3 || h < 3) continue;
         int x = -1, y = -1, z = -1; p.st->peek_depth(d, x, y, z);
         MC_CHECK(x == p.m[h - d] && y == p.m[h - d + 1] && z == p.m[h - d + 2], "peek_depth(%zu) of %zu values gives %d %d %d instead of %d and following", d, h, x, y, z, p.m[h - d]);
      }
      wcheck(*p.st, p.m, "after peeking");
      size_t k = at[choose((int)at.size())]; while (p.m.size() > k) { p.st->pop(); p.m.pop_back(); }
      for (int kind = choose(2); p.m.size() >= 3 && p.m.size() + 3 * pg + 9 > k; kind ^= 1) {
         int x = -1, y = -1, z = -1; size_t n = p.m.size();
         if (n + 3 * 40 < k) break;
         p.st->peek(x, y, z); MC_CHECK(x == p.m[n - 1] && y == p.m[n - 2] && z == p.m[n - 3], "peek() of %zu values gives %d %d %d", n, x, y, z);
         p.st->peek_reverse(x, y, z); MC_CHECK(z == p.m[n - 1] && y == p.m[n - 2] && x == p.m[n - 3], "peek_reverse() of %zu values gives %d %d %d", n, x, y, z);
         if (kind) { p.st->pop(x, y, z); MC_CHECK(x == p.m[n - 1] && y == p.m[n - 2] && z == p.m[n - 3], "pop() of %zu values gives %d %d %d", n, x, y, z); }
         else { x = y = z = -1; p.st->pop_reverse(x, y, z); MC_CHECK(z == p.m[n - 1] && y == p.m[n - 2] && x == p.m[n - 3], "pop_reverse() of %zu values gives %d %d %d", n, x, y, z); }
         p.m.resize(n - 3);
      }
      wcheck(*p.st, p.m, "after the pops");
#elif PROP == 4
      size_t k = at[choose((int)at.size())]; int how = all ? choose(4) : choose(2) * 3;
      static const char* w[] = {"discard(n)", "discard(iterator)", "discard(reverse iterator)", "discard(from_top(n))"};
      mc::note("%s of %zu\n", w[how], k);
      if (how && !k) break;
      if (how == 0) p.st->discard(k);
      else if (how == 1) { auto i = p.st->begin(); i += k - 1; p.st->discard(i); }
      else if (how == 2) { auto i = p.st->rbegin(); i += h - k; p.st->discard(i); }
      else p.st->discard(p.st->from_top(k));
      p.m.resize(h - k);
      wcheck(*p.st, p.m, "after the discard");
      wpush(p, all && choose(2) ? 2 * pg + 1 > 3000 ? 2 : 2 * pg + 1 : 1);
      wcheck(*p.st, p.m, "after the discard and further pushes");
      if (all && choose(2)) { p.st->clear(); p.m.clear(); wpush(p, 2); }
      wdrain(p, "after the discard");
#elif PROP == 5
      if (!h) break;
      size_t k = at[choose((int)at.size())]; if (k >= h) break;
      int what = choose(4);
      {
         auto i = p.st->sync_begin(); for (size_t n = 0; n < k; ++n) ++i;
         auto j = i; const Wide& c = *p.st; auto x = c.sync_begin(); for (size_t n = 0; n < k; ++n) ++x;
         size_t pos = h - 1 - k; int v = -1;
         auto see = [&](const char* when, size_t where) { v = -1; i.get(v); MC_CHECK(v == p.m[where], "%s: the iterator yields %d instead of %d", when, v, p.m[where]); v = -1; j.get(v); MC_CHECK(v == p.m[where], "%s: the copy of the iterator yields %d instead of %d", when, v, p.m[where]); v = -1; x.get(v); MC_CHECK(v == p.m[where], "%s: the const iterator yields %d instead of %d", when, v, p.m[where]); };
         see("at first", pos);
         size_t grow = pg + 1 > 3000 ? (h % pg ? pg - h % pg : 0) + 2 : 2 * pg + 1;
         if (what & 1) { p.st->shrink_to_fit(); wpush(p, grow); see("after many pushes", pos); }
         if (pos + 1 < p.m.size()) { --i; v = -1; i.get(v); MC_CHECK(v == p.m[pos + 1], "the value above is %d instead of %d", v, p.m[pos + 1]); ++i; }
         if (pos) { ++i; v = -1; i.get(v); MC_CHECK(v == p.m[pos - 1], "the value below is %d instead of %d", v, p.m[pos - 1]); --i; }
         see("after steps", pos);
         if (what & 2) { p.st->discard(p.m.size() - pos - 1); p.m.resize(pos + 1); see("as the top", pos); p.st->pop(); p.m.pop_back(); if (pos) { see("above the top", pos - 1); wpush(p, 2); see("moved to what was the top", pos - 1); } else { bool thrown = false; try { i.get(v); } catch (const std::exception&) { thrown = true; } MC_CHECK(thrown, "an iterator over the empty stack yields %d", v); } }
         wcheck(*p.st, p.m, "with iterators");
      }
      wcheck(*p.st, p.m, "after the iterators");
      if (what & 1) { size_t bl, de, cb, cd; p.st->getStats(bl, de, cb, cd); MC_CHECK(bl == cb, "the memory shrink put off has not taken place: %zu blocks, %zu used", bl, cb); }
#elif PROP == 8
      size_t k = at[choose((int)at.size())]; while (p.m.size() > k) { p.st->pop(); p.m.pop_back(); }
      int how = choose(5); WidePair q; q.page = 3; q.st.reset(new Wide(3, 2)); q.pre = 2; wpush(q, 7); Model old = q.m;
      mc::note("%zu values left, %s\n", k, how == 0 ? "copy" : how == 1 ? "assign" : how == 2 ? "move" : how == 3 ? "move-assign" : "swap");
      if (how == 0) { q.st.reset(new Wide(*p.st)); q.m = p.m; }
      if (how == 1) { *q.st = *p.st; q.m = p.m; }
      if (how == 2) { q.st.reset(new Wide(std::move(*p.st))); q.m = p.m; p.m.clear(); p.st->clear(); }
      if (how == 3) { *q.st = std::move(*p.st); q.m = p.m; p.m.clear(); p.st->clear(); }
      if (how == 4) { std::swap(*q.st, *p.st); std::swap(q.m, p.m); }
      wcheck(*q.st, q.m, "target"); wcheck(*p.st, p.m, "source");
      wpush(q, 9); wpush(p, 5);
      if (!q.m.empty()) { q.st->top(-5); q.m.back() = -5; }
      wcheck(*q.st, q.m, "target, after pushes"); wcheck(*p.st, p.m, "source, after pushes");
      if (all ? choose(2) : how & 1) { p.st.reset(); wdrain(q, "target"); } else { q.st.reset(); wdrain(p, "source"); }
#endif
   } while (false);
   b.done("wide");
}
#endif
}

static std::vector<mc::Scenario> build_all(bool T) {
   std::vector<mc::Scenario> v;
   auto add = [&](const char* n, const std::string& bounds, std::function<void()> f, double cap = 300) { mc::Scenario s; s.name = n; s.body = f; s.bounds = bounds; s.cap_s = cap; v.push_back(s); };
   double cap = T ? 1200 : 60;
#if PROP == 1
   int d = T ? 8 : 6;
   add("sequences", "all sequences of " + std::to_string(d) + " of 11 operations, page size 1-3, prealloc 1-2", [=] { c01(d, 3, 2); }, cap);
   int dm = T ? 8 : 6;
   add("macro-small", "all sequences of " + std::to_string(dm) + " of 9 page-sized moves, page size 3, prealloc 2", [=] { c01macro(dm, 3, 2); }, cap);
   int rh = T ? 40 : 20;
   add("ramps", "page size 1-5, prealloc 1-4: up to " + std::to_string(rh) + " pushes, any number of pops, clear/shrink or not, up again, drained and refilled", [=] { c01ramps(5, 4, rh); }, cap);
   int dd = T ? 5 : 3;
   add("macro-default", "all sequences of " + std::to_string(dd) + " of 9 page-sized moves, default page size and prealloc", [=] { c01macro(dd, 0, 0); }, cap);
#elif PROP == 2
   int d = T ? 7 : 6;
   add("sequences", "all sequences of " + std::to_string(d) + " of 8 operations, page size 1-3, prealloc 1-2, then every traversal and jump", [=] { c02(d, 3, 2); }, cap);
   int H = T ? 14 : 11;
   add("tall", "heights 0-" + std::to_string(H) + ", page size 1-4, prealloc 1-3, 0-6 extra values popped, shrunk or not", [=] { c02tall(4, 3, H, 6); }, cap);
#elif PROP == 3
   int H = T ? 11 : 9;
   add("single", "heights 0-" + std::to_string(H) + ", page size 1-5, prealloc 1-2, 0-5 extra, every method, arity 1-5, every depth", [=] { c03(5, 2, H, 5, 1); }, cap);
   add("double", "two such calls in a row, height 0-7, page size 1-3", [=] { c03(3, 1, T ? 8 : 7, 2, 2); }, cap);
   if (T) add("triple", "three such calls in a row, height 0-5, page size 1-3", [=] { c03(3, 1, 5, 1, 3); }, cap);
#elif PROP == 4
   int d = T ? 5 : 4;
   add("sequences", "heights 0-5 with 0-1 extra, page size 1-3, any discard, then all sequences of " + std::to_string(d) + " of 9 operations", [=] { c04(3, 1, 5, 1, d - 1); }, cap);
   add("prealloc", "heights 0-7 with 0-3 extra, page size 1-3, prealloc 1-3, any discard, then all sequences of 1-2 operations", [=] { c04(3, 3, 7, 3, T ? 2 : 1); }, cap);
   add("long", "height 0-3, page size 1-2, any discard, then all sequences of 4 (thorough: 5) operations", [=] { c04(2, 1, 3, 0, T ? 5 : 4); }, cap);
#elif PROP == 5
   int d = T ? 6 : 5;
   add("iterator", "heights 0-3, page size 1-2, one iterator held at start, all sequences of " + std::to_string(d) + " actions, 2 iterator slots", [=] { c05<Stack::sync_iterator>(2, 1, 3, d, 2); }, cap);
   add("const-iterator", "the same with const iterators, sequences of " + std::to_string(d - 1), [=] { c05<Stack::const_sync_iterator>(2, 1, 3, d - 1, 2); }, cap);
   add("tall", "heights 0-6, page size 1-3, prealloc 1-2, all sequences of " + std::to_string(d - 1), [=] { c05<Stack::sync_iterator>(3, 2, 6, d - 1, 2); }, cap);
   add("replaced", "heights 0-3, page size 1-2, sequences of " + std::to_string(d - 1) + " with discards, the whole content moved away, taken over, swapped or copied over", [=] { c05<Stack::sync_iterator>(2, 1, 3, d - 1, 2, true); }, cap);
   add("replaced-const", "the same with const iterators, sequences of " + std::to_string(d - 2), [=] { c05<Stack::const_sync_iterator>(2, 1, 3, d - 2, 2, true); }, cap);
   add("three", "heights 0-2, page size 1, three slots, sequences of " + std::to_string(d - 1), [=] { c05<Stack::sync_iterator>(1, 1, 2, d - 1, 3); }, cap);
#elif PROP == 6
   int d = T ? 4 : 3;
   add("element-faults", "heights 0-4, page size 1-3, sequences of " + std::to_string(d) + " operations with a fault in any element copy, construction or delivery", [=] { c06(3, 2, 4, d, false); }, cap);
   add("alloc-faults", "heights 0-4, page size 1-3, sequences of " + std::to_string(d - 1) + " operations with a failing allocation at any point", [=] { c06(3, 2, 4, d - 1, true); }, cap);
   add("copy-faults", "heights 0-4, page size 1-3, prealloc 1-2, copies, assignments (over heights 0-3) and moves with a fault in any element copy, then 2 operations", [=] { c06copies(3, 4, T ? 3 : 2, false); }, cap);
   add("copy-alloc-faults", "the same with a failing allocation at any point", [=] { c06copies(3, 4, T ? 3 : 2, true); }, cap);
   add("traffic", "page size 1-4, prealloc 1-3, cycles of 1-9 values over a base of 0-9, 4 ways of removal", [=] { c06traffic(4, 3, 9); }, cap);
#elif PROP == 8
   int d = T ? 4 : 3;
   add("copies", "heights 0-" + std::to_string(T ? 4 : 3) + ", extra values popped, page size 1-" + std::to_string(T ? 3 : 2) + ", prealloc 1-" + std::to_string(T ? 2 : 1) + ", 10 ways of copying, moving and swapping, 4 further uses of a moved-from stack, then all sequences of " + std::to_string(d) + " operations on either", [=] { c08(T ? 3 : 2, T ? 2 : 1, T ? 4 : 3, T ? 2 : 1, d); }, cap);
   add("pairs", "heights 0-5, page size 1-3, prealloc 1-2, the same ways, then all sequences of 2 operations on either", [=] { c08(3, 2, 5, 1, 2); }, cap);
   add("layouts", "heights 0-9, 0-5 extra, page size 1-4, prealloc 1-3, the same ways, then one operation on either", [=] { c08(4, 3, 9, 5, T ? 2 : 1); }, cap);
#endif
#if PROP == 5
   add("replacements", "heights 1-5, page size 1-3, iterators anywhere, content replaced 19 numbers of times up to 131072, in 4 ways, by 0-4 values", [=] { c05replaced(); }, cap);
#endif
#if PROP != 6
   add("wide", std::string("pages, preallocations and heights around powers of two, up to pages of 100003, ") + (T ? "1000" : "257") + " pages at a time and 100010 values, each operation at every interesting place", [=] { wide(T); }, cap);
#endif
   (void)cap; return v;
}

int main(int argc, char** argv) { return mc::main(argc, argv, build_all); }
