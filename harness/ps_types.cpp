// PagedStack, C01-C06 and C08: other types of elements (TYPES 1, 2), and stacks far larger
// than those explored exhaustively (TYPES 0).
#include "seqrt.h"
#include <falcon/engine/pagedstack.h>
#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

using seq::Elem;
using mc::choose;
using Model = std::vector<int>;

namespace {
int g_next = 0;                 // next fresh value
struct Balance {                   // everything allocated in the scope is released
   long before;
   Balance() { Elem::reset(); g_next = 0; before = seq::live(); }
   void done(const char* what) {
      MC_CHECK(Elem::live == 0, "%s: %ld elements never destroyed", what, Elem::live);
      MC_CHECK(seq::live() == before, "%s: %ld blocks of memory not released", what, seq::live() - before);
   }
};

// ---- contents, by traversal -----------------------------------------------------
template<typename S> void checkForward(S& s, const Model& m, const char* what) {
   size_t k = 0, n = m.size();
   auto it = s.begin(); auto e = s.end();
   for (; it != e; ++it, ++k) {
      MC_CHECK(k < n, "%s: forward traversal goes on after %zu values", what, n);
      MC_CHECK((*it).get() == m[n - 1 - k], "%s: forward traversal: %d at %zu instead of %d", what, (*it).get(), k, m[n - 1 - k]);
      MC_CHECK(it->get() == m[n - 1 - k], "%s: forward operator->", what);
   }
   MC_CHECK(k == n, "%s: forward traversal stops after %zu of %zu values", what, k, n);
   MC_CHECK(it == s.end(), "%s: end() does not compare equal", what);
   // and back
   for (k = 0; k < n; ++k) { --it; MC_CHECK((*it).get() == m[k], "%s: stepping back: %d instead of %d", what, (*it).get(), m[k]); }
   MC_CHECK(it == s.begin(), "%s: stepping back does not reach begin()", what);
}
template<typename S> void checkReverse(S& s, const Model& m, const char* what) {
   size_t k = 0, n = m.size();
   auto it = s.rbegin(); auto e = s.rend();
   for (; it != e; ++it, ++k) {
      MC_CHECK(k < n, "%s: reverse traversal goes on after %zu values", what, n);
      MC_CHECK((*it).get() == m[k], "%s: reverse traversal: %d at %zu instead of %d", what, (*it).get(), k, m[k]);
      MC_CHECK(it->get() == m[k], "%s: reverse operator->", what);
   }
   MC_CHECK(k == n, "%s: reverse traversal stops after %zu of %zu values", what, k, n);
   for (k = n; k > 0; --k) { --it; MC_CHECK((*it).get() == m[k - 1], "%s: reverse stepping back: %d instead of %d", what, (*it).get(), m[k - 1]); }
   MC_CHECK(it == s.rbegin(), "%s: reverse stepping back does not reach rbegin()", what);
}

constexpr int OPS[] =
#if PROP == 1
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
#elif PROP == 2
   {0, 2, 4, 8, 9, 17};
#elif PROP == 3
   {2, 6, 13, 14, 15, 16};
#elif PROP == 4
   {0, 2, 4, 8, 10, 11, 12};
#elif PROP == 5
   {0, 4, 8, 23, 24};
#elif PROP == 6
   {0, 2, 3, 5, 6, 7, 8, 9, 10};
#elif PROP == 8
   {0, 2, 5, 7, 8, 18, 19, 20, 21, 22};
#endif
constexpr bool has(int op) { for (int o : OPS) if (o == op) return true; return false; }
#if TYPES > 0
// ============================ other element types ================================
struct Big { int v; char pad[300]; };
struct alignas(64) Wide { int v; };
template<class T> struct Val;
template<> struct Val<int> { static int make(int v) { return v; } static int of(int v) { return v; } };
template<> struct Val<char> { static char make(int v) { return (char)v; } static int of(char v) { return v; } };
template<> struct Val<std::string> { static std::string make(int v) { return std::to_string(v) + (v % 2 ? " and more than fits a small string" : ""); } static int of(const std::string& v) { return v.empty() ? -1 : atoi(v.c_str()); } };
template<> struct Val<std::shared_ptr<int>> { static std::shared_ptr<int> make(int v) { return std::make_shared<int>(v); } static int of(const std::shared_ptr<int>& v) { return v ? *v : -1; } };
template<> struct Val<Big> { static Big make(int v) { Big b; memset(&b, v, sizeof b); b.v = v; return b; } static int of(const Big& b) { for (char c : b.pad) if (c != (char)b.v) return -1; return b.v; } };
template<> struct Val<Wide> { static Wide make(int v) { Wide w; w.v = v; return w; } static int of(const Wide& w) { return (uintptr_t)&w % 64 ? -2 : w.v; } };

template<class T> void typed(int maxPs, int depth) {
   const std::vector<int> ops(std::begin(OPS), std::end(OPS));
   Balance b;
   {
      using St = falcon::PagedStack<T>; using V = Val<T>;
      size_t ps = 1 + choose(maxPs), pre = 1 + choose(2);
      std::unique_ptr<St> st(new St(ps, pre)), other; Model m, om;
      int h = choose(4); for (int i = 0; i < h; ++i) { st->push(V::make(g_next)); m.push_back(g_next++); }
      mc::note("page size %zu, prealloc %zu, height %d: ", ps, pre, h);
      auto fresh = [&] { int v = g_next++ % 100; m.push_back(v); return V::make(v); };
      auto check = [&](const St& c, const Model& m, const char* what) {
         size_t n = m.size(), k = 0;
         MC_CHECK(c.size() == n && c.empty() == (n == 0), "%s: size %zu, empty %d with %zu values", what, c.size(), c.empty(), n);
         if (n) MC_CHECK(V::of(c.top()) == m[n - 1], "%s: top() is %d instead of %d", what, V::of(c.top()), m[n - 1]);
         for (auto it = c.begin(); it != c.end(); ++it, ++k) { MC_CHECK(k < n, "%s: traversal goes on", what); MC_CHECK(V::of(*it) == m[n - 1 - k], "%s: %d instead of %d at %zu from the top of %zu", what, V::of(*it), m[n - 1 - k], k, n); }
         MC_CHECK(k == n, "%s: traversal of %zu of %zu values", what, k, n);
         k = 0;
         for (auto it = c.rbegin(); it != c.rend(); ++it, ++k) { MC_CHECK(k < n, "%s: reverse traversal goes on", what); MC_CHECK(V::of(*it) == m[k], "%s: %d instead of %d at %zu of %zu", what, V::of(*it), m[k], k, n); }
         MC_CHECK(k == n, "%s: reverse traversal of %zu of %zu values", what, k, n);
      };
      auto is = [&](const T& x, int want, const char* what) { MC_CHECK(V::of(x) == want, "%s delivers %d instead of %d", what, V::of(x), want); };
      check(*st, m, "building");
      for (int d = 0; d < depth; ++d) {
         int op = ops[choose((int)ops.size())]; size_t n = m.size(); St& s = *st; const St& c = s;
         T x = V::make(99), y = V::make(98), z = V::make(97);
         mc::note("%d ", op);
         switch (op) {
         case 0: if constexpr (has(0)) { { T v = fresh(); s.push(v); } } break;
         case 1: if constexpr (has(1)) { { T v = fresh(), w = fresh(); s.push(v, w); } } break;
         case 2: if constexpr (has(2)) { { T v = fresh(), w = fresh(), u = fresh(); s.push(v, w, u); } } break;
         case 3: if constexpr (has(3)) { s.push_emplace(fresh()); } break;
         case 4: if constexpr (has(4)) { if (n) { s.pop(); m.pop_back(); } } break;
         case 5: if constexpr (has(5)) { if (n) { s.pop(x); is(x, m[n - 1], "pop(x)"); m.pop_back(); } } break;
         case 6: if constexpr (has(6)) { if (n > 1) { s.pop(x, y); is(x, m[n - 1], "pop(x,y)"); is(y, m[n - 2], "pop(x,y)"); m.resize(n - 2); } } break;
         case 7: if constexpr (has(7)) { if (n) { m.pop_back(); s.top(fresh()); } } break;
         case 8: if constexpr (has(8)) { s.clear(); m.clear(); } break;
         case 9: if constexpr (has(9)) { s.shrink_to_fit(); } break;
         case 10: if constexpr (has(10)) { { size_t k = choose((int)n + 1); s.discard(k); m.resize(n - k); } } break;
         case 11: if constexpr (has(11)) { if (n) { size_t k = choose((int)n); auto it = s.begin(); it += k; s.discard(it); m.resize(n - 1 - k); } } break;
         case 12: if constexpr (has(12)) { if (n) { size_t k = choose((int)n); auto it = c.rbegin(); it += k; s.discard(it); m.resize(k); } } break;
         case 13: if constexpr (has(13)) { if (n > 2) { c.peek(x, y, z); is(x, m[n - 1], "peek"); is(y, m[n - 2], "peek"); is(z, m[n - 3], "peek"); } } break;
         case 14: if constexpr (has(14)) { if (n > 2) { c.peek_reverse(x, y, z); is(z, m[n - 1], "peek_reverse"); is(y, m[n - 2], "peek_reverse"); is(x, m[n - 3], "peek_reverse"); } } break;
         case 15: if constexpr (has(15)) { if (n > 1) { size_t k = 2 + choose((int)n - 1); c.peek_depth(k, x, y); is(x, m[n - k], "peek_depth"); is(y, m[n - k + 1], "peek_depth"); } } break;
         case 16: if constexpr (has(16)) { if (n > 1) { s.pop_reverse(x, y); is(y, m[n - 1], "pop_reverse"); is(x, m[n - 2], "pop_reverse"); m.resize(n - 2); } } break;
         case 17: if constexpr (has(17)) { if (n) { size_t k = choose((int)n); auto it = s.rbegin(); it += k; int v = g_next++ % 100; *it = V::make(v); m[k] = v; } } break;
         case 18: if constexpr (has(18)) { other.reset(new St(s)); om = m; } break;
         case 19: if constexpr (has(19)) { if (other) { *other = s; om = m; } } break;
         case 20: if constexpr (has(20)) { if (other) { s = *other; m = om; } } break;
         case 21: if constexpr (has(21)) { if (other) { std::swap(s, *other); m.swap(om); } } break;
         case 22: if constexpr (has(22)) { { St t(std::move(s)); s = std::move(t); } } break;
         case 23: if constexpr (has(23)) { if (n) { auto it = s.sync_begin(); auto ce = c.csync_end(); auto cit = c.csync_begin(); size_t k = 0;
                  while (cit != ce) { MC_CHECK(k < n, "sync traversal goes on"); it.get(x); cit.get(y); is(x, m[n - 1 - k], "sync_iterator"); is(y, m[n - 1 - k], "const_sync_iterator"); ++it; ++cit; ++k; }
                  MC_CHECK(k == n, "sync traversal of %zu of %zu values", k, n); } } break;
         case 24: if constexpr (has(24)) { if (n) { auto it = s.sync_begin(); T v = fresh(), w = fresh(); s.push(v, w); it.get(x); is(x, m[n - 1], "a sync_iterator below the top"); --it; it.get(x); is(x, m[n], "a sync_iterator stepping up");
                  s.discard(size_t(3)); m.resize(n - 1); if (n > 1) { it.get(x); is(x, m[n - 2], "a sync_iterator above the top"); } } } break;
         }
         check(*st, m, "step"); if (other) check(*other, om, "the other one");
         mc::transition(); mc::state(mc::hash2(mc::hash2(op, m.size()), ps * 8 + om.size()));
      }
      other.reset();
      while (!m.empty()) { T x = V::make(99); st->pop(x); is(x, m.back(), "pop"); m.pop_back(); }
      check(*st, m, "draining");
      mc::note("\n");
   }
   b.done("other types");
}

#else
// ============================ large stacks ======================================
// one history per choice, at heights far above those explored exhaustively
void large() {
   static const struct { size_t ps, pre; } lay[] = {{0, 0}, {1, 1}, {2, 3}, {100, 1}, {255, 2}, {256, 1}, {257, 2}};
   static const size_t heights[] = {254, 255, 256, 257, 300, 512, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9000, 66000};
   Balance b;
   {
      auto l = lay[choose(sizeof lay / sizeof *lay)];
      size_t h = heights[choose(sizeof heights / sizeof *heights)];
      if (l.ps && h > 3000) return;
      using St = falcon::PagedStack<Elem>;
      std::unique_ptr<St> st(l.ps ? new St(l.ps, l.pre) : new St()); size_t ps = l.ps ? l.ps : (size_t)St::DEFAULT_PAGE_SIZE;
      Model m; auto up = [&](size_t k) { for (size_t i = 0; i < k; ++i) { st->push(Elem(g_next)); m.push_back(g_next++); } };
      auto same = [&](const St& c, const Model& m, const char* what) {
         MC_CHECK(c.size() == m.size() && c.empty() == m.empty(), "%s: size() is %zu instead of %zu", what, c.size(), m.size());
         size_t k = 0; for (auto it = c.rbegin(); it != c.rend() && k < m.size(); ++it, ++k) if ((*it).get() != m[k]) mc::fail("%s: %d instead of %d at %zu of %zu", what, (*it).get(), m[k], k, m.size());
         MC_CHECK(k == m.size(), "%s: %zu of %zu values", what, k, m.size());
         MC_CHECK(Elem::live >= (long)m.size(), "%s: elements lost", what);
      };
      up(h); mc::transition(h); mc::state(mc::hash2(h, ps));
      mc::note("page size %zu, height %zu; ", ps, h);
      std::vector<size_t> spots; for (size_t d : {(size_t)1, (size_t)2, (size_t)255, (size_t)256, (size_t)257, ps - 1, ps, ps + 1, 2 * ps, 3 * ps + 1, h / 2, h - 256, h - 1, h, (size_t)65535, (size_t)65536, (size_t)65537}) if (d >= 1 && d <= h) spots.push_back(d);
      auto spot = [&] { return spots[choose((int)spots.size())]; };
      same(*st, m, "filled");
      switch (PROP) {
#if PROP == 1
      case 1: {
         size_t k = spot(); for (size_t i = 0; i < k; ++i) { Elem x; st->pop(x); if (x.get() != m.back()) mc::fail("pop gives %d instead of %d", x.get(), m.back()); m.pop_back(); }
         if (choose(2)) st->shrink_to_fit();
         same(*st, m, "popped"); up(k + 3); same(*st, m, "pushed again"); st->clear(); m.clear(); same(*st, m, "cleared"); up(h); same(*st, m, "filled again"); break; }
#endif
#if PROP == 2
      case 2: {
         checkForward(*st, m, "large"); checkReverse(*st, m, "large"); checkForward((const St&)*st, m, "large const"); checkReverse((const St&)*st, m, "large const");
         size_t d = spot(); auto it = st->from_top(d); const St& c = *st; auto cit = c.from_top(d);
         if ((*it).get() != m[h - d] || (*cit).get() != m[h - d]) mc::fail("from_top(%zu) gives %d and %d instead of %d", d, (*it).get(), (*cit).get(), m[h - d]);
         size_t k = 0; while (it != st->rend()) { ++it; ++k; } MC_CHECK(k == d, "from_top(%zu) reaches the top after %zu steps", d, k);
         it -= d; cit += d - 1; cit -= d - 1; MC_CHECK((*it).get() == m[h - d] && (*cit).get() == m[h - d], "jumps by %zu", d);
         auto f = st->begin(); f += d - 1; MC_CHECK((*f).get() == m[h - d], "begin() += %zu", d - 1); f -= d - 1; MC_CHECK(f == st->begin(), "-= %zu", d - 1); break; }
#endif
#if PROP == 3
      case 3: {
         size_t d = spot(); const St& c = *st; std::vector<Elem> e(12);
         if (d >= 2) { c.peek_depth(d, e[0], e[1]); MC_CHECK(e[0].get() == m[h - d] && e[1].get() == m[h - d + 1], "peek_depth(%zu) gives %d and %d", d, e[0].get(), e[1].get()); }
         st->discard(h - d); m.resize(d);
         if (d >= 12) {
            c.peek(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); for (int i = 0; i < 12; ++i) MC_CHECK(e[i].get() == m[d - 1 - i], "peek of 12: %d", i);
            c.peek_reverse(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); for (int i = 0; i < 12; ++i) MC_CHECK(e[i].get() == m[d - 12 + i], "peek_reverse of 12: %d", i);
            if (choose(2)) { st->pop(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); for (int i = 0; i < 12; ++i) MC_CHECK(e[i].get() == m[d - 1 - i], "pop of 12: %d", i); }
            else { st->pop_reverse(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11]); for (int i = 0; i < 12; ++i) MC_CHECK(e[i].get() == m[d - 12 + i], "pop_reverse of 12: %d", i); }
            m.resize(d - 12);
         }
         same(*st, m, "multi-value operations"); break; }
#endif
#if PROP == 4
      case 4: {
         size_t d = spot();
         switch (choose(4)) {
         case 0: st->discard(d); m.resize(h - d); break;
         case 1: { auto it = st->begin(); it += d - 1; st->discard(it); m.resize(h - d); break; }
         case 2: { auto it = st->from_top(d); st->discard(it); m.resize(h - d); break; }
         case 3: { auto it = ((const St&)*st).rbegin(); it += h - d; st->discard(it); m.resize(h - d); break; }
         }
         MC_CHECK(Elem::live == (long)m.size(), "%ld live elements for %zu values", Elem::live, m.size());
         same(*st, m, "discarded"); up(d); same(*st, m, "refilled"); checkForward(*st, m, "refilled"); break; }
#endif
#if PROP == 5
      case 5: {
         auto it = st->sync_begin(); size_t pos = h - 1; size_t d = spot();
         for (size_t i = 1; i < d; ++i) { ++it; --pos; }
         Elem x; it.get(x); MC_CHECK(x.get() == m[pos], "sync iterator stepped %zu times gives %d instead of %d", d - 1, x.get(), m[pos]);
         size_t e = spot(); st->discard(e); m.resize(h - e);
         bool threw = false; try { it.get(x); } catch (std::runtime_error&) { threw = true; }
         MC_CHECK(threw == m.empty(), "get() throws %d with %zu values", threw, m.size());
         if (!threw) { if (pos >= m.size()) pos = m.size() - 1; MC_CHECK(x.get() == m[pos], "after discarding %zu of %zu: %d instead of %d", e, h, x.get(), m[pos]); }
         up(e); if (!threw) { it.get(x); MC_CHECK(x.get() == m[pos], "after refilling: %d instead of %d", x.get(), m[pos]); }
         std::vector<decltype(it)> many; for (int i = 0; i < 300; ++i) many.push_back(it);
         size_t bl, dp, cb, cd, bl2; st->clear(); m.clear(); st->shrink_to_fit(); st->getStats(bl, dp, cb, cd); MC_CHECK(h <= ps || bl > cb, "memory shrunk while an iterator exists");
         while (!many.empty()) { many.pop_back(); st->getStats(bl2, dp, cb, cd); MC_CHECK(bl2 == bl, "memory shrunk with %zu iterators left", many.size() + 1); }
         { auto last = std::move(it); } break; }
#endif
#if PROP == 6
      case 6: {
         long after = 0;
         for (int c = 0; c < 4; ++c) { st->discard(h); m.clear(); MC_CHECK(Elem::live == 0, "%ld live elements in an empty stack", Elem::live); up(h); if (c == 0) after = seq::live(); else MC_CHECK(seq::live() <= after, "memory grows with traffic"); }
         same(*st, m, "cycles"); break; }
#endif
#if PROP == 8
      case 8: {
         size_t d = spot(); std::unique_ptr<St> o; Model om;
         switch (choose(4)) {
         case 0: o.reset(new St(*st)); om = m; break;
         case 1: o.reset(new St(3, 1)); *o = *st; om = m; break;
         case 2: o.reset(new St(std::move(*st))); om.swap(m); m.clear(); { size_t n = st->size(); st->discard(n); } break;
         case 3: o.reset(new St(3, 1)); std::swap(*o, *st); om.swap(m); break;
         }
         same(*o, om, "the copy"); same(*st, m, "the source");
         if (!om.empty()) { o->discard(d); om.resize(h - d); } up(5); same(*o, om, "the copy, later"); same(*st, m, "the source, later");
         st.reset(new St(2, 1)); m.clear(); same(*o, om, "the copy, alone"); break; }
#endif
      }
      while (!m.empty() && m.size() < 10000) { Elem x; st->pop(x); if (x.get() != m.back()) mc::fail("at last: pop gives %d instead of %d", x.get(), m.back()); m.pop_back(); }
      mc::note("\n");
   }
   b.done("large");
}
#endif
}

static std::vector<mc::Scenario> build(bool T) {
   std::vector<mc::Scenario> v;
   double cap = T ? 1200 : 60; int d = T ? 5 : 4; (void)d;
#if TYPES > 0
   auto add = [&](const char* n, int ps, int depth, std::function<void()> f) { v.push_back({n, f, false, cap, std::string("stacks of ") + n + ", heights 0-3, page size 1-" + std::to_string(ps) + ", prealloc 1-2, all sequences of " + std::to_string(depth) + " of " + std::to_string(sizeof OPS / sizeof *OPS) + " operations"}); };
#endif
#if TYPES == 1
   add("int", 3, d, [=] { typed<int>(3, d); });
   add("char", 2, d - 1, [=] { typed<char>(2, d - 1); });
   add("string", 3, d - 1, [=] { typed<std::string>(3, d - 1); });
#elif TYPES == 2
   add("shared_ptr", 2, d - 1, [=] { typed<std::shared_ptr<int>>(2, d - 1); });
   add("big", 2, d - 1, [=] { typed<Big>(2, d - 1); });
   add("aligned", 2, d - 1, [=] { typed<Wide>(2, d - 1); });
#else
   v.push_back({"large", [] { large(); }, false, cap, "7 layouts (the default one among them) x heights 254-66000, at depths around page and power of two boundaries"});
#endif
   return v;
}
int main(int argc, char** argv) { return mc::main(argc, argv, build); }
