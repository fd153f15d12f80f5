// The logger: C21 log statements, C22 category filters.
#include "log_common.h"
#include <falcon/logger.h>
#include <climits>
#include <functional>
#include <iomanip>
#include <sstream>
#include <string_view>

static falcon::Logger& original() { return LOGGER; }
// Statements go to a logger of the execution's own.
static falcon::Logger* theLogger;
#undef LOGGER
#define LOGGER (*theLogger)

namespace {
// What is delivered, copied.
struct Tape : LS::Listener {
   std::vector<Spec>* got;
   Tape(std::vector<Spec>* g): got(g) {}
   void onMessage(const LS::Message& m) override {
      uint64_t h = m.m_line + m.m_level;
      for (char c : m.m_file) h = h * 31 + c;
      for (char c : m.m_category) h = h * 31 + c;
      for (char c : m.m_message) h = h * 31 + c;
      if (h == 12345) ts::point();
      ts::Quiet q;
      got->push_back(Spec{m.m_file, m.m_line, (int)m.m_level, m.m_category, m.m_message});
   }
};
struct Expected { Spec s; bool optional; };      // an abandoned statement may emit what it has got so far, or nothing

struct Model {
   std::vector<Expected> out;
   std::string cat;
   int level = LEVEL::TRACE;
   int blocks = 0, formats = 0;       // executions seen of filtered-out things
   std::string prog;
};
Model* models[3];
Model& me() { return *models[ts::self() == 0 ? 0 : ts::self() == 1 ? 1 : 2]; }      // (main, service, second thread)
struct Abandon {};

#if PROP == 21
struct Probe { };
std::ostream& operator<<(std::ostream& o, const Probe&) { { ts::Quiet q; me().formats++; } return o << "probe"; }

void expect(int line, int level, const std::string& cat, const std::string& text, bool optional = false) {
   ts::Quiet q;
   me().out.push_back({Spec{__FILE__, line, level, cat, text}, optional});
}
void progNote(const char* s) { ts::Quiet q; me().prog += s; me().prog += ' '; }
bool pass(int level) { return level <= me().level; }
std::string catNow() { ts::Quiet q; return me().cat; }
std::string tag() { return ts::self() == 0 ? "A" : "B"; }

int statements(int kinds, int depth, int& n);

enum { KINDS = 20, SIMPLE = 8 };
// One statement (and what is nested in it).
void statement(int kinds, int depth, int& n, bool nested) {
   // (the logger's own interface is for use outside of the statements)
   int simple = nested ? SIMPLE - 1 : SIMPLE;
   int k = ts::choose(simple + (depth > 0 ? kinds - SIMPLE : 0));
   if (k >= simple) k += SIMPLE - simple;
   int id = ++n;
   std::string t = tag() + std::to_string(id) + ";";
   int line = 0;
   switch (k) {
   case 0: progNote("info"); line = __LINE__; LOG_INFO << "info " << t << 255 << ' ' << 1.5;
      expect(line, LEVEL::INFO, catNow(), "info " + t + "255 1.5"); break;
   case 1: progNote("warn+cat"); line = __LINE__; LOG_WARN << LOG_CAT("temp" + t) << "warn " << t;
      expect(line, LEVEL::WARN, "temp" + t, "warn " + t); break;
   case 2: progNote("trace+cat"); line = __LINE__; LOG_TRC << LOG_CAT("gone" + t) << "trace " << t << Probe();
      if (pass(LEVEL::TRACE)) { expect(line, LEVEL::TRACE, "gone" + t, "trace " + t + "probe"); ts::Quiet q; me().formats--; } break;
   case 3: { progNote("category"); std::string c = "cat" + t; LOG_CATEGORY(c);
      ts::Quiet q; me().cat = c; break; }
   case 4: progNote("hex"); line = __LINE__; LOG_ERR << std::hex << 255 << std::setfill('*') << std::setw(4) << std::setprecision(2) << std::boolalpha << std::showpos << t;
      expect(line, LEVEL::ERROR, catNow(), "ff" + std::string(t.size() < 4 ? 4 - t.size() : 0, '*') + t); break;
   case 5: progNote("numbers"); line = __LINE__; LOG_CRIT << t << 255 << ' ' << true << ' ' << 1234.5678 << std::setw(3) << 7;
      expect(line, LEVEL::CRITICAL, catNow(), t + "255 1 1234.57  7"); break;
   case 6: progNote("traceblock"); LOG_BLOCK_TRC { { ts::Quiet q; me().blocks++; } LOGGER << "tb " << t << Probe(); line = __LINE__; }
      if (pass(LEVEL::TRACE)) { expect(line, LEVEL::TRACE, catNow(), "tb " + t + "probe"); ts::Quiet q; me().blocks--; me().formats--; } break;
   case 7: progNote("direct"); LOGGER.setFile("direct.cpp"); LOGGER.setLine(id); LOGGER.setLevel(falcon::LLWARN); LOGGER.setTempCategory("once" + t); LOGGER << std::hex << "direct " << t << 255; LOGGER.commit();
      { expect(id, LEVEL::WARN, "once" + t, "direct " + t + "ff"); ts::Quiet q; me().out.back().s.file = "direct.cpp"; }
      // another one, of the same place
      LOGGER << "again " << t << 255; LOGGER.commit();
      { expect(id, LEVEL::WARN, catNow(), "again " + t + "255"); ts::Quiet q; me().out.back().s.file = "direct.cpp"; } break;
   // ---- with something nested
   case 8: { progNote("block{"); std::string c; LOG_BLOCK(falcon::LLINFO) { line = __LINE__; LOGGER << "begin " << t; statements(kinds, depth - 1, n); LOGGER << " end " << t << 255; }
      progNote("}"); expect(line, LEVEL::INFO, catNow(), "begin " + t + " end " + t + "255"); break; }
   case 9: { progNote("expr("); auto f = [&]() { statements(kinds, depth - 1, n); return "value"; };
      line = __LINE__; LOG_DBG << "left " << t << f() << " right";
      progNote(")"); expect(line, LEVEL::DEBUG, catNow(), "left " + t + "value right"); break; }
   case 10: { progNote("cat+expr("); auto f = [&]() { statements(kinds, depth - 1, n); return "value"; };
      line = __LINE__; LOG_WARN << LOG_CAT("outer" + t) << "left " << t << f() << " right";
      progNote(")"); expect(line, LEVEL::WARN, "outer" + t, "left " + t + "value right"); break; }
   case 11: { progNote("block-break{"); LOG_BLOCK_INFO { line = __LINE__; LOGGER << "broken " << t; statements(kinds, depth - 1, n); break; }
      progNote("}"); expect(line, LEVEL::INFO, catNow(), "broken " + t, true); break; }
   case 12: { progNote("block-return{"); [&]() { LOG_BLOCK_INFO { line = __LINE__; LOGGER << std::hex << "returned " << t; statements(kinds, depth - 1, n); return; } }();
      progNote("}"); expect(line, LEVEL::INFO, catNow(), "returned " + t, true); break; }
   case 13: { progNote("block-throw{"); try { LOG_BLOCK_INFO { line = __LINE__; LOGGER << LOG_CAT("x").m_cat << t; LOGGER.setTempCategory("thrown" + t); statements(kinds, depth - 1, n); throw Abandon(); } } catch (Abandon&) {}
      progNote("}"); expect(line, LEVEL::INFO, "thrown" + t, "x" + t, true); break; }
   case 14: { progNote("expr-throw("); auto f = [&]() -> const char* { statements(kinds, depth - 1, n); throw Abandon(); };
      try { line = __LINE__; LOG_WARN << LOG_CAT("lost" + t) << std::hex << "thrown " << t << f() << " right"; } catch (Abandon&) {}
      progNote(")"); expect(line, LEVEL::WARN, "lost" + t, "thrown " + t, true); break; }
   case 15: { progNote("filtered-expr("); auto f = [&]() { statements(kinds, depth - 1, n); return "value"; };
      line = __LINE__; LOG_TRC << LOG_CAT("none") << t << f();
      progNote(")"); if (pass(LEVEL::TRACE)) expect(line, LEVEL::TRACE, "none", t + "value"); break; }
   case 16: { progNote("block-cat{"); LOG_BLOCK_WARN { line = __LINE__; LOGGER << "named " << t; LOGGER.setTempCategory("named" + t); statements(kinds, depth - 1, n); LOGGER << " end"; }
      progNote("}"); expect(line, LEVEL::WARN, "named" + t, "named " + t + " end"); break; }
   case 17: { progNote("arg("); auto f = [&](const std::string& s) { statements(kinds, depth - 1, n); return s + "!"; };
      // the argument comes before the statement is begun
      std::string a = f(t); line = __LINE__; LOG_ERR << a;
      progNote(")"); expect(line, LEVEL::ERROR, catNow(), t + "!"); break; }
   case 18: { progNote("block-if-else{"); LOG_BLOCK_INFO if (id > 0) { line = __LINE__; LOGGER << "if " << t; statements(kinds, depth - 1, n); } else LOGGER << "else";
      progNote("}"); expect(line, LEVEL::INFO, catNow(), "if " + t); break; }
   case 19: { progNote("two-blocks{"); LOG_BLOCK_INFO { LOG_BLOCK_ERR { line = __LINE__; LOGGER << "inner " << t; statements(kinds, depth - 1, n); }
         expect(line, LEVEL::ERROR, catNow(), "inner " + t); LOGGER << "outer " << t; }
      progNote("}"); expect(line, LEVEL::INFO, catNow(), "outer " + t); break; }
   }
}
int statements(int kinds, int depth, int& n) { statement(kinds, depth, n, true); return 0; }

// The messages of one thread against what it expects.
void compare(const std::vector<Spec>& got, const Model& m, const char* who) {
   // (an optional one was emitted if the next one received is it)
   std::string text = S("%s: %s\n", who, m.prog.c_str());
   for (auto& e : m.out) text += S("  expected%s %s\n", e.optional ? " (or nothing)" : "", show(e.s).c_str());
   for (auto& g : got) text += S("  received %s\n", show(g).c_str());
   if (mc::noting()) mc::note("%s", text.c_str());
   size_t i = 0;
   for (auto& e : m.out) {
      if (i < got.size() && got[i] == e.s) { ++i; continue; }
      if (e.optional) continue;
      mc::fail("%s is missing or altered\n%s", show(e.s).c_str(), text.c_str());
   }
   MC_CHECK(i == got.size(), "a message nobody logged: %s\n%s", show(got[i]).c_str(), text.c_str());
   MC_CHECK(m.blocks == 0, "a filtered-out block was executed\n%s", text.c_str());
   MC_CHECK(m.formats == 0, "the argument of a filtered-out statement was formatted\n%s", text.c_str());
}

void programs(int length, int depth, int kinds, int threads, int preempt, bool instance, int rt, int depth2 = -1) {
   ts::opt.preempt = preempt;
   if (instance) ts::opt.leaks = false;
   std::vector<Spec>* got;
   { ts::Quiet q; got = new std::vector<Spec>; for (auto& m : models) m = new Model; }
   // with tracing, or without it
   int level = rt < 0 ? (ts::choose(2) ? LEVEL::TRACE : LEVEL::DEBUG) : rt;
   std::unique_ptr<falcon::Logger> lg;
   if (instance) {
      theLogger = &falcon::Logger::instance();
      MC_CHECK(&original() == theLogger && &falcon::Logger::instance() == theLogger, "LOGGER is not the one logger of the application");
   }
   else { lg = std::make_unique<falcon::Logger>(); theLogger = lg.get(); }
   theLogger->level((LEVEL)level);
   auto tape = std::make_shared<Tape>(got);
   theLogger->addListener(tape);
   auto run = [&]() {
      { ts::Quiet q; me().level = level; }
      MC_CHECK(theLogger->getCategory() == "", "a thread begins with the category '%s'", theLogger->getCategory().c_str());
      int n = 0;
      for (int i = 0; i < length; ++i) statement(kinds, ts::self() > 1 && depth2 >= 0 ? depth2 : depth, n, false);
      // what has to be as if nothing had happened
      int line = __LINE__; LOG_INFO << "last " << tag() << 255;
      expect(line, LEVEL::INFO, catNow(), "last " + tag() + "255");
      MC_CHECK(theLogger->getCategory() == catNow(), "the category is '%s' instead of '%s'", theLogger->getCategory().c_str(), catNow().c_str());
   };
   std::thread other;
   if (threads > 1) other = std::thread(run);
   run();
   if (threads > 1) other.join();
   { ts::Quiet q; ts::opt.preempt = 0; }
   ts::quiesce();
   { ts::Quiet q;
     std::vector<Spec> a, b;
     for (auto& g : *got) ((threads > 1 && (g.text.find('B') != std::string::npos)) ? b : a).push_back(g);
     compare(a, *models[0], "T0");
     if (threads > 1) compare(b, *models[2], "T2");
     mc::state(mc::hash2(mc::hashStr(models[0]->prog), mc::hashStr(models[2]->prog)));
     uint64_t h = 1; for (auto& g : *got) h = mc::hash2(h, mc::hashStr(g.text, g.level)); mc::outcome(h); }
   if (lg) lg.reset();
   if (instance) theLogger->stop();
   tape.reset();
   theLogger = nullptr;
   ts::Quiet q;
   delete got; for (auto& m : models) { delete m; m = nullptr; }
}
#endif

#if PROP == 21
// Long statements, many of them, many threads one after another, and deep nesting.
void volume() {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   static const int sizes[] = {0, 1, 15, 16, 22, 23, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 100000, 300000};
   static const int depths[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
   int what = ts::choose(7);
   std::vector<Spec>* got; { ts::Quiet q; got = new std::vector<Spec>; for (auto& m : models) m = new Model; }
   auto lg = std::make_unique<falcon::Logger>(); theLogger = lg.get();
   auto tape = std::make_shared<Tape>(got);
   theLogger->addListener(tape);
   int line = 0;
   if (what < 3) {
      int size = sizes[ts::choose(sizeof sizes / sizeof *sizes)];
      std::string big(size, 'x');
      if (what == 0) { line = __LINE__; LOG_INFO << big; expect(line, LEVEL::INFO, "", big); }
      if (what == 1) {
         // piece by piece
         LOG_BLOCK_INFO { line = __LINE__; for (int i = 0; i < size; i += 7) LOGGER << "1234567"; }
         std::string x; for (int i = 0; i < size; i += 7) x += "1234567";
         expect(line, LEVEL::INFO, "", x);
      }
      if (what == 2) {
         // around another one
         auto f = [&](const std::string& y) { int l = __LINE__; LOG_WARN << "inner" << y; expect(l, LEVEL::WARN, "", "inner" + y); return y; };
         line = __LINE__; LOG_INFO << big << f(big) << big << f("") << 1; expect(line, LEVEL::INFO, "", big + big + big + "1");
      }
      line = __LINE__; LOG_ERR << LOG_CAT("cat" + big) << "after"; expect(line, LEVEL::ERROR, "cat" + big, "after");
      LOG_CATEGORY(big + "c");
      { ts::Quiet q; me().cat = big + "c"; }
      { ts::Quiet q; mc::state(mc::hash2(what, size)); }
   }
   else if (what < 5) {
      // deep down
      int depth = depths[ts::choose(sizeof depths / sizeof *depths)];
      LOG_CATEGORY("deep");
      { ts::Quiet q; me().cat = "deep"; }
      std::function<std::string(int)> f = [&](int d) -> std::string {
         if (!d) return "bottom";
         std::string cat = d % 3 ? "" : "cat" + std::to_string(d);
         if (what == 3) { int l = __LINE__; LOG_INFO << LOG_CAT(cat.empty() ? "deep" : cat) << std::hex << d << '[' << f(d - 1) << ']' << 255; expect(l, LEVEL::INFO, cat.empty() ? "deep" : cat, S("%x", d) + (d == 1 ? "[bottom]ff" : "[level " + std::to_string(d) + "]ff")); }
         else { int l; LOG_BLOCK_ERR { l = __LINE__; LOGGER << d << '['; LOGGER << f(d - 1); LOGGER << ']'; } expect(l, LEVEL::ERROR, "deep", std::to_string(d) + (d == 1 ? "[bottom]" : "[level " + std::to_string(d) + "]")); }
         return "level " + std::to_string(d + 1);
      };
      f(depth);
      { ts::Quiet q; mc::state(mc::hash2(what, depth)); }
   }
   else if (what == 5) {
      for (int i = 0; i < 70000; ++i) { line = __LINE__; LOG_INFO << i; expect(line, LEVEL::INFO, "", std::to_string(i)); if (i % 1000 == 0) ts::quiesce(); }
   }
   else for (int i = 0; i < 300; ++i) std::thread([&, i]() {
      std::string c = theLogger->getCategory();
      MC_CHECK(c == "", "a thread begins with the category '%s'", c.c_str());
      int l = __LINE__; LOG_WARN << std::hex << i << LOG_CAT("x").m_cat;
      { ts::Quiet q; models[0]->out.push_back({Spec{__FILE__, l, LEVEL::WARN, "", S("%xx", i)}, false}); }
      LOG_CATEGORY("cat" + std::to_string(i));
      l = __LINE__; LOG_WARN << i;
      { ts::Quiet q; models[0]->out.push_back({Spec{__FILE__, l, LEVEL::WARN, "cat" + std::to_string(i), std::to_string(i)}, false}); }
   }).join();
   line = __LINE__; LOG_INFO << "last " << 255; expect(line, LEVEL::INFO, catNow(), "last 255");
   ts::quiesce();
   { ts::Quiet q;
     auto& m = *models[0];
     for (size_t i = 0; i < got->size() || i < m.out.size(); ++i) {
        MC_CHECK(i < got->size(), "message %zu is missing: %s", i, show(m.out[i].s).c_str());
        MC_CHECK(i < m.out.size(), "message %zu was logged by nobody: %s", i, show((*got)[i]).c_str());
        MC_CHECK((*got)[i] == m.out[i].s, "message %zu is altered: %s (%zu characters) instead of %s (%zu characters)", i, show((*got)[i]).c_str(), (*got)[i].text.size(), show(m.out[i].s).c_str(), m.out[i].s.text.size());
     } }
   lg.reset(); tape.reset(); theLogger = nullptr;
   ts::Quiet q;
   delete got; for (auto& m : models) { delete m; m = nullptr; }
}
// All sorts of arguments, in all pairs; categories at any place.
void contents() {
   ts::opt.preempt = 0;
   std::vector<Spec>* got; { ts::Quiet q; got = new std::vector<Spec>; for (auto& m : models) m = new Model; }
   auto lg = std::make_unique<falcon::Logger>(); theLogger = lg.get();
   auto tape = std::make_shared<Tape>(got);
   theLogger->addListener(tape);
   enum { N = 19 };
   int a = ts::choose(N), b = ts::choose(N), where = ts::choose(6), byte = a == 0 ? ts::choose(256) : 'x';
   static const std::string nul("a\0b\0", 4), odd("%s%n\n\t\\\"\x7f\xff\r", 11), empty;
   const char* cs = "c string"; char arr[8] = "array"; long double ld = 2.5L; std::string_view sv("view of text", 4);
   enum E { five = 5 };
   auto text = [&](int k) -> std::string {
      switch (k) {
      case 0: return std::string(1, (char)byte); case 1: return nul; case 2: return odd; case 3: return ""; case 4: return "c string"; case 5: return "array";
      case 6: return "view"; case 7: return "2.5"; case 8: return "-9223372036854775808"; case 9: return "18446744073709551615"; case 10: return "1"; case 11: return "-1"; case 12: return "5";
      case 13: return "0x10"; case 14: return "temporary"; case 15: return "   +7"; case 16: return "inf"; case 17: return "65535"; case 18: return "probe";
      }
      return "";
   };
   auto put = [&](auto&& o, int k) {
      switch (k) {
      case 0: o << (char)byte; break; case 1: o << nul; break; case 2: o << odd; break; case 3: o << empty; break; case 4: o << cs; break; case 5: o << arr; break;
      case 6: o << sv; break; case 7: o << ld; break; case 8: o << LLONG_MIN; break; case 9: o << ULLONG_MAX; break; case 10: o << true; break; case 11: o << -1; break; case 12: o << five; break;
      case 13: o << (void*)16; break; case 14: o << std::string("temporary"); break; case 15: o << std::setw(5) << std::showpos << 7 << std::noshowpos; break; case 16: o << 1.0 / 0.0; break; case 17: o << (unsigned short)65535; break; case 18: o << Probe(); break;
      }
   };
   LOG_CATEGORY("usual"); { ts::Quiet q; me().cat = "usual"; }
   std::string want = text(a) + text(b), cat = "usual", name("named\0x", 7);
   int line = 0;
   switch (where) {
   case 0: { line = __LINE__; auto&& e = LOG_INFO; put(e, a); put(e, b); break; }
   case 1: { cat = name; line = __LINE__; auto&& e = LOG_INFO; std::move(e) << LOG_CAT(name); put(e, a); put(e, b); break; }
   case 2: { cat = name; line = __LINE__; auto&& e = LOG_INFO; put(e, a); put(e, b); std::move(e) << LOG_CAT("first") << ""; std::move(e) << LOG_CAT(name); break; }
   case 3: { LOG_BLOCK_INFO { line = __LINE__; put(LOGGER, a); put(LOGGER, b); } break; }
   case 4: { LOG_BLOCK_INFO { line = __LINE__; put(LOGGER, a); LOGGER.setTempCategory(name); put(LOGGER, b); } cat = name; break; }
   case 5: { LOG_BLOCK_INFO { line = __LINE__; for (int i = 0; i < 3; ++i) { put(LOGGER, a); put(LOGGER, b); } } want = want + want + want; break; }
   }
   { ts::Quiet q; me().formats = 0; }
   expect(line, LEVEL::INFO, cat, want);
   line = __LINE__; LOG_INFO << "after"; expect(line, LEVEL::INFO, "usual", "after");
   ts::quiesce();
   { ts::Quiet q; compare(*got, *models[0], "T0"); mc::state(mc::hash2(a * N + b, where * 256 + byte)); }
   lg.reset(); tape.reset(); theLogger = nullptr;
   ts::Quiet q;
   delete got; for (auto& m : models) { delete m; m = nullptr; }
}
#endif
#if PROP == 22
const char* const exprs[] = {"A", "A|B", ".*::I"};
const char* const cats[] = {"", "A", "B", "x::I"};
bool matches(int e, int c) { static const int t[3][4] = {{0, 1, 0, 0}, {0, 1, 1, 0}, {0, 0, 0, 1}}; return t[e][c]; }

struct Setting { int sys = 5, dflt = 5, expr = -1, upto = 0; };
// How many lines of the message the default output may carry.
void allowed(const Setting& s, int level, int cat, int& lo, int& hi) {
   bool ordinary = level <= s.sys && level <= s.dflt, special = s.expr >= 0 && level <= s.upto && matches(s.expr, cat);
   lo = ordinary || special; hi = int(ordinary) + int(special);
   // a message without a category passes every category filter
   if (s.expr >= 0 && level <= s.upto && cat == 0) hi = int(ordinary) + 1;
}
struct Lines : std::streambuf {
   std::string text;
   int overflow(int c) override { ts::Quiet q; text.push_back((char)c); return c; }
   std::streamsize xsputn(const char* s, std::streamsize n) override { ts::Quiet q; text.append(s, n); return n; }
   int count(const std::string& end) { int n = 0; std::string e = " " + end + "\n"; for (size_t p = 0; (p = text.find(e, p)) != std::string::npos; p += e.size()) ++n; return n; }
};
std::string describe(const Setting& s) { return S("logger level %d, default listener level %d, filter %s up to %d", s.sys, s.dflt, s.expr < 0 ? "none" : exprs[s.expr], s.upto); }

// Every sequence of filter and level changes, with all kinds of messages after each.
void histories(int depth) {
   ts::opt.preempt = 0;
   Lines* lines; { ts::Quiet q; lines = new Lines; }
   auto lg = std::make_unique<falcon::Logger>(); theLogger = lg.get();
   auto out = std::make_unique<std::ostream>(lines);
   lg->defaultListener()->writeOn(out.get());
   Setting now; std::string hist;
   int serial = 0;
   auto burst = [&]() {
      int first = serial;
      for (int l = 0; l < 6; ++l) for (int c = 0; c < 4; ++c) {
         std::string t; { ts::Quiet q; t = S("message%d.", serial++); }
         lg->log("f", 1, (LEVEL)l, cats[c], t);
         ts::Quiet q; t = std::string(); ts::observe(serial);
      }
      ts::quiesce();
      ts::Quiet q;
      int k = first;
      for (int l = 0; l < 6; ++l) for (int c = 0; c < 4; ++c, ++k) {
         int lo, hi; allowed(now, l, c, lo, hi);
         int n = lines->count(S("message%d.", k));
         MC_CHECK(n >= lo && n <= hi, "the default output carries %d lines of a message of level %d, category '%s' (%d to %d expected), after %s (%s)", n, l, cats[c], lo, hi, hist.c_str(), describe(now).c_str());
         mc::state(mc::hash2(n * 100 + l * 10 + c, mc::hashStr(describe(now))));
      }
      lines->text.clear();
   };
   auto did = [&](const std::string& s) { ts::Quiet q; hist += s + "; "; };
   burst();
   for (int i = 0; i < depth; ++i) {
      int o = ts::choose(now.expr < 0 ? 17 : 11);
      if (o < 9) {
         static const int upto[] = {1, 3, 5};
         int e = o / 3, l = upto[o % 3];
         lg->categoryFilter(exprs[e], (LEVEL)l);
         now.expr = e; now.upto = l;
         did(S("categoryFilter(%s, %d)", exprs[e], l));
      }
      else if (o == 9) { lg->clearFilter(); now.expr = -1; did("clearFilter()"); }
      else if (o == 10) {
         int sys = lg->level(), df = lg->defaultListener()->level(); bool threw = false;
         try { lg->categoryFilter("*", falcon::LLTRACE); } catch (LS::InvalidCategory&) { threw = true; }
         did("categoryFilter(*)");
         MC_CHECK(threw, "an invalid category filter is accepted");
         MC_CHECK(sys == lg->level() && df == lg->defaultListener()->level(), "a refused filter changed the levels");
      }
      else if (o < 14) { static const int l[] = {0, 2, 5}; now.sys = l[o - 11]; lg->level((LEVEL)now.sys); did(S("level(%d)", now.sys)); }
      else { static const int l[] = {1, 3, 5}; now.dflt = l[o - 14]; lg->defaultListener()->level((LEVEL)now.dflt); did(S("defaultListener()->level(%d)", now.dflt)); }
      if (now.expr < 0) MC_CHECK(lg->level() == now.sys && lg->defaultListener()->level() == now.dflt, "the levels are %d and %d instead of %d and %d after %s", (int)lg->level(), (int)lg->defaultListener()->level(), now.sys, now.dflt, hist.c_str());
      burst();
   }
   if (now.expr >= 0) {
      lg->clearFilter(); now.expr = -1; did("clearFilter()");
      MC_CHECK(lg->level() == now.sys && lg->defaultListener()->level() == now.dflt, "the levels are %d and %d instead of %d and %d after %s", (int)lg->level(), (int)lg->defaultListener()->level(), now.sys, now.dflt, hist.c_str());
      burst();
   }
   LS::Diags d; lg->getDiags(d);
   MC_CHECK(d.m_activeListeners == 1 && d.m_pendingListeners == 0, "%zu listeners are left after clearing the filter", d.m_activeListeners + d.m_pendingListeners);
   if (mc::noting()) mc::note("%s\n", hist.c_str());
   lg.reset(); theLogger = nullptr;
   out.reset();
   ts::Quiet q; delete lines; hist = std::string();
}

// A great number of filters, one after another.
void cycles(int times) {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   int how = ts::choose(3), busy = ts::choose(2), sys = 1 + ts::choose(5), dflt = 1 + ts::choose(5);
   Lines* lines; { ts::Quiet q; lines = new Lines; }
   auto lg = std::make_unique<falcon::Logger>(); theLogger = lg.get();
   auto out = std::make_unique<std::ostream>(lines);
   lg->defaultListener()->writeOn(out.get());
   lg->level((LEVEL)sys); lg->defaultListener()->level((LEVEL)dflt);
   Setting now; now.sys = sys; now.dflt = dflt;
   auto send = [&](const char* what) {
      lg->log("f", 1, LEVEL::TRACE, "A", "one."); lg->log("f", 1, LEVEL::CRITICAL, "B", "two.");
      ts::quiesce();
      ts::Quiet q;
      int lo, hi, n;
      allowed(now, LEVEL::TRACE, 1, lo, hi); n = lines->count("one.");
      MC_CHECK(n >= lo && n <= hi, "%s the default output carries %d lines of a message of level 5, category A (%d to %d expected; %s)", what, n, lo, hi, describe(now).c_str());
      allowed(now, LEVEL::CRITICAL, 2, lo, hi); n = lines->count("two.");
      MC_CHECK(n >= lo && n <= hi, "%s the default output carries %d lines of a message of level 0, category B (%d to %d expected; %s)", what, n, lo, hi, describe(now).c_str());
      lines->text.clear();
   };
   for (int i = 0; i < times; ++i) {
      int e = i % 2 ? 2 : 0, l = 1 + i % 5;
      lg->categoryFilter(exprs[e], (LEVEL)l);
      now.expr = e; now.upto = l;
      if (busy) send("with a filter");
      if (how == 0 || (how == 1 && i % 3 == 2)) {
         lg->clearFilter(); now.expr = -1;
         MC_CHECK(lg->level() == sys && lg->defaultListener()->level() == dflt, "the levels are %d and %d instead of %d and %d after %d filters", (int)lg->level(), (int)lg->defaultListener()->level(), sys, dflt, i + 1);
         if (busy) send("after a filter");
      }
   }
   lg->clearFilter(); now.expr = -1;
   MC_CHECK(lg->level() == sys && lg->defaultListener()->level() == dflt, "the levels are %d and %d instead of %d and %d after %d filters", (int)lg->level(), (int)lg->defaultListener()->level(), sys, dflt, times);
   send("at the end"); send("at the end");
   LS::Diags d; lg->getDiags(d);
   MC_CHECK(d.m_activeListeners == 1 && d.m_pendingListeners == 0, "%zu listeners are left after clearing the filter", d.m_activeListeners + d.m_pendingListeners);
   { ts::Quiet q; mc::state(mc::hash2(how * 2 + busy, sys * 8 + dflt)); }
   lg.reset(); theLogger = nullptr;
   out.reset();
   ts::Quiet q; delete lines;
}

// Filters set and cleared while another thread logs and the service delivers: the ordinary messages
// arrive all the same, and no message from outside of the filter arrives before it is cleared.
void whileLogging(int changes, int preempt) {
   ts::opt.preempt = preempt;
   Lines* lines; { ts::Quiet q; lines = new Lines; }
   auto lg = std::make_unique<falcon::Logger>(); theLogger = lg.get();
   auto out = std::make_unique<std::ostream>(lines);
   lg->defaultListener()->writeOn(out.get());
   int sys = 1 + 2 * ts::choose(2), dflt = 1 + 2 * ts::choose(3);
   int own = ts::choose(4);
   static const struct { int level, cat; } kinds[] = {{1, 2}, {1, 1}, {5, 2}, {5, 1}};
   lg->level((LEVEL)sys); lg->defaultListener()->level((LEVEL)dflt);
   std::vector<int> prog; for (int i = 0; i < changes; ++i) prog.push_back(ts::choose(3));
   bool clears = false; for (int p : prog) if (p == 2) clears = true;
   uint64_t firstSet[2] = {NEVERT, NEVERT}, sent[2][2]; uint64_t clock = 0;
   std::thread logger([&]() {
      for (int i = 0; i < 2; ++i) {
         ts::point();
         { ts::Quiet q; sent[i][0] = ++clock; ts::observe(1); }
         lg->log("f", 1, (LEVEL)kinds[own].level, cats[kinds[own].cat], i ? "second." : "first.");
         ts::Quiet q; sent[i][1] = ++clock; ts::observe(2);
      }
   });
   for (int p : prog) {
      ts::point();
      { ts::Quiet q; if (firstSet[0] == NEVERT) { firstSet[0] = ++clock; ts::observe(3); } }
      if (p == 2) lg->clearFilter(); else lg->categoryFilter(exprs[p ? 2 : 0], falcon::LLTRACE);
      { ts::Quiet q; if (firstSet[1] == NEVERT) { firstSet[1] = ++clock; ts::observe(4); } }
   }
   logger.join();
   { ts::Quiet q; ts::opt.preempt = 0; }
   ts::quiesce();
   { ts::Quiet q;
     bool ordinary = kinds[own].level <= sys && kinds[own].level <= dflt;
     for (int i = 0; i < 2; ++i) {
        int n = lines->count(i ? "second." : "first.");
        if (ordinary) MC_CHECK(n >= 1, "an ordinary message got lost while the filter was changed");
        // the one filter set is in force for messages logged later
        if (prog.size() == 1 && prog[0] == 0 && kinds[own].cat == 1 && sent[i][0] > firstSet[1]) MC_CHECK(n >= 1, "a message of the filter's category got lost");
        MC_CHECK(n <= 1 + (int)prog.size(), "a message was written %d times", n);
        // nothing from outside of the filter is let through by setting one
        if (!clears && prog.size() == 1 && kinds[own].cat == 2 && !ordinary) MC_CHECK(n == 0, "a message that was filtered out before, and does not belong to the filter's category, was written");
        if (mc::noting()) mc::note("%s: %d lines\n", i ? "second" : "first", n);
        mc::outcome(n * 2 + i);
     } }
   lg->clearFilter();
   MC_CHECK(lg->level() == sys && lg->defaultListener()->level() == dflt, "the levels are %d and %d instead of %d and %d after all", (int)lg->level(), (int)lg->defaultListener()->level(), sys, dflt);
   lg.reset(); theLogger = nullptr;
   out.reset();
   ts::Quiet q; delete lines;
}
#endif
}

static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
   auto add = [&](const char* n, std::function<void()> f, std::string b, double cap = 120, bool forked = false) { v.push_back({n, f, forked, cap, b}); };
#if PROP == 21
   add("sequences", [=]() { programs(th ? 6 : 4, 0, KINDS, 1, 0, false, -1); }, S("every sequence of %d of 8 kinds of simple statements", th ? 6 : 4));
   add("nested", [=]() { programs(2, 1, KINDS, 1, 0, false, -1); }, "every sequence of 2 statements of 20 kinds with 1 of 7 nested");
   add("nested-2", [=]() { programs(1, th ? 4 : 3, KINDS, 1, 0, false, -1); }, S("every statement with %d levels of nesting, of 20 kinds", th ? 4 : 3));
   if (th) add("nested-2x2", [=]() { programs(2, 2, KINDS, 1, 0, false, LEVEL::DEBUG); }, "every sequence of 2 statements with 2 levels of nesting, of 20 kinds", 600);
   add("threads", [=]() { programs(1, 0, KINDS, 2, th ? 3 : 2, false, LEVEL::DEBUG); }, S("2 threads with every program of 1 of 8 simple statements and a last one, %d preemptions", th ? 3 : 2));
   add("threads-nested", [=]() { programs(1, 1, KINDS, 2, 1, false, LEVEL::DEBUG, 0); }, "2 threads with every program of 1 of 20 statements with 1 nested, and of 1 of 8 statements, and a last one, 1 preemption", 300);
   if (th) add("threads-nested-both", [=]() { programs(1, 1, KINDS, 2, 1, false, LEVEL::DEBUG); }, "2 threads with every program of 1 of 20 statements with 1 nested and a last one, 1 preemption", 600);
   add("volume", []() { volume(); }, "statements of 30 lengths up to 300000 characters in 3 forms, 24 depths of nesting up to 300 in 2 forms, 70000 statements, 300 threads one after another");
   add("contents", []() { contents(); }, "every pair of 19 kinds of arguments (every character), in 6 forms of statements with the category in different places");
   add("instance", [=]() { programs(1, 0, KINDS, 2, 0, true, LEVEL::DEBUG); }, "2 threads, every statement through the application's logger, in processes of their own", 120, true);
#elif PROP == 22
   add("histories", [=]() { histories(th ? 5 : 4); }, S("every sequence of %d of 17 changes (9 filters, clear, invalid, 3 levels of the logger and of the default listener), with 24 messages after each", th ? 5 : 4), th ? 800 : 200);
   add("cycles", [=]() { cycles(th ? 2000 : 300); }, S("%d filters one after another, cleared after each, each third or not at all, with messages in between or not, 5 levels of the logger and the default listener", th ? 2000 : 300));
   add("while-logging", [=]() { whileLogging(1, th ? 4 : 2); }, S("1 change against 2 messages of 4 kinds, 6 level settings, %d preemptions", th ? 4 : 2), 200);
   add("while-logging-2", [=]() { whileLogging(2, th ? 2 : 1); }, S("2 changes against 2 messages of 4 kinds, 6 level settings, %d preemptions", th ? 2 : 1), 200);
#endif
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
