// The test framework, properties C28-C32: every combination of test behaviours, texts and
// options within bounds, on the real framework, against an independent reference.
#include "seqrt.h"
#include <falcon/fut/fut.h>
#include <falcon/fut/marktime.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
#include <vector>

using namespace falcon::testing;
using mc::choose;

namespace {

std::string show(const std::string& s) {
   std::string r = "\"";
   for (unsigned char c : s.substr(0, 200)) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c; }
   return r + "\"";
}

// ---- a test doing what it is told --------------------------------------------
enum Act { PASS, CHECK, THROW_STD, THROW_INT, ERR, OUT, CHECK_THEN_ERR, SOFT_FAIL, OUT_THEN_CHECK, SETUP_THROW, SETUP_CHECK, TEARDOWN_CHECK, TEARDOWN_THROW, ERR_THEN_THROW, EXPECT_MISSING_THROW, SETUP_ERR, API_FAIL, OUT_FLAGS, SETUP_THROW_INT, TEARDOWN_THROW_INT, SETUP_OUT, TEARDOWN_OUT, FAIL_THEN_THROW, SWAPS, STATUS_FAIL, ERR_NUL, NACTS };
const char* actName[] = {"pass", "failed check", "throw std", "throw int", "write stderr", "write stdout", "failed throw check, then stderr", "FAIL()", "stdout, then failed check", "SetUp throws", "SetUp check fails", "TearDown check fails", "TearDown throws", "stderr, then throw", "missing exception", "SetUp writes stderr", "fail()", "stdout with changed formatting", "SetUp throws int", "TearDown throws int", "SetUp writes stdout", "TearDown writes stdout", "FAIL(), then throw", "replaces the streams", "status(FAIL)", "stderr, a NUL"};
struct Odd {};

std::vector<std::string>* g_events = nullptr;
std::streambuf *g_origOut = nullptr, *g_origErr = nullptr;      // the ones in place around the run
// The formatting set on the standard streams around the run, not the usual one.
void setFormat(bool odd) {
   for (std::ostream* o : {&std::cout, &std::cerr}) { o->flags((o->flags() & std::ios_base::unitbuf) | (odd ? std::ios_base::hex | std::ios_base::showbase : std::ios_base::dec | std::ios_base::skipws)); o->precision(odd ? 3 : 6); o->width(0); o->fill(odd ? '#' : ' '); }
}
void checkFormat(const char* when) {
   for (std::ostream* o : {&std::cout, &std::cerr})
      if ((o->flags() & ~std::ios_base::unitbuf) != (std::ios_base::hex | std::ios_base::showbase) || o->precision() != 3 || o->width() != 0 || o->fill() != '#') mc::fail("the formatting of a standard stream is not as it was before the run %s", when);
}
bool g_capture = true;

struct Prog : public TestCase {
   std::string id;
   Act act = PASS;
   std::string msg = "the message", out, err;
   int fixture = 0;               // private to the instance
   int runs = 0;
   bool reachedEnd = false;
   std::ostringstream mine;
   void ev(const char* what) { if (g_events) g_events->push_back(id + "." + what); }
   void checkStreams(const char* when) {
      bool same = std::cout.rdbuf() == g_origOut && std::cerr.rdbuf() == g_origErr;
      bool any = std::cout.rdbuf() == g_origOut || std::cerr.rdbuf() == g_origErr;
      if (!g_capture) { if (!same) mc::fail("capture is off, but the standard streams are replaced (%s of %s)", when, id.c_str()); }
      else if (any) mc::fail("the standard streams are not captured (%s of %s)", when, id.c_str());
   }
   void SetUp() override {
      ev("setup"); checkStreams("SetUp"); if (g_capture) checkFormat("at the beginning of a test");
      ++fixture;
      if (act == SETUP_ERR) std::cerr << err;
      if (act == SETUP_OUT) std::cout << out;
      if (act == SETUP_THROW_INT) throw 6;
      if (act == SETUP_THROW) throw std::runtime_error(msg);
      if (act == SETUP_CHECK) setupCheck();
   }
   void setupCheck() { EXPECT_EQ(1, fixture + 100); }
   void TearDown() override {
      ev("teardown"); checkStreams("TearDown");
      --fixture;
      if (act == TEARDOWN_CHECK) tearCheck();
      if (act == TEARDOWN_OUT) std::cout << out;
      if (act == TEARDOWN_THROW_INT) throw 7;
      if (act == TEARDOWN_THROW) throw std::runtime_error(msg);
   }
   void tearCheck() { EXPECT_EQ(1, fixture + 100); }
   void nop() {}
   void test() override {
      ev("body"); checkStreams("body"); ++runs; reachedEnd = false;
      switch (act) {
      case CHECK: EXPECT_EQ(1, fixture + 100); break;
      case THROW_STD: throw std::runtime_error(msg);
      case THROW_INT: throw 5;
      case ERR: std::cerr << err; break;
      case OUT: std::cout << out; break;
      case CHECK_THEN_ERR: EXPECT_THROW(nop(), std::runtime_error); std::cerr << err; break;
      case SOFT_FAIL: FAIL("said so"); break;
      case OUT_THEN_CHECK: std::cout << out; EXPECT_TRUE(fixture == 77); break;
      case ERR_THEN_THROW: std::cerr << err; throw Odd();
      case EXPECT_MISSING_THROW: EXPECT_ANY_THROW(nop()); break;
      case API_FAIL: fail("afile", 12, msg.c_str()); break;
      case OUT_FLAGS: std::cout << out; std::cout << std::oct << std::showbase << std::scientific << std::uppercase << std::setfill('*') << std::setprecision(1); std::cerr << std::oct << std::setfill('*') << std::setprecision(2); if (g_capture) { std::cout << std::setw(60); std::cerr << std::setw(40); } /* else the next texts that tests write would be padded */ break;
      case FAIL_THEN_THROW: FAIL("said so"); throw std::runtime_error(msg);
      case STATUS_FAIL: status(TestCase::FAIL); break;
      case ERR_NUL: std::cerr << '\0'; break;
      case SWAPS: if (g_capture) { std::cout.rdbuf(mine.rdbuf()); std::cerr.rdbuf(mine.rdbuf()); std::cerr << "for me only"; } break;
      default: break;
      }
      reachedEnd = true;
   }
};
bool passes(Act a, bool capture) {
   switch (a) {
   case PASS: case OUT: case OUT_FLAGS: case SETUP_OUT: case TEARDOWN_OUT: case SWAPS: return true;
   case ERR: case SETUP_ERR: case ERR_NUL: return !capture;
   default: return false;
   }
}
bool bodyRuns(Act a) { return a != SETUP_THROW && a != SETUP_THROW_INT; }
bool tearRuns(Act a) { return bodyRuns(a) && a != FAIL_THEN_THROW && a != THROW_STD && a != THROW_INT && a != ERR_THEN_THROW; }
std::string outOf(const Prog& t) { return t.act == OUT || t.act == OUT_THEN_CHECK || t.act == OUT_FLAGS || t.act == SETUP_OUT || t.act == TEARDOWN_OUT ? t.out : ""; }
std::string errOf(const Prog& t) { if (t.act == ERR_NUL) return std::string(1, '\0'); return t.act == ERR || t.act == CHECK_THEN_ERR || t.act == ERR_THEN_THROW || t.act == SETUP_ERR ? t.err : ""; }

// ---- the surroundings of a run -------------------------------------------------
struct Streams {
   std::ostringstream out, err;
   std::streambuf *o, *e;
   bool one = false;       // standard error goes where standard output goes
   explicit Streams(bool shared = false): one(shared) { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(one ? out.rdbuf() : err.rdbuf()); g_origOut = out.rdbuf(); g_origErr = one ? out.rdbuf() : err.rdbuf(); setFormat(true); }
   ~Streams() { setFormat(false); std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
   void intact(const char* when) { MC_CHECK(std::cout.rdbuf() == out.rdbuf() && std::cerr.rdbuf() == (one ? out : err).rdbuf(), "the standard streams are not back in place %s", when); if (g_capture) checkFormat(when); }
};
int args(UnitTest* ut, std::vector<std::string> a, bool viaMain) {
   std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]);
   v.push_back(nullptr);
   return viaMain ? ut->main((int)a.size(), v.data()) : ut->parseParams((int)a.size(), v.data());
}
std::string xmlFile() { static std::string f; static pid_t who = 0; if (who != getpid()) { who = getpid(); f = "report" + std::to_string(who) + ".xml"; } return f; }
std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); std::ostringstream s; s << in.rdbuf(); return s.str(); }

// ---- a strict parser of the little XML needed ----------------------------------
struct Node { std::string name, text; std::map<std::string, std::string> at; std::vector<Node> kids; };
// Length of the character at a place of a text in UTF-8, 0 if there is none that XML allows (control characters are up to the caller).
size_t utf8(const std::string& s, size_t p) {
   auto b = [&](size_t k) -> unsigned { return p + k < s.size() ? (unsigned char)s[p + k] : 0u; };
   auto tail = [&](size_t k) { return b(k) >= 0x80 && b(k) <= 0xbf; };
   if (b(0) < 0x80) return 1;
   if (b(0) >= 0xc2 && b(0) <= 0xdf) return tail(1) ? 2 : 0;
   if (b(0) >= 0xe0 && b(0) <= 0xef) {
      if (!tail(1) || !tail(2)) return 0;
      if (b(0) == 0xe0 && b(1) < 0xa0) return 0;
      if (b(0) == 0xed && b(1) > 0x9f) return 0;
      if (b(0) == 0xef && b(1) == 0xbf && b(2) >= 0xbe) return 0;
      return 3;
   }
   if (b(0) >= 0xf0 && b(0) <= 0xf4) {
      if (!tail(1) || !tail(2) || !tail(3)) return 0;
      if (b(0) == 0xf0 && b(1) < 0x90) return 0;
      if (b(0) == 0xf4 && b(1) > 0x8f) return 0;
      return 4;
   }
   return 0;
}
struct Xml {
   const std::string& s; size_t p = 0;
   explicit Xml(const std::string& t): s(t) {}
   [[noreturn]] void bad(const char* w) { mc::fail("the XML report is not well-formed: %s at byte %zu:\n%s", w, p, s.c_str()); }
   bool at(const char* t) { return s.compare(p, strlen(t), t) == 0; }
   void need(const char* t) { if (!at(t)) bad(t); p += strlen(t); }
   void ws() { while (p < s.size() && strchr(" \t\r\n", s[p])) ++p; }
   std::string name() { size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_:.-", s[p]))) ++p; if (b == p) bad("name expected"); return s.substr(b, p - b); }
   std::string entity() {
      size_t e = s.find(';', p); if (e == std::string::npos || e - p > 10) bad("unfinished entity");
      std::string n = s.substr(p + 1, e - p - 1); p = e + 1;
      if (n == "amp") return "&"; 
      if (n == "lt") return "<"; 
      if (n == "gt") return ">"; 
      if (n == "quot") return "\""; 
      if (n == "apos") return "'";
      if (n.size() > 1 && n[0] == '#') {
         char* q; long v = n[1] == 'x' ? strtol(n.c_str() + 2, &q, 16) : strtol(n.c_str() + 1, &q, 10);
         if (*q || !(v == 9 || v == 10 || v == 13 || v >= 32)) bad("invalid character reference");
         std::string r; if (v < 0x80) r += (char)v; else if (v < 0x800) { r += (char)(0xc0 | v >> 6); r += (char)(0x80 | (v & 63)); } else { r += (char)(0xe0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); }
         return r;
      }
      bad("unknown entity");
   }
   Node element() {
      Node n; need("<"); n.name = name();
      for (;;) {
         size_t b = p; ws();
         if (at("/>")) { p += 2; return n; }
         if (at(">")) { ++p; break; }
         if (b == p) bad("space expected");
         std::string a = name(); ws(); need("="); ws();
         char q = p < s.size() ? s[p] : 0; if (q != '"' && q != '\'') bad("quote expected");
         ++p; std::string v;
         while (p < s.size() && s[p] != q) {
            unsigned char c = s[p];
            if (c == '<') bad("< in an attribute");
            if (c == '&') v += entity();
            else if (c == '\r' && s.compare(p, 2, "\r\n") == 0) { v += ' '; p += 2; }
            else if (c == '\n' || c == '\t' || c == '\r') { v += ' '; ++p; }      // attribute normalization
            else if (c < 32) bad("control character");
            else { v += c; ++p; }
         }
         if (p >= s.size()) bad("unfinished attribute");
         ++p;
         if (n.at.count(a)) bad("repeated attribute");
         n.at[a] = v;
      }
      for (;;) {
         if (p >= s.size()) bad("unfinished element");
         if (at("</")) { p += 2; if (name() != n.name) bad("wrong closing tag"); ws(); need(">"); return n; }
         if (at("<![CDATA[")) { size_t e = s.find("]]>", p); if (e == std::string::npos) bad("unfinished CDATA"); n.text += s.substr(p + 9, e - p - 9); p = e + 3; continue; }
         if (at("<!--")) { size_t e = s.find("-->", p + 4); if (e == std::string::npos) bad("unfinished comment"); p = e + 3; continue; }
         if (s[p] == '<') { n.kids.push_back(element()); continue; }
         if (s[p] == '&') { n.text += entity(); continue; }
         if (at("]]>")) bad("]]> in text");
         if ((unsigned char)s[p] < 32 && !strchr("\t\r\n", s[p])) bad("control character");
         n.text += s[p++];
      }
   }
   Node document() {
      if (at("<?xml ")) { p = s.find("?>"); if (p == std::string::npos) bad("unfinished declaration"); p += 2; }
      std::string decl = s.substr(0, p); size_t q = p;
      if (decl.find("encoding=") == std::string::npos || decl.find("utf-8") != std::string::npos || decl.find("UTF-8") != std::string::npos)
         while (p < s.size()) { size_t n = utf8(s, p); if (!n) bad("no UTF-8 character"); p += n; }
      p = q;
      ws(); Node n = element(); ws(); if (p != s.size()) bad("something after the document element");
      return n;
   }
};

struct Suite {
   std::vector<std::unique_ptr<Prog>> t;
   std::vector<std::string> comp, name;
   std::unique_ptr<UnitTest> ut{new UnitTest};
   void add(const std::string& c, const std::string& n, Act a) {
      t.emplace_back(new Prog); Prog& p = *t.back(); p.act = a; p.id = c + "::" + n; p.out = "out of " + p.id; p.err = "err of " + p.id;
      comp.push_back(c); name.push_back(n);
      ut->addTestCase(comp.back().c_str(), name.back().c_str(), &p);
   }
   ~Suite() {}
};

// ============================ C28 =============================================
void verdicts(Suite& s, const std::vector<int>& sel, bool capture, int rc, const char* when) {
   bool all = true;
   for (int i : sel) {
      Prog& t = *s.t[i]; bool want = passes(t.act, capture); all = all && want;
      MC_CHECK((t.status() == TestCase::SUCCESS) == want, "%s: test %s (%s) has status %s", when, t.id.c_str(), actName[t.act], t.statusDesc());
   }
   MC_CHECK((rc == 0) == all, "%s: the result is %d although %s", when, rc, all ? "every test passed" : "some test failed");
}
void c28(int ntests, int runs, bool sub, const std::vector<int>& acts, const std::vector<int>* others = nullptr) {
   Streams st; std::vector<std::string> events; g_events = &events;
   std::string out;
   {
      Suite s; static const char* comps[] = {"Beta", "Bet", "Beta", "beta"}; static const char* names[] = {"two", "one", "one", "x"};
      for (int i = 0; i < ntests; ++i) s.add(comps[i], names[i], PASS);
      static const int verb[] = {0, 2, 5};
      g_capture = true;
      std::vector<std::string> a; 
      int opt = choose(4);
      if (opt == 1) a.push_back("-e");
      if (opt == 2) { a.push_back("-c"); g_capture = false; }
      if (opt == 3) { a.push_back("-v"); a.push_back(std::to_string(verb[choose(3)])); } else { a.push_back("-q"); }
      std::vector<int> sel;
      int mask = sub ? choose(1 << ntests) : 0;
      for (int i = 0; i < ntests; ++i) if (!mask || (mask >> i & 1)) sel.push_back(i);
      if (mask) for (int i : sel) { a.push_back("-t"); a.push_back(s.t[i]->id); }
      MC_CHECK(args(s.ut.get(), a, false) == 0, "valid options refused");
      for (int r = 0; r < runs; ++r) {
         events.clear(); std::vector<int> before;
         for (auto& t : s.t) { before.push_back(t->runs); }
         // with others, the first test is the free one in the first run, the second in the second
         for (int i : sel) { const auto& from = others && i != r % ntests ? *others : acts; s.t[i]->act = (Act)from[choose((int)from.size())]; }
         mc::note("run %d:", r); for (int i : sel) mc::note(" %s=%s", s.t[i]->id.c_str(), actName[s.t[i]->act]);
         int rc = s.ut->performUnitTests();
         st.intact("after the run");
         verdicts(s, sel, g_capture, rc, "run of all tests");
         for (size_t i = 0; i < s.t.size(); ++i) {
            bool in = false; for (int k : sel) in = in || k == (int)i;
            int want = in && bodyRuns(s.t[i]->act);
            MC_CHECK(s.t[i]->runs - before[i] == want, "test %s was run %d times in a run", s.t[i]->id.c_str(), s.t[i]->runs - before[i]);
         }
         mc::transition(sel.size()); mc::note(" -> %d; ", rc);
         uint64_t h = rc; for (int i : sel) h = mc::hash2(h, s.t[i]->act);
         mc::state(mc::hash2(h, opt * 100 + r)); mc::outcome(rc);
      }
   }
   g_events = nullptr; mc::note("\n");
}
// What counts as output on the error stream.
struct Errs : public TestCase {
   std::string text; int way = 0, place = 0;
   void put() {
      switch (way) {
      case 0: std::cerr << text; break;
      case 1: for (char c : text) std::cerr.put(c); break;
      case 2: std::cerr.write(text.data(), text.size()); break;
      case 3: std::cerr.rdbuf()->sputn(text.data(), text.size()); break;
      case 4: { std::ostream own(std::cerr.rdbuf()); own << text << std::flush; break; }
      case 5: std::cerr.flush(); std::cerr << "" << text; std::cerr.flush(); std::cerr << ""; break;
      case 6: std::cout << "something"; std::cerr << text; std::cout << "more" << std::flush; break;
      case 7: std::cerr << text; std::cerr.setstate(std::ios_base::failbit); std::cerr << "lost"; std::cerr.clear(); break;
      }
   }
   void SetUp() override { if (place == 0) put(); }
   void test() override { if (place == 1) put(); }
};
void c28stderr() {
   static const std::string texts[] = {"", " ", "\n", "\t\r\n  ", std::string(1, '\0'), std::string(3, '\0') + "x", "x", "0", "OK\n", std::string(20000, ' '), std::string(511, '\n'), "\xff", "warning: nothing"};
   Streams st;
   int way = choose(8), place = choose(2), capture = choose(2), e = choose(2), which = choose(2);
   UnitTest ut; Errs a, b;
   ut.addTestCase("A", "a", &a); ut.addTestCase("A", "b", &b);
   std::vector<std::string> o{"-q"}; if (!capture) o.push_back("-c"); if (e) o.push_back("-e");
   MC_CHECK(args(&ut, o, false) == 0, "valid options refused");
   for (int r = 0; r < 2; ++r) {
      Errs &w = which == (r && way % 2) ? b : a, &q = &w == &a ? b : a;
      w.text = texts[choose(sizeof texts / sizeof *texts)]; w.way = way; w.place = place; q.text = "";
      bool want = w.text.empty() || !capture;
      int rc = ut.performUnitTests();
      st.intact("after the run");
      MC_CHECK((rc == 0) == want && (w.status() == TestCase::SUCCESS) == want && q.status() == TestCase::SUCCESS, "run %d: a test that wrote %s on the error stream, captured: %d, has the status %s, the other one %s, the result is %d", r, show(w.text).c_str(), capture, w.statusDesc(), q.statusDesc(), rc);
      if (capture) MC_CHECK(w.text.c_str() == std::string(w.capturedErr()) && !*q.capturedErr(), "captured %s instead of %s", show(w.capturedErr()).c_str(), show(w.text).c_str());
      mc::transition(2); mc::state(mc::hashStr(w.text, mc::hash2(way * 4 + place * 2 + capture, r)));
      mc::note("%s -> %d; ", show(w.text).c_str(), rc);
   }
}
// A great number of tests, of which none, one, some or all fail.
void c28many() {
   static const int N[] = {1, 2, 7, 8, 9, 16, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 768, 1000, 1024, 4096, 65535, 65536, 65537};
   static const Act how[] = {CHECK, ERR, THROW_INT, SETUP_THROW};
   Streams st;
   int n = N[choose(sizeof N / sizeof *N)], which = choose(7), sel = choose(3), comps = choose(3); Act act = which ? how[choose(4)] : PASS;
   if (n > 5000 && (sel || comps || (act != CHECK && act != PASS))) return;
   auto fails = [&](int i) { switch (which) { case 1: return i == 0; case 2: return i == n - 1; case 3: return i == n / 2; case 4: return i % 2 == 1; case 5: return true; case 6: return i >= n / 2; default: return false; } };
   g_capture = true;
   Suite s;
   // (the tests keep the names, which therefore must not move)
   s.comp.reserve(n); s.name.reserve(n);
   std::vector<std::string> a{"-q"};
   for (int i = 0; i < n; ++i) {
      s.add("C" + std::to_string(comps == 0 ? 0 : comps == 1 ? i % 3 : i), "t" + std::to_string(i), PASS);
      if (sel == 1 || (sel == 2 && i % 2 == 0)) { a.push_back("-t"); a.push_back(s.t[i]->id); }
   }
   auto in = [&](int i) { return sel != 2 || i % 2 == 0; };
   MC_CHECK(args(s.ut.get(), a, false) == 0, "valid options refused");
   for (int r = 0; r < 3; ++r) {
      // all pass in the second run
      int failed = 0;
      for (int i = 0; i < n; ++i) { bool f = r != 1 && fails(i); s.t[i]->act = f ? act : PASS; if (in(i)) failed += f; }
      int rc = s.ut->performUnitTests();
      mc::note("%d tests of %d fail with %s -> %d; ", failed, n, actName[act], rc);
      st.intact("after the run");
      MC_CHECK((rc == 0) == (failed == 0), "%d of %d tests failed, and the result is %d", failed, n, rc);
      MC_CHECK((rc & 0xff) || !failed, "%d of %d tests failed, and the result is %d, which is the same as 0 for the exit status of a program", failed, n, rc);
      for (int i = 0; i < n; ++i) if (in(i)) {
         Prog& t = *s.t[i]; bool want = t.act == PASS;
         MC_CHECK((t.status() == TestCase::SUCCESS) == want, "test %d of %d (%s) has status %s", i, n, actName[t.act], t.statusDesc());
         MC_CHECK(t.act == SETUP_THROW || t.runs == 1, "test %d of %d was run %d times in a run", i, n, t.runs);
         t.runs = 0;
      } else MC_CHECK(s.t[i]->runs == 0, "test %d of %d, which was not selected, was run", i, n);
      mc::transition(n); mc::outcome(rc);
   }
   mc::note("\n"); mc::state(mc::hash2(mc::hash2(n, which), sel * 12 + comps * 4 + act * 100));
}
// A run of the same tests over and over.
void c28often() {
   Streams st; g_capture = true;
   Suite s; s.add("A", "a", PASS); s.add("A", "b", PASS);
   args(s.ut.get(), {"-q"}, false);
   int period = 1 + choose(4); Act act = (Act)choose(NACTS); bool single = choose(2);
   for (int r = 0; r < 1000; ++r) {
      s.t[0]->act = r % period == period - 1 ? act : PASS;
      int rc = single ? s.ut->performTest("A::a") : s.ut->performUnitTests();
      MC_CHECK((rc == 0) == passes(s.t[0]->act, true) && (s.t[0]->status() == TestCase::SUCCESS) == (rc == 0), "run %d: %s, and the result is %d (%s)", r, actName[s.t[0]->act], rc, s.t[0]->statusDesc());
      MC_CHECK(s.t[1]->status() == (single ? s.t[1]->status() : TestCase::SUCCESS) && s.t[1]->runs == (single ? 0 : r + 1), "run %d: the other test was run %d times and has status %s", r, s.t[1]->runs, s.t[1]->statusDesc());
   }
   mc::transition(1000); mc::state(mc::hash2(period * 2 + single, act));
}
// Tests added before, between and after runs.
void c28added(int depth, const std::vector<int>& acts) {
   static const char* comps[] = {"Ba", "B"};
   Streams st; g_capture = true;
   Suite s; s.comp.reserve(depth + 1); s.name.reserve(depth + 1);
   auto put = [&]() { int n = (int)s.t.size(); s.add(comps[choose(2)], "t" + std::to_string(n), (Act)acts[choose((int)acts.size())]); mc::note("add %s=%s; ", s.t[n]->id.c_str(), actName[s.t[n]->act]); };
   put();
   bool selected = choose(2);
   std::string f = xmlFile();
   std::vector<std::string> a{"-q", "-x", f}; if (selected) { a.push_back("-t"); a.push_back(s.t[0]->id); }
   MC_CHECK(args(s.ut.get(), a, false) == 0, "valid options refused");
   uint64_t h = selected;
   for (int d = 0; d < depth; ++d) {
      int k = choose(3);
      if (k == 0) put();
      else if (k == 1) {
         unlink(f.c_str());
         std::vector<int> before; for (auto& t : s.t) before.push_back(t->runs);
         int rc = s.ut->performUnitTests();
         std::vector<int> sel; for (int i = 0; i < (int)s.t.size(); ++i) if (!selected || i == 0) sel.push_back(i);
         mc::note("run -> %d; ", rc);
         verdicts(s, sel, true, rc, "run");
         for (int i = 0; i < (int)s.t.size(); ++i) { bool in = !selected || i == 0; MC_CHECK(s.t[i]->runs == before[i] + (in ? bodyRuns(s.t[i]->act) : 0), "test %s, added %s, was run %d times", s.t[i]->id.c_str(), in ? "and selected" : "but not selected", s.t[i]->runs - before[i]); }
         Node x = Xml(slurp(f)).document(); MC_CHECK(x.at["tests"] == std::to_string(sel.size()), "%s tests in the report instead of %zu", x.at["tests"].c_str(), sel.size());
      }
      else {
         int i = (int)s.t.size() - 1; int rc = s.ut->performTest(s.t[i]->id.c_str());
         mc::note("%s -> %d; ", s.t[i]->id.c_str(), rc);
         verdicts(s, {i}, true, rc, "the test added last");
      }
      h = mc::hash2(h, k); mc::transition();
   }
   unlink(f.c_str());
   mc::note("\n"); mc::state(mc::hash2(h, s.t.size()));
}
// single tests by name, in any order, between whole runs
void c28single(int depth, const std::vector<int>& acts) {
   Streams st;
   Suite s; s.add("A", "a", PASS); s.add("A", "b", PASS); s.add("B", "a", PASS);
   g_capture = true;
   std::vector<std::string> q{"-q"}; args(s.ut.get(), q, false);
   for (int d = 0; d < depth; ++d) {
      int k = choose(5);
      if (k < 3) {
         s.t[k]->act = (Act)acts[choose((int)acts.size())]; int before = s.t[k]->runs; int b2 = s.t[(k + 1) % 3]->runs;
         int rc = s.ut->performTest(s.t[k]->id.c_str());
         mc::note("%s=%s -> %d; ", s.t[k]->id.c_str(), actName[s.t[k]->act], rc);
         verdicts(s, {k}, true, rc, "single test");
         MC_CHECK(s.t[k]->runs == before + bodyRuns(s.t[k]->act) && s.t[(k + 1) % 3]->runs == b2, "performTest did not run just that test once");
      } else if (k == 3) {
         for (auto& t : s.t) t->act = PASS;
         s.t[1]->act = (Act)acts[choose((int)acts.size())];
         int rc = s.ut->performUnitTests();
         mc::note("all, A::b=%s -> %d; ", actName[s.t[1]->act], rc);
         verdicts(s, {0, 1, 2}, true, rc, "run of all tests");
      } else {
         bool threw = false; try { s.ut->performTest("A::zzz"); } catch (const std::exception&) { threw = true; }
         mc::note("unknown; "); MC_CHECK(threw, "performTest of an unknown test does not throw");
      }
      st.intact("after the run"); mc::transition(); mc::state(k * 1000 + s.t[0]->act * 20 + s.t[1]->act + d * 100000);
   }
   mc::note("\n");
}

// ---- tests defined as a user defines them ---------------------------------------
#if PROP == 28
int d_runs[6], d_act[6], d_setup[6], d_teardown[6];
void does(falcon::testing::TestCase*, int i) { ++d_runs[i]; if (d_act[i] == 2) throw std::runtime_error("x"); }
class Box : public falcon::testing::TestCase {
protected:
   int filled = 0, who = -1;
   void SetUp() override { ++filled; }
   void TearDown() override { if (who >= 0) { d_setup[who] = filled; ++d_teardown[who]; } filled = 0; }
};
TEST(Alpha, one) { does(this, 0); EXPECT_FALSE(d_act[0] == 1); }
TEST(Alpha, two) { does(this, 1); EXPECT_FALSE(d_act[1] == 1); }
TEST(Beta, one) { does(this, 2); EXPECT_FALSE(d_act[2] == 1); }
TEST_F(Box, one) { who = 3; does(this, 3); EXPECT_EQ(1, filled); EXPECT_FALSE(d_act[3] == 1); }
TEST_F(Box, two) { who = 4; does(this, 4); EXPECT_EQ(1, filled); EXPECT_FALSE(d_act[4] == 1); }
FALCON_TEST(Alpha, with_underscore) { does(this, 5); EXPECT_FALSE(d_act[5] == 1); }
void c28defined() {
   static const char* names[] = {"Alpha::one", "Alpha::two", "Beta::one", "Box::one", "Box::two", "Alpha::with_underscore"};
   Streams st;
   int mask = choose(1 << 6); bool viaMain = choose(2);
   std::vector<std::string> a; if (viaMain) a.push_back("prog"); a.push_back("-q");
   bool good = true;
   for (int i = 0; i < 6; ++i) {
      bool in = !mask || (mask >> i & 1);
      d_act[i] = in ? choose(mask ? 3 : 2) : 1;
      if (in) good = good && !d_act[i];
      if (mask && in) { a.push_back("-t"); a.push_back(names[i]); }
      if (in) mc::note("%s=%d; ", names[i], d_act[i]);
   }
   UnitTest* ut = UnitTest::singleton();
   int rc = args(ut, a, viaMain);
   if (!viaMain) { MC_CHECK(rc == 0, "valid options refused"); rc = ut->performUnitTests(); }
   mc::note("-> %d\n", rc);
   MC_CHECK((rc == 0) == good, "the result is %d although %s", rc, good ? "every test passed" : "some test failed");
   for (int i = 0; i < 6; ++i) {
      bool in = !mask || (mask >> i & 1);
      MC_CHECK(d_runs[i] == in, "test %s, which was %sselected, was run %d times", names[i], in ? "" : "not ", d_runs[i]);
      if (i == 3 || i == 4) MC_CHECK(d_teardown[i] == (in && d_act[i] != 2), "TearDown of the fixture of %s ran %d times", names[i], d_teardown[i]);
      if (d_teardown[i]) MC_CHECK(d_setup[i] == 1, "the fixture of %s was set up %d times", names[i], d_setup[i]);
   }
   mc::transition(); mc::state(mc::hash2(mask, mc::hashBytes(d_act, sizeof d_act))); mc::outcome(rc);
}
#endif

// ============================ C29 =============================================
std::string text29(int k) {
   switch (k) {
   case 0: return "x";
   case 1: return "two\nlines\n";
   case 2: return std::string(100000, 'y') + "end";
   case 3: return "   \t%s%d\\";
   default: return "\xc3\xa9\xff";
   }
}
void c29(int ntests, int runs) {
   bool shared = choose(2); if (shared) mc::note("one buffer; ");
   Streams st(shared); std::vector<std::string> events; g_events = &events;
   {
      Suite s; static const char* comps[] = {"Fix", "Fix", "Other"}; static const char* names[] = {"one", "two", "three"};
      for (int i = 0; i < ntests; ++i) s.add(comps[i], names[i], PASS);
      g_capture = choose(2) == 0;
      std::vector<std::string> a{"-q"}; if (!g_capture) a.push_back("-c");
      args(s.ut.get(), a, false);
      bool single = choose(2);
      for (int r = 0; r < runs; ++r) {
         std::string wantOut, wantErr; std::vector<std::string> wantEv;
         st.out.str(""); st.err.str(""); events.clear();
         for (int i = 0; i < ntests; ++i) {
            Prog& t = *s.t[i]; t.act = (Act)choose(NACTS); t.fixture = 0;
            int tx = (outOf(t).size() || errOf(t).size()) ? choose(5) : 0;
            t.out = "out" + t.id + text29(tx); t.err = "err" + t.id + text29(tx);
            mc::note("%s=%s; ", t.id.c_str(), actName[t.act]);
            wantEv.push_back(t.id + ".setup");
            if (bodyRuns(t.act)) wantEv.push_back(t.id + ".body");
            if (tearRuns(t.act)) wantEv.push_back(t.id + ".teardown");
            wantOut += outOf(t); (shared ? wantOut : wantErr) += errOf(t);
         }
         if (single) for (int i = 0; i < ntests; ++i) { s.ut->performTest(s.t[i]->id.c_str()); st.intact("after a single test"); }
         else s.ut->performUnitTests();
         st.intact("after the run");
         MC_CHECK(events == wantEv, "wrong order of SetUp, body and TearDown: %zu events, %zu expected; first difference at %s", events.size(), wantEv.size(),
                  [&] { for (size_t i = 0; i < events.size() && i < wantEv.size(); ++i) if (events[i] != wantEv[i]) return events[i] + " instead of " + wantEv[i]; return std::string("the end"); }().c_str());
         for (int i = 0; i < ntests; ++i) {
            Prog& t = *s.t[i];
            std::string wo = g_capture ? outOf(t) : "", we = g_capture ? errOf(t) : "";
            MC_CHECK(t.capturedOut() == wo, "%s: captured output is %s instead of %s", t.id.c_str(), show(t.capturedOut()).c_str(), show(wo).c_str());
            MC_CHECK(!strcmp(t.capturedErr(), we.c_str()), "%s: captured error output is %s instead of %s", t.id.c_str(), show(t.capturedErr()).c_str(), show(we).c_str());
         }
         if (g_capture) { MC_CHECK(st.out.str().empty() && st.err.str().empty(), "something reached the standard streams in a quiet run: %s%s", show(st.out.str()).c_str(), show(st.err.str()).c_str()); }
         else { MC_CHECK(st.out.str() == wantOut && st.err.str() == wantErr, "with capture off, the standard streams carry %s / %s", show(st.out.str()).c_str(), show(st.err.str()).c_str()); }
         mc::transition(wantEv.size());
         uint64_t h = g_capture * 2 + single; for (auto& t : s.t) h = mc::hash2(h, t->act);
         mc::state(mc::hash2(h, r));
      }
   }
   g_events = nullptr; mc::note("\n");
}

const int SIZES[] = {1, 2, 15, 16, 17, 22, 23, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 300000};
const int NSIZES = sizeof SIZES / sizeof *SIZES;
// A test that writes in many ways.
struct Writer : public TestCase {
   int size = 0, how = 0; bool err = false;
   std::string wrote;
   void test() override {
      std::ostream& o = err ? std::cerr : std::cout;
      auto w = [&](const std::string& x) { wrote += x; o << x; };
      switch (how) {
      case 0: w(std::string(size, 'x')); break;
      case 1: for (int i = 0; i < size; ++i) { char c = (char)('!' + i % 90); wrote += c; o.put(c); } break;
      case 2: for (int i = 0; i < size; i += 3) { w("ab\n"); if (i % 5 == 0) o.flush(); } break;
      case 3: for (int i = 0; i < size; i += 1 + i / 7) { o << std::endl << std::to_string(i); wrote += "\n" + std::to_string(i); } break;
      case 4: { std::string x; for (int i = 0; i < size; ++i) x += (char)(1 + i % 255); o.write(x.data(), x.size()); wrote += x; break; }
      case 5: for (int i = 0; i < size; i += 50) { w(std::string(50, 'o')); std::clog.flush(); (err ? std::cout : std::cerr).flush(); } break;
      }
   }
};
void c29volume() {
   Streams st; g_capture = true;
   Writer a; a.size = SIZES[choose(NSIZES)]; a.how = choose(6); a.err = choose(2);
   Prog b; b.id = "A::b";
   UnitTest ut; ut.addTestCase("A", "a", &a); ut.addTestCase("A", "b", &b);
   b.act = OUT; b.out = "b's";
   int verb = choose(2);
   if (verb) args(&ut, {"-v", "5"}, false); else args(&ut, {"-q"}, false);
   for (int r = 0; r < 2; ++r) {
      a.wrote.clear(); st.out.str("");
      ut.performUnitTests();
      st.intact("after the run");
      mc::note("%d characters, way %d, %s -> %zu; ", a.size, a.how, a.err ? "stderr" : "stdout", a.wrote.size());
      MC_CHECK(a.capturedOut() == (a.err ? "" : a.wrote) && a.capturedErr() == (a.err ? a.wrote : ""), "of %zu characters written, %zu and %zu are captured, or others: %s %s", a.wrote.size(), strlen(a.capturedOut()), strlen(a.capturedErr()), show(a.capturedOut()).c_str(), show(a.capturedErr()).c_str());
      MC_CHECK(std::string(b.capturedOut()) == "b's" && !*b.capturedErr(), "the other test's captured output is %s", show(b.capturedOut()).c_str());
      if (verb) MC_CHECK(a.err || st.out.str().find(a.wrote) != std::string::npos, "the %zu characters written are not dumped", a.wrote.size());
      mc::transition();
   }
   mc::note("\n"); mc::state(mc::hash2(a.size, a.how * 4 + a.err * 2 + verb));
}

// ============================ C30 =============================================
void checkXml(const std::string& x, Suite& s, const std::vector<int>& sel, const std::string& id, const std::string& name, bool capture) {
   Node d = Xml(x).document();
   auto num = [](const std::string& t) { return t.empty() || t.find_first_not_of("0123456789") != std::string::npos ? -1 : atoi(t.c_str()); };
   std::map<std::string, std::set<int>> byComp; int fails = 0; std::map<std::string, int> compFails;
   for (int i : sel) { byComp[s.comp[i]].insert(i); if (!passes(s.t[i]->act, capture)) { ++fails; compFails[s.comp[i]]++; } }
   MC_CHECK(d.name == "testsuites", "document element is %s", d.name.c_str());
   MC_CHECK(num(d.at["tests"]) == (int)sel.size(), "%s tests reported instead of %zu", d.at["tests"].c_str(), sel.size());
   MC_CHECK(num(d.at["failures"]) == fails, "%s failures reported instead of %d", d.at["failures"].c_str(), fails);
   MC_CHECK(d.at["id"] == id && d.at["name"] == name, "unit test reported as %s %s instead of %s %s", show(d.at["id"]).c_str(), show(d.at["name"]).c_str(), show(id).c_str(), show(name).c_str());
   MC_CHECK(d.kids.size() == byComp.size(), "%zu components reported instead of %zu", d.kids.size(), byComp.size());
   std::set<std::string> seen;
   for (Node& k : d.kids) {
      std::string c = k.at["name"];
      MC_CHECK(k.name == "testsuite" && byComp.count(c) && seen.insert(c).second, "unexpected component %s", show(c).c_str());
      MC_CHECK(num(k.at["tests"]) == (int)byComp[c].size() && k.kids.size() == byComp[c].size(), "component %s: %s tests, %zu elements, instead of %zu", show(c).c_str(), k.at["tests"].c_str(), k.kids.size(), byComp[c].size());
      MC_CHECK(num(k.at["failures"]) == compFails[c], "component %s: %s failures instead of %d", show(c).c_str(), k.at["failures"].c_str(), compFails[c]);
      std::set<int> left = byComp[c];
      for (Node& e : k.kids) {
         int hit = -1;
         for (int i : left) if (s.name[i] == e.at["name"]) hit = i;
         MC_CHECK(e.name == "testcase" && hit >= 0, "component %s: unexpected test %s", show(c).c_str(), show(e.at["name"]).c_str());
         left.erase(hit);
         Prog& t = *s.t[hit];
         bool failed = !passes(t.act, capture); int nf = 0;
         for (Node& f : e.kids) if (f.name == "failure" || f.name == "error") {
            ++nf;
            std::string want = t.failDesc();
            MC_CHECK(f.at["message"] == want, "test %s: failure message %s instead of %s", show(t.id).c_str(), show(f.at["message"]).c_str(), show(want).c_str());
            std::string m = t.act == THROW_STD || t.act == API_FAIL || t.act == SETUP_THROW || t.act == TEARDOWN_THROW || t.act == FAIL_THEN_THROW ? t.msg : "";
            // what the failure is about, and where
            const char* own = nullptr; const char* file = nullptr; int line = 0;
            switch (t.act) {
            case CHECK: case SETUP_CHECK: case TEARDOWN_CHECK: own = "fixture + 100"; file = "fut_seq"; break;
            case OUT_THEN_CHECK: own = "fixture == 77"; file = "fut_seq"; break;
            case SOFT_FAIL: own = "said so"; file = "fut_seq"; break;
            case API_FAIL: file = "afile"; line = 12; break;
            case CHECK_THEN_ERR: case EXPECT_MISSING_THROW: file = "fut_seq"; break;
            case ERR: case SETUP_ERR: MC_CHECK(want.empty(), "test %s, which failed for what it wrote to the error stream, has the failure message %s", show(t.id).c_str(), show(want).c_str()); break;
            case THROW_INT: case ERR_THEN_THROW: case SETUP_THROW_INT: case TEARDOWN_THROW_INT: MC_CHECK(!want.empty() && want != t.msg && want.find("fixture") == std::string::npos && want.find("said so") == std::string::npos, "test %s, which threw something, has the failure message %s", show(t.id).c_str(), show(want).c_str()); break;
            default: break;
            }
            if (own) MC_CHECK(want.find(own) != std::string::npos, "test %s: the failure message %s does not give the expression", show(t.id).c_str(), show(want).c_str());
            if (file) MC_CHECK(strstr(t.failFile(), file) && (line ? t.failLine() == line : t.failLine() > 0), "test %s: the failure is reported at %s:%d", show(t.id).c_str(), t.failFile(), t.failLine());
            else if (t.act != FAIL_THEN_THROW) MC_CHECK(!*t.failFile() && t.failLine() == 0, "test %s (%s): the failure is reported at %s:%d, which has nothing to do with it", show(t.id).c_str(), actName[t.act], t.failFile(), t.failLine());
            MC_CHECK(f.text.find("Line: " + std::to_string(t.failLine()) + "\n") != std::string::npos && f.text.find("File: " + std::string(t.failFile()) + "\n") != std::string::npos, "test %s: the report gives the place of the failure as %s instead of %s:%d", show(t.id).c_str(), show(f.text).c_str(), t.failFile(), t.failLine());
            if (!m.empty()) MC_CHECK(want == m, "test %s: failure description %s instead of %s", show(t.id).c_str(), show(want).c_str(), show(m).c_str());
         }
         MC_CHECK(nf == (failed ? 1 : 0), "test %s (%s) has %d failure elements", show(t.id).c_str(), actName[t.act], nf);
      }
   }
}
std::string text30(int maxLen) {
   static const char* A[] = {"a", "<", ">", "&", "\"", "'", "\n", "\r", "\t", "]", " ", "\xc3\xa9", ";", "#"};
   static const char* M[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&amp;amp;", "&amp", "&;", "&&", "<![CDATA[", "]]>", "<!-- x -->", "--", "<?xml?>", "<!DOCTYPE a>", "</testcase>", "<a/>", "%s%n%d", "\\n", "\\\"", "${x}", "\"/><x y=\"", "a\r\nb", "\n\n", "  two  spaces ", "\t\t", "0", "a=b", "::", "A::B", ",", "/", "../x", "\xef\xbb\xbf" "bom", "\xe2\x80\xa8", "\xf0\x9f\x98\x80"};
   if (!maxLen) { std::string s = M[choose(sizeof M / sizeof *M)]; switch (choose(4)) { case 1: return s + s; case 2: return "a" + s; case 3: return s + "b&"; } return s; }
   std::string s; int n = choose(maxLen + 1);
   for (int i = 0; i < n; ++i) s += A[choose(14)];
   return s;
}
void c30texts(int maxLen) {
   Streams st;
   Suite s; g_capture = true;
   std::string tx = text30(maxLen); int where = choose(8);
   std::string name = "unit", id = "anid";
   std::string c0 = "Comp", n0 = "case"; Act a0 = PASS; std::string msg = "m";
   switch (where) {
   case 0: a0 = THROW_STD; msg = tx; break;
   case 1: a0 = API_FAIL; msg = tx; break;
   case 2: c0 += tx; break;
   case 3: n0 += tx; a0 = API_FAIL; break;
   case 4: name += tx; break;
   case 5: id += tx; break;
   case 6: a0 = OUT; break;
   case 7: a0 = ERR; break;
   }
   s.add(c0, n0, a0); s.add("Second", "one", PASS);
   s.t[0]->msg = msg; if (where == 6) s.t[0]->out = tx; if (where == 7) s.t[0]->err = "e" + tx;
   std::string f = xmlFile(); unlink(f.c_str());
   int rc = args(s.ut.get(), {"-q", "-n", name, "-i", id, "-x", f}, false);
   MC_CHECK(rc == 0, "valid options refused");
   s.ut->performUnitTests();
   std::string x = slurp(f); unlink(f.c_str());
   MC_CHECK(!x.empty(), "no XML report");
   checkXml(x, s, {0, 1}, id, name, true);
   mc::note("text %s in place %d\n", show(tx).c_str(), where); mc::transition(2); mc::state(mc::hashStr(tx, where));
}
void c30outcomes(int ntests, const std::vector<int>& acts, bool change = false) {
   Streams st;
   static const char* comps[] = {"Ba", "B", "Ba", "ba"}; static const char* names[] = {"x", "x", "y", "x"};
   Suite s; g_capture = choose(2) == 0;
   for (int i = 0; i < ntests; ++i) s.add(comps[i], names[i], (Act)acts[choose((int)acts.size())]);
   int mask = choose(1 << ntests);
   std::string f = xmlFile(); unlink(f.c_str());
   std::vector<std::string> a{"-q", "-n", "n", "-i", "i", "-x", f}; std::vector<int> sel;
   if (!g_capture) a.push_back("-c");
   for (int i = 0; i < ntests; ++i) if (!mask || (mask >> i & 1)) { sel.push_back(i); if (mask) { a.push_back("-t"); a.push_back(s.t[i]->id); } }
   MC_CHECK(args(s.ut.get(), a, false) == 0, "valid options refused");
   int rounds = 1 + choose(2);
   for (int r = 0; r < rounds; ++r) {
      if (r && change) s.t[0]->act = (Act)acts[choose((int)acts.size())];
      s.ut->performUnitTests();
      std::string x = slurp(f); unlink(f.c_str());
      MC_CHECK(!x.empty(), "no XML report");
      checkXml(x, s, sel, "i", "n", g_capture);
      mc::transition(sel.size());
   }
   for (int i : sel) mc::note("%s=%s ", s.t[i]->id.c_str(), actName[s.t[i]->act]);
   uint64_t h = mask * 4 + rounds; for (auto& t : s.t) h = mc::hash2(h, t->act);
   mc::state(h); mc::note("\n");
}

// Texts with characters of any length, and with bytes that are no text.
void c30bytes(int maxLen) {
   static const char* A[] = {"a", "&", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "\xe9", "\xc3", "\xa9", "\xc0\xaf", "\xed\xa0\x80", "\xef\xbf\xbf", "\xf4\x90\x80\x80", "\xff", "\x01", "\x7f", "\xf0\x9f", "\xe0\x80\x80"};
   Streams st; g_capture = true;
   std::string tx; int where = 0;
   auto enc = [](unsigned c) { std::string s; if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } return s; };
   if (maxLen) { int n = 1 + choose(maxLen); for (int i = 0; i < n; ++i) tx += A[choose(sizeof A / sizeof *A)]; where = choose(7); }
   else switch (choose(5)) {
   case 0: { static const unsigned B[] = {0x7e, 0x80, 0x9f, 0xa0, 0xff, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdffe, 0xdfff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1ffff, 0xfffff, 0x10fffe, 0x10ffff, 0x110000, 0x13ffff, 0x1fffff}; tx = enc(B[choose(28)]); if (choose(2)) tx = "a" + tx + "a"; where = choose(7); break; }
   case 1: tx = std::string(1, char(1 + choose(255))); if (choose(2)) tx = "a" + tx + "&"; where = choose(7); break;
   case 2: { unsigned b = choose(0x1100) * 256; for (unsigned c = b; c < b + 256; ++c) if (c) tx += enc(c); break; }          // all characters there are
   case 3: { int i = 1 + choose(255); tx = char(i); tx += char(1 + choose(255)); break; }                                   // all pairs of bytes
   case 4: { static const int E[] = {0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xef, 0xf0, 0xff}; int lead = 0xc0 + choose(64); tx = char(lead); int n = 2 + (lead >= 0xf0 ? choose(2) : 0); for (int i = 0; i < n; ++i) tx += char(E[choose(16)]); break; }
   }
   bool valid = true; for (size_t i = 0; i < tx.size();) { size_t k = utf8(tx, i); if (!k || (unsigned char)tx[i] < 32) { valid = false; ++i; } else i += k; }
   std::string c0 = "Comp", n0 = "case", name = "unit", id = "anid", msg = "m"; Act act = API_FAIL;
   switch (where) {
   case 0: msg = tx; break;
   case 1: msg = tx; act = THROW_STD; break;
   case 2: c0 = tx; break;
   case 3: n0 = tx; break;
   case 4: name = tx; break;
   case 5: id = tx; break;
   case 6: act = OUT_THEN_CHECK; break;
   }
   Suite s; s.add(c0, n0, act); s.add("Second", "one", PASS);
   s.t[0]->msg = msg; if (where == 6) s.t[0]->out = tx;
   std::string f = xmlFile(); unlink(f.c_str());
   MC_CHECK(args(s.ut.get(), {"-q", "-n", name, "-i", id, "-x", f}, false) == 0, "valid options refused");
   s.ut->performUnitTests();
   std::string x = slurp(f); unlink(f.c_str());
   MC_CHECK(!x.empty(), "no XML report");
   if (valid) checkXml(x, s, {0, 1}, id, name, true);
   else {
      Node d = Xml(x).document();
      MC_CHECK(d.at["tests"] == "2" && d.at["failures"] == "1" && d.kids.size() == 2, "the report with the text %s: %s tests, %s failures, %zu components", show(tx).c_str(), d.at["tests"].c_str(), d.at["failures"].c_str(), d.kids.size());
      // what can be represented is there
      auto part = [&](std::string got, const char* what) { size_t q = 0; for (size_t i = 0; i < tx.size(); ++i) if (tx[i] == 'a' || tx[i] == '&') { q = got.find(tx[i], q); MC_CHECK(q != std::string::npos, "%s %s is reported as %s", what, show(tx).c_str(), show(got).c_str()); ++q; } };
      if (where == 4) part(d.at["name"], "unit test"); else MC_CHECK(d.at["name"] == name, "unit test reported as %s", show(d.at["name"]).c_str());
      if (where == 5) part(d.at["id"], "unit test");
      int other = -1; for (int i = 0; i < 2; ++i) if (d.kids[i].at["name"] == "Second") other = i;
      MC_CHECK(other >= 0 && d.kids[other].at["failures"] == "0" && d.kids[other].kids.size() == 1 && d.kids[other].kids[0].at["name"] == "one", "the other component is not reported");
      Node& k = d.kids[1 - other];
      if (where == 2) part(k.at["name"], "component"); else MC_CHECK(k.at["name"] == c0, "component reported as %s", show(k.at["name"]).c_str());
      MC_CHECK(k.at["tests"] == "1" && k.at["failures"] == "1" && k.kids.size() == 1 && k.kids[0].kids.size() == 1, "component: %s tests, %s failures", k.at["tests"].c_str(), k.at["failures"].c_str());
      if (where == 3) part(k.kids[0].at["name"], "test"); else MC_CHECK(k.kids[0].at["name"] == n0, "test reported as %s", show(k.kids[0].at["name"]).c_str());
      if (where <= 1) part(k.kids[0].kids[0].at["message"], "message");
   }
   mc::note("text %s in place %d\n", show(tx).c_str(), where); mc::transition(); mc::state(mc::hashStr(tx, where));
}
// Long texts, with something special in any place of some.
void c30long() {
   static const char* A[] = {"a", "<", "&", "\"", "'", "\n", "]]>", "\xc3\xa9", ">"};
   Streams st;
   Suite s; g_capture = true;
   int size = SIZES[choose(NSIZES)], where = choose(9), sp = choose(9), all = choose(3);
   if (all == 2 && size > 70000) return;
   std::string tx;
   if (all == 2) for (int i = 0; i < size; ++i) tx += A[sp];
   else tx = std::string(size - 1, 'x') + A[sp] + (all ? std::string(size, 'y') : "");
   std::string name = "unit", id = "anid", c0 = "Comp", n0 = "case", msg = "m"; Act a0 = PASS;
   switch (where) {
   case 0: a0 = THROW_STD; msg = tx; break;
   case 1: a0 = API_FAIL; msg = tx; break;
   case 2: c0 += tx; break;
   case 3: n0 += tx; a0 = API_FAIL; break;
   case 4: name += tx; break;
   case 5: id += tx; break;
   case 6: a0 = OUT; break;
   case 7: a0 = ERR; break;
   case 8: a0 = SETUP_THROW; msg = tx; break;
   }
   s.add(c0, n0, a0); s.add("Second", "one", PASS);
   s.t[0]->msg = msg; if (where == 6) s.t[0]->out = tx; if (where == 7) s.t[0]->err = "e" + tx;
   std::string f = xmlFile(); unlink(f.c_str());
   MC_CHECK(args(s.ut.get(), {"-q", "-n", name, "-i", id, "-x", f}, false) == 0, "valid options refused");
   s.ut->performUnitTests();
   std::string x = slurp(f); unlink(f.c_str());
   MC_CHECK(!x.empty(), "no XML report");
   checkXml(x, s, {0, 1}, id, name, true);
   mc::note("%zu characters with %s, in place %d\n", tx.size(), show(A[sp]).c_str(), where); mc::transition(2); mc::state(mc::hash2(size, where * 100 + sp * 10 + all));
}
// Many tests in many components.
void c30many() {
   static const int N[] = {1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 3000};
   seq::GlobalLocale loc(choose(2));
   Streams st; g_capture = true;
   Suite s;
   int n = N[choose(sizeof N / sizeof *N)], comps = choose(4), which = choose(5);
   s.comp.reserve(n); s.name.reserve(n);
   std::vector<int> sel;
   for (int i = 0; i < n; ++i) {
      bool f = which == 1 ? i == n - 1 : which == 2 ? i % 2 : which == 3 ? true : which == 4 ? i % 10 != 0 : false;
      int c = comps == 0 ? 0 : comps == 1 ? i % 3 : comps == 2 ? i : i % 299;
      s.add("C" + std::to_string(c), "t" + std::to_string(i), f ? (i % 3 ? THROW_INT : CHECK) : PASS); sel.push_back(i);
   }
   std::string f = xmlFile(); unlink(f.c_str());
   MC_CHECK(args(s.ut.get(), {"-q", "-n", "n", "-i", "i", "-x", f}, false) == 0, "valid options refused");
   for (int r = 0; r < 2; ++r) {
      s.ut->performUnitTests();
      std::string x = slurp(f); unlink(f.c_str());
      MC_CHECK(!x.empty(), "no XML report");
      checkXml(x, s, sel, "i", "n", true);
      mc::transition(n);
   }
   mc::note("%d tests\n", n); mc::state(mc::hash2(n, comps * 10 + which));
}

// ============================ C31 =============================================
// Many options, and long ones.
void c31many() {
   static const int N[] = {1, 2, 9, 10, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000};
   Streams st; g_capture = true;
   Suite s;
   int n = N[choose(sizeof N / sizeof *N)], what = choose(5), verb = choose(3), bad = choose(4);
   s.comp.reserve(n); s.name.reserve(n);
   // the names are prefixes of each other, too, and long ones
   for (int i = 0; i < n; ++i) s.add(what == 3 ? std::string(1 + i / 2, 'c') : "Comp" + std::to_string(i % 7), what == 4 ? std::string(1 + i, 't') : what == 3 ? std::string(2 + i % 2, 'n') : "t" + std::to_string(i), PASS);
   std::vector<std::string> a{"/some/where/unit.exe", "-v", verb == 2 ? "5" : std::to_string(verb)};
   std::vector<bool> in(n, what == 0);
   for (int i = 0; i < n; ++i) if (what && (what == 2 ? i % 3 == 0 : true) && !(what >= 3 && i % 2)) { in[i] = true; a.push_back("-t"); a.push_back(s.t[i]->id); }
   if (what == 0) for (int i = 0; i < n; ++i) { a.push_back(i % 2 ? "-n" : "-i"); a.push_back("value" + std::to_string(i)); }
   if (bad == 1) { a.push_back("-t"); a.push_back("Comp0::t" + std::to_string(n + 7)); }
   if (bad == 2) a.push_back("-Z");
   if (bad == 3) { s.t[n - 1]->act = CHECK; }
   int rc = args(s.ut.release(), a, true);          // (main() deletes the object)
   st.intact("after main()");
   std::string out = st.out.str();
   mc::note("%d tests, %zu arguments -> %d\n", n, a.size(), rc);
   mc::transition(); mc::state(mc::hash2(n, what * 100 + verb * 10 + bad));
   if (bad == 1 || bad == 2) { MC_CHECK(rc != 0, "invalid options give the result 0"); return; }
   for (int i = 0; i < n; ++i) MC_CHECK(s.t[i]->runs == in[i], "test %s was run %d times", s.t[i]->id.c_str(), s.t[i]->runs);
   bool fails = bad == 3 && in[n - 1];
   MC_CHECK((rc != 0) == fails, "the result is %d", rc);
   if (verb == 0) MC_CHECK(out.empty(), "a quiet run writes %s", show(out).c_str());
   else {
      MC_CHECK((out.find("Failed cases: ") != std::string::npos) == fails, "failed cases %s", fails ? "are not listed" : "are listed");
      if (fails) { size_t p = out.find("Failed cases: ") + 14; MC_CHECK(out.substr(p, out.find('\n', p) - p) == s.t[n - 1]->id || out.substr(p, out.find_first_of(" \n", p) - p) == s.t[n - 1]->id, "failed cases listed as %s", show(out.substr(p, 300)).c_str()); }
      if (verb == 2) for (int i = 0; i < n; ++i) if (in[i]) MC_CHECK(out.find(s.t[i]->id.substr(0, 40)) != std::string::npos, "the result of %s is not reported", s.t[i]->id.c_str());
      if (what == 0) MC_CHECK(out.find("Unit Test " + (n > 1 ? "value" + std::to_string(n % 2 ? n - 2 : n - 1) : std::string("unit"))) != std::string::npos, "the summary is not for the name given last: %s", show(out.substr(out.size() > 300 ? out.size() - 300 : 0)).c_str());
   }
}
// The list of failed tests, with every kind of failure in every place; and names, ids and report files given more than once.
void c31failed(const std::vector<int>& acts, int n) {
   Streams st; g_capture = true; std::vector<std::string> events; g_events = &events;
   Suite s; s.comp.reserve(n); s.name.reserve(n);
   for (int i = 0; i < n; ++i) s.add(i % 2 ? "A" : "Comp", "t" + std::to_string(i), (Act)acts[choose((int)acts.size())]);
   int mask = choose(1 << n), verb = 1 + choose(2);
   std::vector<std::string> a{"unit", "-v", std::to_string(verb)}, want; std::vector<bool> in(n, !mask);
   for (int i = 0; i < n; ++i) if (mask >> i & 1) { in[i] = true; a.push_back("-t"); a.push_back(s.t[i]->id); }
   for (int i = 0; i < n; ++i) { if (in[i] && !passes(s.t[i]->act, true)) want.push_back(s.t[i]->id); mc::note("%s=%s ", s.t[i]->id.c_str(), actName[s.t[i]->act]); }
   int rc = args(s.ut.release(), a, true);
   st.intact("after main()");
   std::string out = st.out.str();
   mc::note("-> %d\n", rc);
   mc::transition(n); mc::state(mc::hash2(mask, mc::hashStr(std::to_string(s.t[0]->act) + "," + std::to_string(n > 1 ? s.t[1]->act : 0), n > 2 ? s.t[2]->act : 0)));
   MC_CHECK((rc != 0) == !want.empty(), "the result is %d with %zu failed tests", rc, want.size());
   size_t p = out.find("Failed cases: ");
   MC_CHECK((p != std::string::npos) == !want.empty(), "failed cases are %s", want.empty() ? "listed although every test passed" : "not listed");
   if (want.empty()) return;
   std::string l = out.substr(p + 14, out.find('\n', p) - p - 14), cur; std::istringstream lin(l); std::vector<std::string> named;
   while (std::getline(lin, cur, ',')) { size_t b = cur.find_first_not_of(' '), e = cur.find_last_not_of(' '); named.push_back(b == std::string::npos ? "" : cur.substr(b, e - b + 1)); }
   std::sort(named.begin(), named.end()); std::sort(want.begin(), want.end());
   MC_CHECK(named == want, "failed cases listed as %s", show(l).c_str());
}
void c31values(int maxLen) {
   static const char* names[] = {"N", "", "another name"};
   Streams st; g_capture = true; std::vector<std::string> events; g_events = &events;
   std::string f[2] = {xmlFile(), "second" + xmlFile()}; for (auto& x : f) unlink(x.c_str());
   Suite s; s.add("A", "a", PASS);
   std::vector<std::string> a{"/some/where/unit.exe", "-v", "1"}; std::string name = "unit", id = "unit"; int file = -1;
   int n = choose(maxLen + 1);
   for (int i = 0; i < n; ++i) {
      int o = choose(8);
      a.push_back(o < 3 ? "-n" : o < 6 ? "-i" : "-x");
      if (o < 3) { name = names[o]; a.push_back(name); }
      else if (o < 6) { id = names[o - 3]; a.push_back(id); }
      else { file = o - 6; a.push_back(f[file]); }
      mc::note("%s %s; ", a[a.size() - 2].c_str(), show(a.back()).c_str());
   }
   int rc = args(s.ut.release(), a, true);
   st.intact("after main()");
   std::string out = st.out.str(), x[2] = {slurp(f[0]), slurp(f[1])}; for (auto& y : f) unlink(y.c_str());
   mc::note("-> %d\n", rc); mc::transition(n + 1); { uint64_t h = 0; for (auto& y : a) h = mc::hashStr(y, h); mc::state(h); }
   MC_CHECK(rc == 0, "the result is %d", rc);
   MC_CHECK(out.find("Unit Test " + name + " ") != std::string::npos, "the summary is not for the name %s: %s", show(name).c_str(), show(out).c_str());
   for (int i = 0; i < 2; ++i) {
      if (i != file) { MC_CHECK(x[i].empty(), "a report is written to a file not (or no longer) asked for"); continue; }
      MC_CHECK(x[i].find(" name=\"" + name + "\"") != std::string::npos && x[i].find("<testsuites id=\"" + id + "\"") != std::string::npos, "the report is not for name %s and id %s: %s", show(name).c_str(), show(id).c_str(), show(x[i].substr(0, 300)).c_str());
   }
}
// The verdicts printed for components and the run, with any number of failures.
void c31verdicts() {
   static const int N[] = {1, 2, 3, 10, 127, 128, 129, 255, 256, 257, 511, 512, 513, 768, 1024, 2000};
   Streams st; g_capture = true; std::vector<std::string> events; g_events = &events;
   int n = N[choose(16)], comps = 1 + choose(3), pat = choose(5), act = choose(3), verb = 1 + choose(2);
   static const Act acts[] = {CHECK, THROW_STD, ERR};
   Suite s; s.comp.reserve(n); s.name.reserve(n);
   std::map<std::string, int> failed; int total = 0;
   for (int i = 0; i < n; ++i) {
      std::string c = std::string("Comp") + char('A' + i % comps);
      bool f = pat == 1 ? i == n - 1 : pat == 2 ? true : pat == 3 ? i % comps == 0 : pat == 4 ? i % 3 == 0 : false;
      s.add(c, "t" + std::to_string(i), f ? acts[act] : PASS); failed[c] += f; total += f;
   }
   std::vector<std::string> a{"unit", "-v", std::to_string(verb)};
   int rc = args(s.ut.release(), a, true);
   st.intact("after main()");
   std::string out = st.out.str();
   mc::note("%d tests, %d components, %d failed -> %d\n", n, comps, total, rc); mc::transition(n); mc::state(mc::hash2(n * 4 + comps, pat * 100 + act * 10 + verb));
   MC_CHECK((rc != 0) == (total != 0), "%d failed tests give the result %d", total, rc);
   std::istringstream in(out); std::string l; std::map<std::string, int> seen; int runs = 0;
   while (std::getline(in, l)) {
      size_t p = l.find("Component "), e = l.find(" (elapsed", p == std::string::npos ? 0 : p);
      bool ok = l.find("Passed") != std::string::npos, bad = l.find("FAILED") != std::string::npos;
      if (p != std::string::npos && e != std::string::npos) { std::string c = l.substr(p + 10, e - p - 10); ++seen[c]; MC_CHECK(failed.count(c) && ok == !failed[c] && bad == !ok, "%d of the tests of component %s failed, and the report says %s", failed[c], c.c_str(), show(l).c_str()); }
      else if (l.compare(0, 10, "Unit Test ") == 0 && e != std::string::npos) { ++runs; MC_CHECK(ok == !total && bad == !ok, "%d tests failed, and the report says %s", total, show(l).c_str()); }
   }
   MC_CHECK(runs == 1, "the run's result is reported %d times", runs);
   if (failed.size() > 1) for (auto& f : failed) MC_CHECK(seen[f.first] == 1, "the result of component %s is reported %d times", f.first.c_str(), seen[f.first]);
}
// Verbosity levels: all small numbers, and ones around every power of two.
void c31levels() {
   Streams st;
   static const char* tails[] = {"", "x", ".5", " 3", "-"};
   std::string v; int k = choose(2), t = choose(5);
   if (k == 0) v = std::to_string(choose(1300) - 300);
   else { int e = choose(64); unsigned long long n = e < 63 ? 1ull << e : 0; int d = choose(9) - 1; v = (choose(2) ? "-" : "") + std::to_string(n + d + (n + d > (1ull << 63))); }
   v += tails[t];
   bool valid = v.size() == 1 && v[0] >= '0' && v[0] <= '5';
   if (v == "-0") valid = true;
   std::vector<std::string> events; g_events = &events;
   UnitTest* ut = new UnitTest; Prog p; p.id = "A::p"; p.act = PASS; ut->addTestCase("A", "p", &p);
   std::vector<std::string> a{"unit", "-v", v};
   int rc = args(ut, a, true);
   st.intact("after main()");
   mc::note("-v %s -> %d\n", v.c_str(), rc);
   mc::transition(); mc::state(mc::hashStr(v));
   MC_CHECK((rc == 0) == valid && p.runs == (valid ? 1 : 0), "-v %s: result %d, the test was run %d times", v.c_str(), rc, p.runs);
}
struct Opt { std::vector<const char*> a; };
const std::vector<Opt> OPTS = {
   {{"-q"}}, {{"-c"}}, {{"-e"}}, {{"-v", "0"}}, {{"-v", "1"}}, {{"-v", "2"}}, {{"-v", "3"}}, {{"-v", "4"}}, {{"-v", "5"}}, {{"-t", "A::pass"}}, {{"-t", "B::fail"}}, {{"-t", "B::err"}},
   {{"-n", "NAME"}}, {{"-i", "IDENT"}}, {{"-x", "@"}},
   {{"-v", "6"}}, {{"-v", "-1"}}, {{"-v", "x"}}, {{"-t", "A::none"}}, {{"-t", "A"}}, {{"-h"}}, {{"-z"}}, {{"word"}}, {{""}}, {{"-t", ""}}, {{"-v", ""}}, {{"-v", "3x"}}, {{"-v", "2.5"}}, {{"-v", "4 5"}}, {{"-v", "12345678901234567890"}},
};
const int FIRST_BAD = 15;
void c31(int maxLen, bool distinctFails) {
   Streams st; g_capture = true; std::vector<std::string> events; g_events = &events;
   std::string f = xmlFile(); unlink(f.c_str());
   std::vector<std::unique_ptr<Prog>> t;
   UnitTest* ut = new UnitTest;
   static const char* C[] = {"A", "B", "B", "A"}; static const char* N[] = {"pass", "fail", "err", "quiet"};
   static const Act A[] = {OUT, CHECK, ERR, PASS};
   for (int i = 0; i < 4; ++i) { t.emplace_back(new Prog); t[i]->id = std::string(C[i]) + "::" + N[i]; t[i]->act = A[i]; t[i]->out = "OUTPUT-" + t[i]->id; t[i]->err = "ERRORS-" + t[i]->id; ut->addTestCase(C[i], N[i], t[i].get()); }
   std::vector<std::string> a{"/some/where/unit.exe"}; bool bad = false, help = false; int verb = 2; std::set<int> sel; std::string name = "unit", id = "unit"; bool xml = false; bool dup = false;
   int n = choose(maxLen + 1);
   for (int i = 0; i < n; ++i) {
      int o = choose((int)OPTS.size());
      for (const char* w : OPTS[o].a) a.push_back(strcmp(w, "@") ? std::string(w) : f);
      if (bad) continue;          // the first error decides
      std::string k = OPTS[o].a[0], v = OPTS[o].a.size() > 1 ? OPTS[o].a[1] : "";
      if (o >= FIRST_BAD) { bad = true; help = k == "-h"; continue; }
      if (k == "-q") verb = 0;
      if (k == "-c") g_capture = false;
      if (k == "-v") verb = atoi(v.c_str());
      if (k == "-t") { int x = v == "A::pass" ? 0 : v == "B::fail" ? 1 : 2; if (!sel.insert(x).second) dup = true; }
      if (k == "-n") name = v;
      if (k == "-i") id = v;
      if (k == "-x") xml = true;
   }
   // an option that lacks its value
   int miss = n < maxLen ? choose(6) : 0;
   if (miss) { static const char* m[] = {"", "-v", "-t", "-x", "-n", "-i"}; a.push_back(m[miss]); bad = true; }
   for (size_t i = 1; i < a.size(); ++i) mc::note("%s ", show(a[i]).c_str());
   int rc = args(ut, a, true);
   st.intact("after main()");
   std::string out = st.out.str();
   mc::note("-> %d\n", rc);
   mc::transition(n + 1); mc::state(mc::hashStr([&] { std::string r; for (auto& s : a) r += s + "|"; return r; }()));
   std::string report = slurp(f); unlink(f.c_str());
   if (bad) {
      MC_CHECK(rc != 0, "invalid options give the result 0");
      if (help) MC_CHECK(out.find("-x") != std::string::npos && out.find("-t") != std::string::npos, "-h does not show the help");
      return;
   }
   if (dup) return;               // naming a test twice: not specified
   std::set<int> run = sel; if (run.empty()) run = {0, 1, 2, 3};
   for (int i = 0; i < 4; ++i) MC_CHECK(t[i]->runs == (int)run.count(i), "test %s was run %d times", t[i]->id.c_str(), t[i]->runs);
   auto failing = [&](int i) { return i == 1 || (i == 2 && g_capture); };
   bool any = false; for (int i : run) any = any || failing(i);
   MC_CHECK((rc == 0) == !any, "the result is %d although %s", rc, any ? "some test failed" : "every test passed");
   mc::outcome(rc * 10 + verb);
   auto lines = [&](std::initializer_list<std::string> w) { int k = 0; std::istringstream in(out); std::string l; while (std::getline(in, l)) { bool ok = true; for (auto& x : w) ok = ok && l.find(x) != std::string::npos; k += ok; } return k; };
   auto has = [&](const std::string& w) { return out.find(w) != std::string::npos; };
   if (!g_capture) { // remove what the tests wrote directly
      for (int i : run) { auto p = out.find(t[i]->out); if (p != std::string::npos && i == 0) out.erase(p, t[i]->out.size()); }
   }
   if (verb == 0) MC_CHECK(out.empty(), "a quiet run writes %s", show(out).c_str());
   else {
      MC_CHECK(has("Unit Test " + name), "no summary for %s in %s", name.c_str(), show(out).c_str());
      // the failed ones are named, and no others
      size_t p = out.find("Failed cases: ");
      if (!any) MC_CHECK(p == std::string::npos, "failed cases listed although every test passed");
      else {
         MC_CHECK(p != std::string::npos, "failed cases not listed in %s", show(out).c_str());
         std::string l = out.substr(p + 14, out.find('\n', p) - p - 14);
         std::set<std::string> named, want; std::string cur; std::istringstream in(l);
         while (std::getline(in, cur, ',')) { while (!cur.empty() && cur[0] == ' ') cur.erase(0, 1); named.insert(cur); }
         for (int i : run) if (failing(i)) want.insert(t[i]->id);
         MC_CHECK(named == want, "failed cases listed as %s", show(l).c_str());
      }
      for (int i = 0; i < 4; ++i) {
         const std::string& tid = t[i]->id;
         if (!run.count(i)) { MC_CHECK(!has(tid), "the output mentions %s, which was not run", tid.c_str()); continue; }
         int ok = lines({tid, "OK"}), go = lines({tid, "GO"});
         MC_CHECK(go == (verb >= 3 ? 1 : 0), "verbosity %d: %s announced %d times", verb, tid.c_str(), go);
         if (!failing(i)) MC_CHECK(ok == (verb >= 2 ? 1 : 0), "verbosity %d: result of %s reported %d times", verb, tid.c_str(), ok);
         else { MC_CHECK(ok == 0, "the failing test %s is reported as OK", tid.c_str()); if (verb >= 2) MC_CHECK(has(tid), "verbosity %d: result of %s not reported", verb, tid.c_str()); }
      }
      if (g_capture) {
         if (run.count(0)) MC_CHECK(has(t[0]->out) == (verb >= 5), "verbosity %d: output of a passing test %s", verb, verb >= 5 ? "not dumped" : "dumped");
         if (run.count(2) && verb >= 2) MC_CHECK(has(t[2]->err), "verbosity %d: error output of a failing test not dumped", verb);
      }
   }
   if (xml) {
      MC_CHECK(!report.empty(), "no report file");
      Node d = Xml(report).document();
      MC_CHECK(d.at["name"] == name && d.at["id"] == id, "report for %s %s instead of %s %s", d.at["name"].c_str(), d.at["id"].c_str(), name.c_str(), id.c_str());
      MC_CHECK(d.at["tests"] == std::to_string(run.size()), "report of %s tests instead of %zu", d.at["tests"].c_str(), run.size());
   } else MC_CHECK(report.empty(), "a report was written without -x");
   g_events = nullptr;
}

// ============================ C32 =============================================
struct Base : std::runtime_error { using runtime_error::runtime_error; };
struct Derived : Base { using Base::Base; };

// (no pair of the domain is between "a rounding error apart" and "a thousandth apart", nor are there two values that are not numbers)
bool near(double x, double y) { return x == y || std::fabs(x - y) < 1e-7; }
struct Checks : public TestCase {
   int macro = 0, form = 0; int a = 0, b = 0; double x = 0, y = 0; std::string s, t;
   int line = 0, evals = 0; bool after = false;
   bool want = true;          // the relation holds
   bool stops = true;         // a failure ends the body
   std::string text, actual;
   int ev(int v) { ++evals; return v; }
   int thr(int k) { switch (k) { case 0: return 0; case 1: throw Base("base"); case 2: throw Derived("derived"); case 3: throw std::logic_error("logic"); case 4: throw 7; } return 0; }
// the line of the check is the line of CASE
#define CASE(n, W, T, ACT, STMT) case n: { want = (W); text = T; { std::ostringstream o; o << (ACT); actual = o.str(); } line = __LINE__; STMT; after = true; return; }
#define CMP(M, OP, base) \
   CASE(base + 0, a OP b, "a " #OP " b", b, M(a, b)) \
   CASE(base + 1, a OP (a & b), "a " #OP " a & b", (a & b), M(a, a & b)) \
   CASE(base + 2, a OP (a < b ? b : a + 1), "a " #OP " a < b ? b : a + 1", (a < b ? b : a + 1), M(a, a < b ? b : a + 1)) \
   CASE(base + 3, (a | b) OP b, "a | b " #OP " b", b, M(a | b, b)) \
   CASE(base + 4, (a + 1) OP (b - 1), "a + 1 " #OP " b - 1", b - 1, M(a + 1, b - 1)) \
   CASE(base + 5, a OP b, "ev(a) " #OP " ev(b)", b, M(ev(a), ev(b)))
   void test() override {
      after = false;
      switch (macro * 10 + form) {
      CMP(EXPECT_EQ, ==, 0)
      CMP(EXPECT_NE, !=, 10)
      CMP(EXPECT_GT, >, 20)
      CMP(EXPECT_GE, >=, 30)
      CMP(EXPECT_LT, <, 40)
      CMP(EXPECT_LE, <=, 50)
      CASE(60, s == t, "s", t, EXPECT_STREQ(s, t))
      CASE(61, s == t, "s", t, EXPECT_STREQ(s.c_str(), t))
      CASE(62, s == t + s, "s", t + s, EXPECT_STREQ(s, t + s))
      CASE(63, s == (a ? t : s), "s", (a ? t : s), EXPECT_STREQ(s, a ? t : s))
      CASE(64, s != t, "s", t, EXPECT_STRNE(s, t))
      CASE(65, s != t + s, "s", t + s, EXPECT_STRNE(s, (t + s).c_str()))
      CASE(70, a != 0, "a", a, EXPECT_TRUE(a))
      CASE(71, a < b, "a < b", (a < b), EXPECT_TRUE(a < b))
      CASE(72, (a < b || b == 0), "a < b || b == 0", (a < b || b == 0), EXPECT_TRUE(a < b || b == 0))
      CASE(73, (a ? b : 1), "a ? b : 1", (a ? b : 1), EXPECT_TRUE(a ? b : 1))
      CASE(74, a == 0, "a", a, EXPECT_FALSE(a))
      CASE(75, !(a < b || b == 0), "a < b || b == 0", (a < b || b == 0), EXPECT_FALSE(a < b || b == 0))
      CASE(76, !(a ? b : 1), "a ? b : 1", (a ? b : 1), EXPECT_FALSE(a ? b : 1))
      CASE(80, near(x, y), "x == y", y, EXPECT_FLOAT_EQ(x, y))
      CASE(81, near(x, x + y), "x == x + y", x + y, EXPECT_FLOAT_EQ(x, x + y))
      CASE(82, near(x + y, y), "x + y == y", y, EXPECT_FLOAT_EQ(x + y, y))
      CASE(83, near(x, x < y ? y : x), "x == x < y ? y : x", (x < y ? y : x), EXPECT_FLOAT_EQ(x, x < y ? y : x))
      CASE(84, !near(x, y), "x != y", y, EXPECT_FLOAT_NE(x, y))
      CASE(85, !near(x, x + y), "x != x + y", x + y, EXPECT_FLOAT_NE(x, x + y))
      CASE(86, !near(x + y, y), "x + y != y", y, EXPECT_FLOAT_NE(x + y, y))
      case 90: stops = false; want = a == 1 || a == 2; line = __LINE__; EXPECT_THROW(thr(a), Base); after = true; return;
      case 91: stops = false; want = a == 2; line = __LINE__; EXPECT_THROW(thr(a), Derived); after = true; return;
      case 92: stops = false; want = a >= 1 && a <= 3; line = __LINE__; EXPECT_THROW(int q = thr(a); (void)q, std::exception); after = true; return;
      case 93: stops = false; want = a != 0; line = __LINE__; EXPECT_ANY_THROW(thr(a)); after = true; return;
      case 94: stops = false; want = a == 0; line = __LINE__; EXPECT_NO_THROW(thr(a)); after = true; return;
      case 95: stops = false; want = a == 0; line = __LINE__; EXPECT_NO_THROW(thr(0); thr(a)); after = true; return;
      case 96: stops = false; want = a == 4; line = __LINE__; EXPECT_THROW(thr(a), int); after = true; return;
      case 100: stops = false; want = false; text = "explicit"; line = __LINE__; FAIL("explicit"); after = true; return;
      default: mc::broken("no case %d", macro * 10 + form);
      }
   }
};
void c32() {
   Streams st;
   static const int forms[] = {6, 6, 6, 6, 6, 6, 6, 7, 7, 7, 1};
   static const char* strs[] = {"", "a", "b", "ab", "a longer text <with> \"things\"", "A", " ", " b", "\n"};
   static const double dbl[] = {0, 1, -1, 0.5, 0.25, -0.25, 100.125, 1e6, 3.75, 0.7 + 0.1, 0.8, -0.1 - 0.2, -0.3, 1e15, 1e300, -1e300, 2e300, INFINITY, -INFINITY, 4294967296.5, 9.3e14, 123456.789, 1e-9, -1e-9};
   const int ND = sizeof dbl / sizeof *dbl;
   Checks c; c.macro = choose(11); c.form = choose(forms[c.macro]);
   int m = c.macro;
   if (m <= 5) { c.a = choose(7) - 3; c.b = choose(7) - 3; }
   if (m == 6) { c.s = strs[choose(9)]; c.t = strs[choose(9)]; c.a = choose(2); }
   if (m == 7) { c.a = choose(5) - 2; c.b = choose(5) - 2; }
   if (m == 8) { c.x = dbl[choose(ND)]; c.y = dbl[choose(ND)]; if (std::isnan(c.x + c.y)) c.x = 1; }
   if (m == 9) c.a = choose(5);
   UnitTest ut; ut.addTestCase("C", "c", &c);
   std::vector<std::string> q{"-q"}; args(&ut, q, false);
   int runs = 1 + choose(2);
   for (int r = 0; r < runs; ++r) {
      c.evals = 0;
      int rc = ut.performTest("C::c");
      bool escaped = m == 9 && !c.after;
      mc::note("macro %d form %d a=%d b=%d x=%g y=%g s=%s t=%s -> %s\n", m, c.form, c.a, c.b, c.x, c.y, c.s.c_str(), c.t.c_str(), c.statusDesc());
      bool passed = c.status() == TestCase::SUCCESS;
      MC_CHECK(passed == c.want && (rc == 0) == c.want, "macro %d form %d (a=%d b=%d x=%g y=%g s=%s t=%s): relation %s, test %s (%s)", m, c.form, c.a, c.b, c.x, c.y, show(c.s).c_str(), show(c.t).c_str(),
               c.want ? "holds" : "does not hold", passed ? "passed" : "failed", c.failDesc());
      if (c.want) MC_CHECK(c.after, "macro %d form %d: the body ended although the check holds", m, c.form);
      else {
         if (c.stops) MC_CHECK(!c.after, "macro %d form %d: the body went on after the failed check", m, c.form);
         if (!escaped) {
            MC_CHECK(c.failLine() == c.line, "macro %d form %d: failure recorded at line %d instead of %d", m, c.form, c.failLine(), c.line);
            MC_CHECK(!strcmp(c.failFile(), "fut_seq.cpp") || !strcmp(c.failFile(), __FILE__), "macro %d form %d: failure recorded in file %s", m, c.form, c.failFile());
            std::string d = c.failDesc();
            MC_CHECK(!d.empty(), "macro %d form %d: no failure description", m, c.form);
            if (!c.text.empty()) MC_CHECK(d.find(c.text) != std::string::npos, "macro %d form %d: the failure %s does not give the expression %s", m, c.form, show(d).c_str(), show(c.text).c_str());
            if (!c.actual.empty()) { size_t p = d.find(c.text); MC_CHECK(d.find(c.actual, p == std::string::npos ? 0 : p + c.text.size()) != std::string::npos, "macro %d form %d: the failure %s does not give the actual value %s", m, c.form, show(d).c_str(), show(c.actual).c_str()); }
         }
      }
      if (m <= 5 && c.form == 5) MC_CHECK(c.evals >= 2, "arguments not evaluated");
      mc::transition(); mc::outcome(10 + passed);
   }
   mc::state(mc::hash2(mc::hash2(m * 10 + c.form, (c.a + 10) * 100 + c.b + 10), mc::hashStr(c.s + "|" + c.t, (uint64_t)(c.x * 1000) * 31 + (uint64_t)(c.y * 1000))));
}
// Values of other types, and long texts.
template<class T> struct Typed : public TestCase {
   T a, b; int op; bool after;
   void test() override {
      after = false;
      switch (op) {
      case 0: EXPECT_EQ(a, b); break;
      case 1: EXPECT_NE(a, b); break;
      case 2: EXPECT_LT(a, b); break;
      case 3: EXPECT_LE(a, b); break;
      case 4: EXPECT_GT(a, b); break;
      case 5: EXPECT_GE(a, b); break;
      }
      after = true;
   }
   bool holds() const { switch (op) { case 0: return a == b; case 1: return !(a == b); case 2: return a < b; case 3: return !(b < a); case 4: return b < a; default: return !(a < b); } }
};
template<class T> void c32typed(const char* type, const std::vector<T>& values) {
   Streams st;
   Typed<T> c;
   c.op = choose(6);
   int i = choose((int)values.size()), j = choose((int)values.size());
   c.a = values[i]; c.b = values[j];
   UnitTest ut; ut.addTestCase("C", "c", &c);
   args(&ut, {"-q"}, false);
   int rc = ut.performTest("C::c");
   static const char* ops[] = {"==", "!=", "<", "<=", ">", ">="};
   std::ostringstream act; act << c.b;
   mc::note("%s %d %s %d -> %s\n", type, i, ops[c.op], j, c.statusDesc());
   MC_CHECK((rc == 0) == c.holds() && (c.status() == TestCase::SUCCESS) == c.holds() && c.after == c.holds(), "%s: value %d %s value %d %s, but the test %s", type, i, ops[c.op], j, c.holds() ? "holds" : "does not hold", c.status() == TestCase::SUCCESS ? "passed" : "failed");
   if (!c.holds() && act.str().find('\0') == std::string::npos) { std::string d = c.failDesc(); MC_CHECK(d.find(std::string("a ") + ops[c.op] + " b") != std::string::npos && d.find(act.str()) != std::string::npos, "%s: the failure %s does not give the expression, or the actual value %s", type, show(d).c_str(), show(act.str()).c_str()); }
   mc::transition(); mc::state(mc::hash2(mc::hashStr(type), (c.op * 100 + i) * 100 + j));
}
enum Plain { P0, P1, PBIG = 1 << 30 };
void c32types() {
   switch (choose(10)) {
   case 0: return c32typed<int64_t>("int64", {0, 1, -1, INT64_MAX, INT64_MIN, 1LL << 32, (1LL << 32) + 1, 1LL << 31, -(1LL << 31), (1LL << 53) + 1, 1LL << 53, 256, 65536});
   case 1: return c32typed<uint64_t>("uint64", {0, 1, UINT64_MAX, 1ULL << 63, 1ULL << 32, (1ULL << 32) + 1, 0xffffffff, (1ULL << 53) + 1, 1ULL << 53});
   case 2: return c32typed<unsigned>("unsigned", {0, 1, 0xffffffff, 1u << 31, 65536, 256});
   case 3: return c32typed<short>("short", {0, 1, -1, 32767, -32768, 256});
   case 4: return c32typed<char>("char", {'a', 'b', '\xff', ' ', '0'});
   case 5: return c32typed<bool>("bool", {false, true});
   case 6: return c32typed<double>("double", {0.0, -0.0, 1e-300, 1.0, 1.0000001, 0.1 + 0.2, 0.3, 1e300, -1e300, INFINITY});
   case 7: return c32typed<std::string>("string", {"", "a", "b", "ab", std::string("a\0b", 3), std::string("a\0c", 3), std::string(5000, 'x'), std::string(4999, 'x') + "y", std::string(70000, 'x')});
   case 8: { static const char buf[] = "abc"; return c32typed<const char*>("pointer", {buf, buf + 1, buf + 2}); }
   default: return c32typed<Plain>("enum", {P0, P1, PBIG});
   }
}
struct LongStr : public TestCase {
   std::string a, b; bool eq, after;
   void test() override { after = false; if (eq) { EXPECT_STREQ(a, b); } else { EXPECT_STRNE(a, b); } after = true; }
};
void c32long() {
   static const int L[] = {1, 2, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 300000};
   Streams st;
   LongStr c; int n = L[choose(sizeof L / sizeof *L)], how = choose(6); c.eq = choose(2);
   c.a = std::string(n, 'x'); c.b = c.a;
   if (how == 1) c.b[n - 1] = 'y'; 
   if (how == 2) c.b[0] = 'y'; 
   if (how == 3) c.b += 'x'; 
   if (how == 4) c.b[n / 2] = 'X'; 
   if (how == 5) c.b[n - 1] = '\0';
   bool want = (how == 0) == c.eq;
   UnitTest ut; ut.addTestCase("C", "c", &c);
   args(&ut, {"-q"}, false);
   int rc = ut.performTest("C::c");
   mc::note("texts of %d characters, %d, %d -> %s\n", n, how, c.eq, c.statusDesc());
   MC_CHECK((rc == 0) == want && (c.status() == TestCase::SUCCESS) == want && c.after == want, "two texts of %d characters, %s: the test %s", n, how ? "different" : "the same", c.status() == TestCase::SUCCESS ? "passed" : "failed");
   if (!want && how != 5) MC_CHECK(std::string(c.failDesc()).find(c.b) != std::string::npos, "the failure does not give the actual value, of %zu characters: %s", c.b.size(), show(c.failDesc()).c_str());
   mc::transition(); mc::state((n * 10 + how) * 2 + c.eq);
}
// ============================ C33 =============================================
#if PROP == 33
typedef int64_t Us;
constexpr Us MS = 1000, SEC = 1000000, HOUR = 3600 * SEC;
struct Clock {
   bool on = false; Us t = 0;              // microseconds since 1970
   long interruptAt = -1, waits = 0;       // the wait that a signal interrupts, and how far in
   Us asked = 0;
} g_clk;
void pass(Us d) { g_clk.t += d; }

struct Timed : public TestCase {
   std::string id;
   Act act = PASS;
   Us su = 0, b1 = 0, b2 = 0, td = 0;
   Us begun = 0;                  // when the run of this test began
   bool ran = false, tore = false;
   Us lo() const { return ran ? b1 + b2 : 0; }
   Us hi() const { return su + (ran ? b1 + b2 : 0) + (tore ? td : 0); }
   static bool within(int64_t ms, Us lo, Us hi) { return ms * MS >= lo - MS && ms * MS <= hi + MS; }
   void SetUp() override { ran = tore = false; begun = g_clk.t; pass(su); if (act == SETUP_THROW) throw std::runtime_error("setup"); if (act == SETUP_CHECK) chk(); }
   void TearDown() override { tore = true; pass(td); if (act == TEARDOWN_THROW) throw std::runtime_error("teardown"); }
   void chk() { EXPECT_EQ(1, (int)id.size() + 100); }
   void now(const char* when, Us lo, Us hi) { int64_t n = elapsedTimeNow(); MC_CHECK(within(n, lo, hi), "%s of %s: elapsedTimeNow() is %lld ms, %lld to %lld us have passed", when, id.c_str(), (long long)n, (long long)lo, (long long)hi); }
   void test() override {
      ran = true;
      now("begin", 0, su);
      pass(b1); now("body", b1, su + b1);
      pass(b2);
      if (act == CHECK) chk();
      if (act == THROW_INT) throw 5;
      if (act == THROW_STD) throw std::runtime_error("body");
      if (act == ERR) std::cerr << "err";
   }
};
std::string us(Us v) { char b[40]; snprintf(b, sizeof b, "%lld.%06llds", (long long)(v / SEC), (long long)(v % SEC)); return b; }

struct TSuite {
   std::vector<std::unique_ptr<Timed>> t; std::vector<std::string> comp, name; std::unique_ptr<UnitTest> ut{new UnitTest};
   void add(const std::string& c, const std::string& n) { t.emplace_back(new Timed); t.back()->id = c + "::" + n; comp.push_back(c); name.push_back(n); }
   void done() { for (size_t i = 0; i < t.size(); ++i) ut->addTestCase(comp[i].c_str(), name[i].c_str(), t[i].get()); }
};
// a printed number of seconds: exact to the millisecond or to the digits that three significant ones give
bool seconds(const std::string& txt, double* v) { char* e; *v = strtod(txt.c_str(), &e); return !txt.empty() && !*e; }
void printed(const std::string& txt, Us lo, Us hi, const std::string& what, bool console) {
   double v = 0, w = 0; bool ok = seconds(txt, &v);
   // on the console, it may also be written in the way of the application's locale
   bool alt = false;
   if (console && std::locale() != std::locale::classic()) { std::string o; for (char c : txt) if (c != '.') o += c == ',' ? '.' : c; alt = seconds(o, &w); if (!ok && alt) { v = w; ok = true; } }
   MC_CHECK(ok, "%s: %s is no number of seconds", what.c_str(), show(txt).c_str());
   double tol = 0.0016 + hi / 1e6 * 0.006;
   auto fits = [&](double x) { return x >= lo / 1e6 - tol && x <= hi / 1e6 + tol; };
   MC_CHECK(fits(v) || (alt && fits(w)), "%s is reported to have taken %s s; it took between %s and %s", what.c_str(), txt.c_str(), us(lo).c_str(), us(hi).c_str());
}
void reported(TSuite& s, const std::string& x, const std::string& out, int* seen) {
   Node d = Xml(x).document();
   Us allLo = 0, allHi = 0; std::map<std::string, Us> lo, hi;
   for (size_t i = 0; i < s.t.size(); ++i) { Us l = s.t[i]->lo(), h = s.t[i]->hi(); allLo += l; allHi += h; lo[s.comp[i]] += l; hi[s.comp[i]] += h; }
   printed(d.at["time"], allLo, allHi, "the run", false);
   for (Node& k : d.kids) {
      printed(k.at["time"], lo[k.at["name"]], hi[k.at["name"]], "component " + k.at["name"], false);
      for (Node& e : k.kids) for (size_t i = 0; i < s.t.size(); ++i) if (s.comp[i] == k.at["name"] && s.name[i] == e.at["name"]) { printed(e.at["time"], s.t[i]->lo(), s.t[i]->hi(), "test " + s.t[i]->id, false); ++*seen; }
   }
   std::istringstream in(out); std::string l;
   while (std::getline(in, l)) {
      size_t e = l.find(" (elapsed ");
      if (e != std::string::npos) {
         size_t q = l.find("s)", e); MC_CHECK(q != std::string::npos, "no duration in %s", show(l).c_str());
         std::string v = l.substr(e + 10, q - e - 10);
         if (l.compare(0, 10, "Unit Test ") == 0) { printed(v, allLo, allHi, "the run", true); ++*seen; }
         else { size_t b = l.find("Component "); MC_CHECK(b != std::string::npos && b < e, "whose duration is %s?", show(l).c_str()); std::string c = l.substr(b + 10, e - b - 10); printed(v, lo[c], hi[c], "component " + c, true); ++*seen; }
      }
      else if (l[0] == '[') for (auto& t : s.t) {
         size_t b = l.find(": " + t->id + " "); if (b == std::string::npos) continue;
         std::istringstream w(l.substr(b + 2 + t->id.size())); std::string tok, v;
         while (w >> tok) { if (tok == "GO") { v.clear(); break; } if (tok.size() > 1 && tok.back() == 's' && isdigit((unsigned char)tok[0])) v = tok.substr(0, tok.size() - 1); }
         if (!v.empty()) { printed(v, t->lo(), t->hi(), "test " + t->id, true); ++*seen; }
      }
   }
}
const Us bases[] = {1795000000 * SEC + 999999, 5, ((Us)1 << 31) * SEC - 1200 * MS - 1, 40000000000 * SEC + 500};
void c33(int ntests, int runs, bool fine, int nbases, int nacts) {
   static const Us SU[] = {0, 7 * MS, 1500 * MS}, B1[] = {0, 999, 1 * MS, 250 * MS, 61250 * MS + 1, 30 * HOUR}, B2[] = {0, 3 * MS}, TD[] = {0, 20 * MS};
   static const Us su2[] = {0, 1500 * MS}, b2[] = {999, 250 * MS, 30 * HOUR}, td2[] = {0, 20 * MS};
   static const Act A[] = {PASS, THROW_INT, SETUP_THROW, CHECK, TEARDOWN_THROW, THROW_STD, ERR, SETUP_CHECK};
   seq::GlobalLocale loc(fine && choose(2));
   Streams st;
   TSuite s; static const char* comps[] = {"B", "A", "B"}; static const char* names[] = {"x", "y", "z"};
   for (int i = 0; i < ntests; ++i) s.add(comps[i], names[i]);
   s.done();
   for (auto& t : s.t) MC_CHECK(t->elapsedTime() == 0, "the elapsed time of a test that has not run is %lld", (long long)t->elapsedTime());
   std::string f = xmlFile(); unlink(f.c_str());
   bool single = runs == 1 && fine && choose(2);
   std::vector<std::string> a{"-v", single ? "0" : std::to_string(2 + choose(2)), "-x", f};
   MC_CHECK(args(s.ut.get(), a, false) == 0, "valid options refused");
   g_clk = Clock(); g_clk.t = bases[choose(nbases)]; g_clk.on = true;
   for (int r = 0; r < runs; ++r) {
      st.out.str("");
      for (auto& t : s.t) {
         if (fine) { t->act = A[choose(nacts)]; t->su = SU[choose(3)]; t->b1 = B1[choose(6)]; t->b2 = B2[choose(2)]; t->td = TD[choose(2)]; }
         else { t->act = A[choose(nacts)]; t->su = su2[choose(2)]; t->b1 = b2[choose(3)]; t->b2 = 0; t->td = td2[choose(2)]; }
         mc::note("%s=%s setup %s body %s teardown %s; ", t->id.c_str(), actName[t->act], us(t->su).c_str(), us(t->b1 + t->b2).c_str(), us(t->td).c_str());
      }
      if (single) s.ut->performTest(s.t[0]->id.c_str()); else s.ut->performUnitTests();
      int seen = 0;
      if (!single) {
         std::string x = slurp(f); unlink(f.c_str());
         reported(s, x, st.out.str(), &seen);
         MC_CHECK(seen >= ntests + 1, "only %d durations were found in the reports", seen);
      }
      for (auto& t : s.t) {
         int64_t e = t->elapsedTime();
         MC_CHECK(Timed::within(e, t->lo(), t->hi()), "test %s (%s): elapsedTime() is %lld ms; it took between %s and %s", t->id.c_str(), actName[t->act], (long long)e, us(t->lo()).c_str(), us(t->hi()).c_str());
      }
      Timed& last = *s.t[0]; Us d = g_clk.t - last.begun; pass(2 * SEC);
      last.now("after the run", d + 2 * SEC - last.su, d + 2 * SEC);
      mc::transition(ntests); mc::state(mc::hash2(g_clk.t, r)); mc::note("\n");
   }
   g_clk.on = false;
}
// waitTime() waits at least as long as told, whatever the signals
void c33wait() {
   static const int64_t W[] = {0, 1, 2, 999, 1000, 1001, 61000, 4294967, 4294968, 10000000, 86400000, -1, -5000};
   g_clk = Clock(); g_clk.t = bases[choose(2)]; 
   int64_t w = W[choose(13)];
   g_clk.interruptAt = choose(3) - 1;
   Us t0 = g_clk.t; g_clk.on = true;
   falcon::int64 m0 = 0, m1 = 0; markTime(m0);
   waitTime(w);
   markTime(m1);
   g_clk.on = false;
   Us want = w > 0 ? w * MS : 0, d = g_clk.t - t0;
   mc::note("wait for %lld ms, signal %ld -> %s\n", (long long)w, g_clk.interruptAt, us(d).c_str());
   MC_CHECK(d >= want, "waitTime(%lld) came back after %s%s", (long long)w, us(d).c_str(), g_clk.interruptAt >= 0 ? " (a signal arrived)" : "");
   MC_CHECK(d <= want + want / 10 + 60 * MS, "waitTime(%lld) came back only after %s", (long long)w, us(d).c_str());
   MC_CHECK(std::abs((m1 - m0) * MS - d) <= MS, "markTime(): %lld ms between two moments %s apart", (long long)(m1 - m0), us(d).c_str());
   mc::transition(); mc::state(mc::hash2(w, g_clk.interruptAt)); mc::outcome(d);
}
// one wait of the virtual clock; false if a signal cut it short
bool sleepFor(Us d, Us* left) {
   if (d < 0) d = 0;
   bool cut = g_clk.waits++ == g_clk.interruptAt && d > 0;
   Us t = cut ? d / 3 : d;
   g_clk.t += t; if (left) *left = d - t;
   return !cut;
}
#endif
}
#if PROP == 33
// ---- the clock and the waits of the code under test ---------------------------
#include <cerrno>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ctime>
extern "C" {
int gettimeofday(struct timeval* tv, void* tz) throw() {
   if (!g_clk.on) { timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); tv->tv_sec = s.tv_sec; tv->tv_usec = s.tv_nsec / 1000; return 0; }
   tv->tv_sec = g_clk.t / SEC; tv->tv_usec = g_clk.t % SEC; (void)tz; return 0;
}
int clock_gettime(clockid_t c, timespec* ts) throw() {
   if (!g_clk.on) return (int)syscall(SYS_clock_gettime, c, ts);
   ts->tv_sec = g_clk.t / SEC; ts->tv_nsec = g_clk.t % SEC * 1000; return 0;
}
time_t time(time_t* o) throw() {
   time_t v; if (g_clk.on) v = g_clk.t / SEC; else { timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); v = s.tv_sec; }
   if (o) *o = v;
   return v;
}
int usleep(useconds_t u) {
   if (!g_clk.on) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
   if (!sleepFor(u, nullptr)) { errno = EINTR; return -1; }
   return 0;
}
unsigned sleep(unsigned n) {
   if (!g_clk.on) { timespec t{(time_t)n, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
   Us left = 0; sleepFor(n * SEC, &left); return (unsigned)((left + SEC - 1) / SEC);
}
int nanosleep(const timespec* a, timespec* b) {
   if (!g_clk.on) return (int)syscall(SYS_nanosleep, a, b);
   Us left = 0; Us d = a->tv_sec * SEC + (a->tv_nsec + 999) / 1000;
   if (sleepFor(d, &left)) return 0;
   if (b) { b->tv_sec = left / SEC; b->tv_nsec = left % SEC * 1000; }
   errno = EINTR; return -1;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
   if (!g_clk.on) return (int)syscall(SYS_clock_nanosleep, c, fl, a, b);
   Us left = 0; Us d = a->tv_sec * SEC + (a->tv_nsec + 999) / 1000;
   if (fl & TIMER_ABSTIME) d -= g_clk.t;
   if (sleepFor(d, &left)) return 0;
   if (b && !(fl & TIMER_ABSTIME)) { b->tv_sec = left / SEC; b->tv_nsec = left % SEC * 1000; }
   return EINTR;
}
}
#endif
namespace {
}

static std::vector<mc::Scenario> build_all(bool T) {
   std::vector<mc::Scenario> v;
   double cap = T ? 1200 : 60; (void)cap;
   auto add = [&](const char* n, const std::string& bounds, std::function<void()> f) { mc::Scenario s; s.name = n; s.body = f; s.bounds = bounds; s.cap_s = cap; v.push_back(s); };
   std::vector<int> all; for (int i = 0; i < NACTS; ++i) all.push_back(i);
   std::vector<int> some{PASS, CHECK, THROW_STD, THROW_INT, ERR, OUT, SOFT_FAIL, SETUP_THROW, TEARDOWN_CHECK};
   std::vector<int> few{PASS, CHECK, THROW_INT, ERR, SETUP_THROW};
   (void)some; (void)few;
#if PROP == 28
   if (T) add("pairs", "two tests, every behaviour of each (26) in each of two runs, options -e, -c, -v 0/2/5", [=] { c28(2, 2, false, all); });
   else add("pairs", "two tests in two runs, every behaviour (26) of one and 9 of the other in each, options -e, -c, -v 0/2/5", [=] { c28(2, 2, false, all, &some); });
   add("behaviours", "two tests, every behaviour (26), one run, every selection", [=] { c28(2, 1, true, all); });
   add("triples", "three tests in two components, 9 behaviours, every selection", [=] { c28(3, 1, true, some); });
   add("histories", "two tests, 5 behaviours, " + std::string(T ? "4" : "3") + " runs", [=] { c28(2, T ? 4 : 3, false, few); });
   if (T) add("four", "four tests, 5 behaviours, every selection", [=] { c28(4, 1, true, few); });
   add("defined", "six tests in three components defined with the macros, every selection, outcome and way of running", [=] { c28defined(); });
   v.back().forked = true;
   add("many", "27 numbers of tests up to 65537, of which none, one, some or all fail in 4 ways, every selection and component structure of 3, three runs", [=] { c28many(); });
   add("often", "1000 runs of two tests, one of which behaves in each of 26 ways each time, each second, third or fourth time", [=] { c28often(); });
   add("stderr", "two tests in two runs, one of which writes one of 13 texts on the error stream in one of 8 ways in SetUp or body, capture on and off, -e or not", [=] { c28stderr(); });
   add("added", "tests of 2 components and 3 behaviours added before, between and after runs, with one selected or none: all sequences of " + std::string(T ? "5" : "4") + " additions, runs and single tests", [=] { c28added(T ? 5 : 4, {PASS, CHECK, THROW_INT}); });
   add("single", "performTest and performUnitTests in every order, " + std::string(T ? "4" : "3") + " calls, 9 behaviours", [=] { c28single(T ? 4 : 3, some); });
#elif PROP == 29
   add("pairs", "two tests, every behaviour (26), 5 texts, capture on and off, whole runs and single tests, with one buffer or two behind the standard streams", [=] { c29(2, 1); });
   add("twice", "one test, run " + std::string(T ? "3 times" : "twice") + ", every behaviour and text each time", [=] { c29(1, T ? 3 : 2); });
   if (T) add("triples", "three tests, every behaviour and text", [=] { c29(3, 1); });
   add("volume", "output of 31 sizes up to 300000 characters, written in 6 ways on each stream, twice, dumped or not", [=] { c29volume(); });
#elif PROP == 30
   add("long", "texts of 31 lengths up to 300000 with one of 9 special ones at the end, in the middle or all over, in each of 9 places", [=] { c30long(); });
   add("many", "18 numbers of tests up to 3000, in one, 3, 299 or as many components, 5 patterns of failures, two runs, with the classic global locale or with one that groups digits", [=] { c30many(); });
   int len = T ? 4 : 3;
   add("texts", "all texts up to " + std::to_string(len) + " of 14 characters in each of 8 places", [=] { c30texts(len); });
   add("markup", "38 texts with entities, markup, escapes, separators and the like, doubled or with others around, in each of 8 places", [=] { c30texts(0); });
   add("characters", "every single byte and every boundary of UTF-8 in each of 7 places; in a message, all characters (256 at a time), all pairs of bytes, and all leading bytes with 2-3 others out of 16", [=] { c30bytes(0); });
   add("bytes", "all texts of up to " + std::to_string(T ? 4 : 3) + " of 18 characters of one to four bytes, control characters and bytes that are no UTF-8, in each of 7 places", [=] { c30bytes(T ? 4 : 3); });
   add("outcomes", "three tests in two components, every selection, 9 behaviours each, capture on and off, one or two runs", [=] { c30outcomes(3, some); });
   add("outcomes2", "two tests, every behaviour, one of them in each of two runs", [=] { c30outcomes(2, all, true); });
   if (T) add("outcomes4", "four tests in three components, every selection, 5 behaviours each", [=] { c30outcomes(4, few); });
#elif PROP == 31
   int n = T ? 5 : 4;
   add("options", "all sequences of up to " + std::to_string(n) + " of 30 options with values, and an option without its value at the end", [=] { c31(n, false); });
   add("levels", "-v with all numbers from -300 to 999, ones around every power of two up to 2^63, and texts that start with them", [=] { c31levels(); });
   add("verdicts", "16 numbers of tests up to 2000, 1-3 components, 5 patterns of failures of 3 kinds: the verdicts printed", [=] { c31verdicts(); });
   add("failed", "three tests, every kind of failure, every selection: the list of failed cases", [=] { c31failed(T ? all : some, 3); });
   add("failed2", "two tests, every behaviour", [=] { c31failed(all, 2); });
   add("values", "all sequences of up to " + std::to_string(T ? 5 : 4) + " of 8 options for names, ids and report files", [=] { c31values(T ? 5 : 4); });
   add("many", "up to 1000 tests and 2000 arguments: 18 numbers, 5 kinds of selections and names, 3 verbosities, an invalid one or a failing test at the end", [=] { c31many(); });
#elif PROP == 33
   add("durations", "one test, 8 behaviours, 3 x 12 x 2 durations of its parts from 0 to 30 hours, 4 times of the clock, whole runs and single tests, with the classic global locale or with one that groups digits", [=] { c33(1, 1, true, 4, 8); });
   if (T) add("again", "the same in two runs of one test, 2 times of the clock", [=] { c33(1, 2, true, 2, 8); });
   else add("again", "one test, two runs, 8 behaviours and 12 durations in each, 4 times of the clock", [=] { c33(1, 2, false, 4, 8); });
   add("tests", "three tests in two components, 4 behaviours and 12 durations each, " + std::string(T ? "4 times" : "one time") + " of the clock", [=] { c33(3, 1, false, T ? 4 : 1, 4); });
   if (T) add("tests-again", "two tests in two components, 4 behaviours and 12 durations each, two runs", [=] { c33(2, 2, false, 1, 4); });
   add("waits", "13 waiting times up to a day, a signal during the first or second wait or none", [=] { c33wait(); });
#elif PROP == 32
   add("macros", "every macro, every form of its arguments, all values of small domains, once and twice", [=] { c32(); });
   add("types", "6 comparisons of all pairs of 2 to 13 values of 10 types", [=] { c32types(); });
   add("long", "texts of 28 lengths up to 300000 characters, the same or different in one of 5 places", [=] { c32long(); });
#endif
   return v;
}

int main(int argc, char** argv) { return mc::main(argc, argv, build_all); }
