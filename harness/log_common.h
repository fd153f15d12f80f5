// What the logging harnesses share: recording listeners, identified messages and the delivery oracle.
#ifndef LOG_COMMON_H
#define LOG_COMMON_H
#include "tsrt.h"
#include <falcon/logsystem.h>
#include <cstdarg>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <vector>

inline std::string S(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string S(const char* f, ...) { char b[900]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

using LS = falcon::LogSystem;
using LEVEL = LS::LEVEL;
constexpr uint64_t NEVERT = UINT64_MAX;

// --- messages ---------------------------------------------------------------
struct Spec { std::string file; int line; int level; std::string cat, text; };
inline bool operator==(const Spec& a, const Spec& b) { return a.file == b.file && a.line == b.line && a.level == b.level && a.cat == b.cat && a.text == b.text; }
inline std::string show(const Spec& s) { return S("%s:%d level %d (%s) '%s'", s.file.c_str(), s.line, s.level, s.cat.c_str(), s.text.c_str()); }

enum Status { NOT, MAY, MUST };
struct Sent { Spec spec; int thread; uint64_t call, ret; bool filtered; };
struct Got { int msg; uint64_t at; };

// The history of an execution; used in quiet sections only.
struct World {
   std::vector<Sent> sent;
   std::vector<std::vector<Got>> got;       // per listener
   uint64_t clock = 0;
   int inside = 0;                          // threads in listeners
   bool stopped = false, destroyed = false; // no delivery is expected now
   uint64_t tick(int what) { ts::observe(what * 64 + ts::self()); return ++clock; }
   int find(const LS::Message& m) const {
      for (size_t i = 0; i < sent.size(); ++i)
         if (sent[i].spec.line == m.m_line) {
            const Spec& s = sent[i].spec;
            Spec g{m.m_file, m.m_line, (int)m.m_level, m.m_category, m.m_message};
            MC_CHECK(g == s, "a message arrived altered: %s instead of %s", show(g).c_str(), show(s).c_str());
            return (int)i;
         }
      mc::fail("a message was delivered that nobody logged: %s:%d level %d (%s) '%s'", m.m_file.c_str(), m.m_line, (int)m.m_level, m.m_category.c_str(), m.m_message.c_str());
   }
   std::string text() const {
      std::string r;
      for (auto& s : sent) r += S("  [%lu,%ld] T%d log %s\n", s.call, (long)s.ret, s.thread, show(s.spec).c_str());
      for (size_t l = 0; l < got.size(); ++l) { r += S("  listener %zu received:", l); for (auto& g : got[l]) r += S(" %d@%lu", sent[g.msg].spec.line, g.at); r += "\n"; }
      return r;
   }
   uint64_t outcome() const { uint64_t h = 5; for (auto& v : got) { h = mc::hash2(h, 77); for (auto& g : v) h = mc::hash2(h, sent[g.msg].spec.line); } return h; }
   // What listener l received, given what is due.
   template<class F> void check(size_t l, F status) {
      std::vector<int> times(sent.size());
      auto& v = got[l];
      for (auto& g : v) if (++times[g.msg] > 1) mc::fail("a message was delivered twice to listener %zu: %s\n%s", l, show(sent[g.msg].spec).c_str(), text().c_str());
      for (size_t i = 0; i < sent.size(); ++i) {
         Status s = sent[i].filtered ? NOT : status(sent[i]);
         if (s == MUST && !times[i]) mc::fail("a message was never delivered to listener %zu: %s\n%s", l, show(sent[i].spec).c_str(), text().c_str());
         if (s == NOT && times[i]) mc::fail("a message was delivered to listener %zu, which should not have received it: %s\n%s", l, show(sent[i].spec).c_str(), text().c_str());
      }
      for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b)
         if (sent[v[b].msg].ret < sent[v[a].msg].call)
            mc::fail("listener %zu received messages in the wrong order: %s before %s\n%s", l, show(sent[v[a].msg].spec).c_str(), show(sent[v[b].msg].spec).c_str(), text().c_str());
      for (size_t o = 0; o < l; ++o) {
         std::vector<int> x, y;
         auto has = [](const std::vector<Got>& w, int m) { for (auto& g : w) if (g.msg == m) return true; return false; };
         for (auto& g : got[o]) if (has(v, g.msg)) x.push_back(g.msg);
         for (auto& g : v) if (has(got[o], g.msg)) y.push_back(g.msg);
         MC_CHECK(x == y, "listeners %zu and %zu received the messages in different orders\n%s", o, l, text().c_str());
      }
   }
   void checkAllMust() { for (size_t l = 0; l < got.size(); ++l) check(l, [](const Sent&) { return MUST; }); }
};

struct Gate {
   std::mutex m; std::condition_variable cv; bool on = false;
   void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this]() { return on; }); }
   void open() { { std::lock_guard<std::mutex> l(m); on = true; } cv.notify_all(); }
   void close() { std::lock_guard<std::mutex> l(m); on = false; }
};

struct Rec : LS::Listener {
   World* w; int id;
   std::function<void(const LS::Message&)>* hook = nullptr;      // runs within the delivery
   volatile uint64_t sum = 0;
   Rec(World* world, int i): w(world), id(i) { ts::Quiet q; if ((int)w->got.size() <= i) w->got.resize(i + 1); }
   void onMessage(const LS::Message& m) override {
      { ts::Quiet q;
        MC_CHECK(!w->destroyed, "a listener is called after the log system was destroyed");
        MC_CHECK(!w->stopped, "a listener is called while the service is stopped");
        MC_CHECK(w->inside++ == 0, "listeners are called by two threads at once"); }
      // read everything, so that races with the logging threads show
      uint64_t h = m.m_line + m.m_level;
      for (char c : m.m_file) h = h * 31 + c;
      for (char c : m.m_category) h = h * 31 + c;
      for (char c : m.m_message) h = h * 31 + c;
      sum = h;
      ts::point();
      { ts::Quiet q; w->got[id].push_back(Got{w->find(m), w->tick(3)}); }
      if (hook) (*hook)(m);
      { ts::Quiet q; w->inside--; }
   }
};

// Logs message number n; kinds: 0 plain, 1 with category and long texts, 2 ready-made message.
inline Spec makeSpec(int n, int level, int kind) {
   Spec s;
   s.line = n; s.level = level;
   s.file = S("dir/file%d.cpp", n);
   s.cat = kind == 1 ? S("category %d", n) : "";
   s.text = kind == 1 ? S("a text that does not fit in the string object itself, number %d", n) : S("text %d", n);
   return s;
}
inline std::string copyOf(const std::string& s) { return std::string(s.data(), s.size()); }
inline void logSpec(LS& sys, World& w, const Spec& spec, bool byPointer, bool filtered) {
   ts::point();
   size_t i;
   { ts::Quiet q; w.sent.push_back(Sent{spec, ts::self(), w.tick(1), NEVERT, filtered}); i = w.sent.size() - 1; }
   if (byPointer) sys.log(new LS::Message(copyOf(spec.file), spec.line, (LEVEL)spec.level, copyOf(spec.cat), copyOf(spec.text)));
   else {
      // (copies made by the logging thread)
      std::string f(copyOf(spec.file)), c(copyOf(spec.cat)), t(copyOf(spec.text));
      sys.log(f, spec.line, (LEVEL)spec.level, c, t);
   }
   ts::Quiet q;
   w.sent[i].ret = w.tick(2);
}
inline void logN(LS& sys, World& w, int n, int level = LEVEL::INFO, int kind = 0, bool filtered = false) {
   Spec s; { ts::Quiet q; s = makeSpec(n, level, kind); }
   logSpec(sys, w, s, kind == 2, filtered);
   ts::Quiet q; s = Spec();
}
// Harness state lives outside of the accounted memory.
struct WorldPtr {
   World* w;
   WorldPtr() { ts::Quiet q; w = new World; }
   ~WorldPtr() { ts::Quiet q; delete w; }
   World* operator->() { return w; }
   World& operator*() { return *w; }
};
#endif
