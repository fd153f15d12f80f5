// The log system: C14 delivery, C15 start and stop, C16 listeners, C17 filters, C18 storage and
// diagnostics, C19 races between any two calls, C20 stream listeners.
#include "log_common.h"
#include <iomanip>
#include <locale>
#include <iostream>
#include <falcon/logstream.h>
#include <falcon/logproxy.h>
#include <falcon/logger.h>
#include <climits>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

// The log system has no business with the standard streams of the application.
struct NoOutput : std::streambuf {
   std::string text;
   NoOutput() { std::cout.rdbuf(this); std::cerr.rdbuf(this); std::clog.rdbuf(this); }
   int overflow(int c) override { char b = (char)c; return xsputn(&b, 1) ? c : c; }
   std::streamsize xsputn(const char* s, std::streamsize n) override { ts::Quiet q; mc::fail("text is written to a standard stream: '%.*s'", (int)n, s); return n; }
};
NoOutput* noOutput = new NoOutput;

namespace {
using Hook = std::function<void(const LS::Message&)>;
std::string pre(int n) { return n > 50 ? "unbounded" : std::to_string(n); }

void finish(World& w) {
   if (mc::noting()) mc::note("%s", w.text().c_str());
   mc::outcome(w.outcome());
}

#if PROP == 14 || PROP == 16 || PROP == 18
// Receives numbered messages in great number: each thread's come one after another, with nothing missing and nothing altered.
struct Count : LS::Listener {
   int step, got = 0, next[4] = {};
   bool* gone;
   explicit Count(int step, bool* gone = nullptr): step(step), gone(gone) {}
   ~Count() { if (gone) { ts::Quiet q; *gone = true; } }
   void onMessage(const LS::Message& m) override {
      ts::Quiet q;
      int t = m.m_line / step, i = m.m_line % step;
      MC_CHECK(t >= 0 && t < 4 && i == next[t], "thread %d's message %d arrives when number %d is due", t, i, next[t]);
      MC_CHECK(m.m_message == "t" + std::to_string(m.m_line) && m.m_category == (i % 3 ? "" : "c" + std::to_string(i)) && m.m_file == "f" + std::to_string(i % 7) && m.m_level == i % 5,
               "message %d of thread %d arrived altered: %s:%d level %d (%s) '%s'", i, t, m.m_file.c_str(), m.m_line, (int)m.m_level, m.m_category.c_str(), m.m_message.c_str());
      ++next[t]; ++got;
   }
};
// Message i of thread t.
void logI(LS& sys, int step, int t, int i, bool ready = false) {
   std::string f, c, x;
   { ts::Quiet q; f = "f" + std::to_string(i % 7); c = i % 3 ? "" : "c" + std::to_string(i); x = "t" + std::to_string(t * step + i); }
   if (ready) sys.log(new LS::Message(copyOf(f), t * step + i, (LEVEL)(i % 5), copyOf(c), copyOf(x)));
   else sys.log(f, t * step + i, (LEVEL)(i % 5), c, x);
   ts::Quiet q; f = std::string(); c = std::string(); x = std::string();
}
#endif

#if PROP == 14
// A great number of messages, from several threads, faster than they are handled or not.
void volume(int threads, int msgs, int pause) {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   auto sys = std::make_unique<LS>(true);
   auto l0 = std::make_shared<Count>(1000000), l1 = std::make_shared<Count>(1000000);
   sys->addListener(l0); sys->addListener(l1);
   auto run = [&](int t) { for (int i = 0; i < msgs; ++i) { logI(*sys, 1000000, t, i, i % 10 == 9); if (pause && i % pause == pause - 1) ts::quiesce(); } };
   std::vector<std::thread> th;
   for (int t = 1; t < threads; ++t) th.emplace_back(run, t);
   run(0);
   for (auto& t : th) t.join();
   ts::quiesce();
   for (int t = 0; t < threads; ++t) MC_CHECK(l0->next[t] == msgs && l1->next[t] == msgs, "of %d messages of thread %d the listeners received %d and %d", msgs, t, l0->next[t], l1->next[t]);
   mc::state(mc::hash2(threads * 100000 + msgs, pause));
   sys.reset();
}

// Producers log every program of message kinds; two listeners were there before.
void delivery(std::vector<int> shape, int listeners, int kinds, int preempt, int spurious) {
   ts::opt.preempt = preempt; ts::opt.spurious = spurious;
   WorldPtr w;
   auto sys = std::make_unique<LS>(true);
   sys->level(LEVEL::DEBUG);
   std::vector<std::shared_ptr<Rec>> ls;
   for (int i = 0; i < listeners; ++i) { ls.push_back(std::make_shared<Rec>(w.w, i)); sys->addListener(ls.back()); }
   std::vector<std::vector<int>> prog(shape.size());
   for (size_t t = 0; t < shape.size(); ++t) for (int i = 0; i < shape[t]; ++i) prog[t].push_back(ts::choose(kinds));
   auto run = [&](int t) {
      int n = 100 * (t + 1);
      for (int k : prog[t]) {
         // kind 3 is above the system level
         logN(*sys, *w, n, k == 3 ? LEVEL::TRACE : k == 1 ? LEVEL::DEBUG : k == 2 ? LEVEL::CRITICAL : LEVEL::INFO, k, k == 3);
         ++n;
      }
   };
   std::vector<std::thread> th;
   for (size_t t = 1; t < shape.size(); ++t) th.emplace_back(run, (int)t);
   run(0);
   for (auto& t : th) t.join();
   ts::opt.preempt = 0;
   ts::quiesce();
   { ts::Quiet q; w->checkAllMust(); finish(*w); }
   sys.reset();
   { ts::Quiet q; w->destroyed = true; w->checkAllMust(); }
}

// Contents of every shape, in message storage that was used for others before.
void shapes(int msgs, bool full) {
   ts::opt.preempt = 0;
   WorldPtr w;
   static const std::string files[] = {"f.cpp", "", std::string(300, 'd') + "/f.cpp", std::string("a\0b", 3)};
   static const std::string cats[] = {"", "net", std::string(200, 'c'), std::string("\0", 1)};
   static const std::string texts[] = {"x", "", std::string(5000, 't'), std::string("one\0two\n\t\xff%s", 14)};
   static const int lines[] = {0, -1, INT_MAX, 1, INT_MIN, 65536, 2, -2, 1 << 20};
   static const int lv[] = {LEVEL::CRITICAL, LEVEL::TRACE, LEVEL::INFO};
   auto sys = std::make_unique<LS>(true);
   sys->level(LEVEL::TRACE);
   auto l = std::make_shared<Rec>(w.w, 0); sys->addListener(l);
   for (int i = 0; i < msgs; ++i) {
      Spec s;
      bool all = full || i == msgs - 1;
      bool ready;
      { ts::Quiet q;
        int big = all ? 0 : ts::choose(4);
        s.file = files[all ? ts::choose(4) : big]; s.cat = cats[all ? ts::choose(4) : big]; s.text = texts[all ? ts::choose(4) : big];
        s.line = lines[i * 3 + (all ? ts::choose(3) : 0)]; s.level = lv[all ? ts::choose(3) : 1];
        ready = ts::choose(2); }
      logSpec(*sys, *w, s, ready, false);
      bool wait = i < msgs - 1 && ts::choose(2);
      if (wait) ts::quiesce();
      ts::Quiet q; mc::state(mc::hash2(mc::hash2(mc::hashStr(s.file + "|" + s.cat + "|" + s.text, s.line), s.level * 4 + ready * 2 + wait), i)); s = Spec();
   }
   ts::quiesce();
   { ts::Quiet q; w->checkAllMust(); finish(*w); }
   sys.reset();
   { ts::Quiet q; w->destroyed = true; w->checkAllMust(); }
}

// Texts of any length, through storage used before by longer and shorter ones.
void lengths() {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   static const int L[] = {0, 1, 15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 1000000};
   WorldPtr w;
   int n = L[ts::choose(sizeof L / sizeof *L)], field = ts::choose(3), ready = ts::choose(2), way = ts::choose(3), other = ts::choose(3);
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<Rec>(w.w, 0); sys->addListener(l);
   for (int i = 0; i < 3; ++i) {
      Spec s;
      { ts::Quiet q; s = makeSpec(i, LEVEL::INFO, other == 1);
        if (i == 1) { std::string& f = field == 0 ? s.file : field == 1 ? s.cat : s.text; f = std::string(n, 'a'); for (int k = 0; k < n; k += 7) f[k] = (char)('a' + k % 26); if (way == 1) f += "/end"; if (way == 2) f += std::string("\0end", 4); }
        else if (other == 2) s.text = std::string(2000, 'o'); }
      logSpec(*sys, *w, s, ready, false);
      ts::quiesce();
      ts::Quiet q; s = Spec();
   }
   { ts::Quiet q; w->checkAllMust(); mc::state(mc::hash2(n, field * 100 + ready * 20 + way * 5 + other)); finish(*w); }
   sys.reset();
   ts::Quiet q; w->destroyed = true;
}

// Logging calls return although a listener does not.
void blockedListener(int msgs, int producers, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   auto gate = std::make_unique<Gate>();
   auto sys = std::make_unique<LS>(true);
   auto hook = std::make_unique<Hook>([&](const LS::Message&) { gate->wait(); });
   auto l0 = std::make_shared<Rec>(w.w, 0); l0->hook = hook.get();
   auto l1 = std::make_shared<Rec>(w.w, 1);
   sys->addListener(l0); sys->addListener(l1);
   auto run = [&](int t) { for (int i = 0; i < msgs; ++i) logN(*sys, *w, 100 * (t + 1) + i, LEVEL::INFO, i & 1); };
   std::vector<std::thread> th;
   for (int t = 1; t < producers; ++t) th.emplace_back(run, t);
   run(0);
   for (auto& t : th) t.join();
   gate->open();
   ts::quiesce();
   { ts::Quiet q; w->checkAllMust(); finish(*w); }
   sys.reset();
}

// A listener that logs in turn.
void relogging(int msgs, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   auto sys = std::make_unique<LS>(true);
   LS* s = sys.get();
   auto hook = std::make_unique<Hook>([&](const LS::Message& m) { if (m.m_line < 1000) logN(*s, *w, m.m_line + 1000, LEVEL::INFO, 1); });
   auto l0 = std::make_shared<Rec>(w.w, 0); l0->hook = hook.get();
   auto l1 = std::make_shared<Rec>(w.w, 1);
   sys->addListener(l0); sys->addListener(l1);
   std::thread other([&]() { logN(*sys, *w, 200); });
   for (int i = 0; i < msgs; ++i) logN(*sys, *w, 100 + i);
   other.join();
   ts::quiesce();
   { ts::Quiet q; w->checkAllMust(); MC_CHECK((int)w->sent.size() == 2 * (msgs + 1), "a message logged by a listener got lost"); finish(*w); }
   sys.reset();
}

// The system level changes between and during the logging calls.
void levelChange(int changes, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   auto sys = std::make_unique<LS>(true);
   auto l0 = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l0);
   struct Change { int level; uint64_t call, ret; };
   std::vector<Change>* ch; { ts::Quiet q; ch = new std::vector<Change>; ch->push_back({LEVEL::TRACE, 0, 0}); }
   std::vector<int> lv; for (int i = 0; i < changes; ++i) lv.push_back(2 * ts::choose(3));      // CRITICAL, WARN, DEBUG
   int own = ts::choose(2);
   std::thread changer([&]() {
      for (int l : lv) {
         ts::point();
         { ts::Quiet q; ch->push_back({l, w->tick(4), NEVERT}); }
         sys->level((LEVEL)l);
         ts::Quiet q; ch->back().ret = w->tick(5);
         MC_CHECK(sys->level() == l, "level() is %d after level(%d)", (int)sys->level(), l);
      }
   });
   for (int i = 0; i < 3; ++i) logN(*sys, *w, 100 + i, own ? LEVEL::WARN : (i == 1 ? LEVEL::INFO : LEVEL::DEBUG));
   changer.join();
   ts::quiesce();
   { ts::Quiet q;
     w->check(0, [&](const Sent& s) {
        // levels that may have been in force while the call was going on
        bool pass = false, block = false;
        for (size_t i = 0; i < ch->size(); ++i) {
           uint64_t from = (*ch)[i].call, to = i + 1 < ch->size() ? (*ch)[i + 1].ret : NEVERT;
           if (from > s.ret || to < s.call) continue;
           (s.spec.level <= (*ch)[i].level ? pass : block) = true;
        }
        return pass && block ? MAY : pass ? MUST : NOT; });
     finish(*w); delete ch; }
   sys.reset();
}
#endif

#if PROP == 15
enum Op { START, STOP, LOG, WAIT, NOP };
const char* const opName[] = {"start", "stop", "log", "wait", "-"};

void perform(LS& sys, World& w, int op, int& n, bool alone) {
   switch (op) {
   case START: { ts::Quiet q; w.stopped = false; } sys.start(); break;
   case STOP: sys.stop(); if (alone) { ts::Quiet q; w.stopped = true; } break;
   case LOG: logN(sys, w, n++, LEVEL::INFO, n & 1); break;
   case WAIT: ts::quiesce(); break;
   }
   if (mc::noting()) mc::note("T%d did %s\n", ts::self(), opName[op]);
}

// One thread controls the service: every sequence of calls.
void sequence(int depth, int loggerMsgs, int preempt, int spurious) {
   ts::opt.preempt = preempt; ts::opt.spurious = spurious;
   WorldPtr w;
   bool now = ts::choose(2);
   bool finalStart = ts::choose(2);
   std::vector<int> prog; for (int i = 0; i < depth; ++i) prog.push_back(ts::choose(NOP));
   bool running = now;
   w->stopped = !now;
   auto sys = std::make_unique<LS>(now);
   auto l0 = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l0);
   std::thread logger;
   if (loggerMsgs) logger = std::thread([&]() { for (int i = 0; i < loggerMsgs; ++i) logN(*sys, *w, 200 + i); });
   int n = 100;
   auto due = [&]() { ts::Quiet q; w->check(0, [&](const Sent&) { return MUST; }); };
   for (int op : prog) {
      perform(*sys, *w, op, n, true);
      if (op == START) running = true;
      if (op == STOP) { running = false; MC_CHECK(ts::liveThreads() <= (loggerMsgs ? 2 : 1), "a service thread lives on after stop()"); }
      MC_CHECK(ts::liveThreads() <= 1 + (loggerMsgs ? 1 : 0) + running, "there are two service threads");
      if (op == WAIT && running) due();
   }
   if (loggerMsgs) logger.join();
   if (finalStart) {
      perform(*sys, *w, START, n, true);
      ts::opt.preempt = 0;
      ts::quiesce();
      due();
      MC_CHECK(ts::liveThreads() <= 2, "there are two service threads");
   }
   sys.reset();
   MC_CHECK(ts::liveThreads() == 1, "a service thread lives on after the destruction");
   ts::Quiet q;
   w->destroyed = true;
   w->check(0, [&](const Sent&) { return finalStart ? MUST : MAY; });
   // what was delivered, was delivered in order, with nothing skipped
   auto& g = w->got[0];
   for (size_t i = 0; i < w->sent.size(); ++i) {
      bool got = false, later = false;
      for (auto& x : g) { got |= x.msg == (int)i; later |= w->sent[x.msg].call > w->sent[i].ret; }
      MC_CHECK(got || !later, "a message was skipped: %s\n%s", show(w->sent[i].spec).c_str(), w->text().c_str());
   }
   finish(*w);
}

// Several threads control the service.
void controllers(int a, int b, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   bool now = ts::choose(2);
   std::vector<int> p, r;
   for (int i = 0; i < a; ++i) p.push_back(ts::choose(3));
   for (int i = 0; i < b; ++i) r.push_back(ts::choose(3));
   auto sys = std::make_unique<LS>(now);
   auto l0 = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l0);
   logN(*sys, *w, 1);
   std::thread other([&]() { int n = 200; for (int op : r) perform(*sys, *w, op, n, false); });
   int n = 100;
   for (int op : p) perform(*sys, *w, op, n, false);
   other.join();
   ts::opt.preempt = 0;
   MC_CHECK(ts::liveThreads() <= 2, "there are two service threads");
   sys->start();
   ts::quiesce();
   MC_CHECK(ts::liveThreads() == 2, "the service does not run after start()");
   { ts::Quiet q; w->checkAllMust(); finish(*w); }
   sys->stop();
   MC_CHECK(ts::liveThreads() == 1, "a service thread lives on after stop()");
   sys.reset();
   ts::Quiet q; w->destroyed = true;
}

// The service is started and stopped over and over.
void restarts(int times) {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   WorldPtr w;
   int before = ts::choose(3), after = ts::choose(3), twice = ts::choose(2); bool wait = ts::choose(2);
   auto sys = std::make_unique<LS>(ts::choose(2));
   bool running = ts::liveThreads() == 2;
   auto l0 = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l0);
   int n = 0;
   w->stopped = !running;
   for (int i = 0; i < times; ++i) {
      for (int k = 0; k < before; ++k) logN(*sys, *w, n++);
      { ts::Quiet q; w->stopped = false; }
      sys->start(); if (twice) sys->start();
      MC_CHECK(ts::liveThreads() == 2, "there are %d threads after start() number %d", ts::liveThreads(), i);
      for (int k = 0; k < after; ++k) logN(*sys, *w, n++);
      if (wait) { ts::quiesce(); ts::Quiet q; MC_CHECK((int)w->got[0].size() == n, "after start() number %d, %zu of %d messages are delivered", i, w->got[0].size(), n); }
      sys->stop(); if (twice) sys->stop();
      { ts::Quiet q; w->stopped = true; }
      MC_CHECK(ts::liveThreads() == 1, "there are %d threads after stop() number %d", ts::liveThreads(), i);
   }
   { ts::Quiet q; w->stopped = false; }
   sys->start();
   ts::quiesce();
   { ts::Quiet q;
     MC_CHECK((int)w->got[0].size() == n, "at the end, %zu of %d messages are delivered", w->got[0].size(), n);
     for (int i = 0; i < n; ++i) MC_CHECK(w->got[0][i].msg == i, "message %d is delivered when number %d is due", w->got[0][i].msg, i);
     mc::state(before * 12 + after * 4 + twice * 2 + wait); }
   sys.reset();
   ts::Quiet q; w->destroyed = true;
}

// The destructor comes at any moment of the service's life.
void destruction(int msgs, int preempt, int spurious) {
   ts::opt.preempt = preempt; ts::opt.spurious = spurious;
   WorldPtr w;
   int n = ts::choose(msgs + 1);
   int how = ts::choose(3);
   auto sys = std::make_unique<LS>(how != 1);
   auto l0 = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l0);
   for (int i = 0; i < n; ++i) logN(*sys, *w, 100 + i);
   if (how == 2) sys->stop();
   sys.reset();
   MC_CHECK(ts::liveThreads() == 1, "a service thread lives on after the destruction");
   ts::Quiet q;
   w->destroyed = true;
   w->check(0, [](const Sent&) { return MAY; });
   for (size_t i = 0; i < w->got[0].size(); ++i) MC_CHECK(w->got[0][i].msg == (int)i, "a message was skipped\n%s", w->text().c_str());
   finish(*w);
}
#endif

#if PROP == 16
enum Op { ADD, DETACH, DISABLE, ENABLE, LOG, WAIT, NOPS };
const char* const opName[] = {"add", "detach", "disable", "enable", "log", "wait"};

struct Tracked : Rec {
   bool* gone;
   Tracked(World* w, int i, bool* g): Rec(w, i), gone(g) {}
   ~Tracked() { ts::Quiet q; *gone = true; }
};
struct Interval { uint64_t call, ret; int added, enabled, detached; };      // state from the change on
struct History { std::vector<Interval> h; std::vector<uint64_t> waits; };

Status dueTo(const History& h, const Sent& s) {
   uint64_t done = NEVERT;
   for (uint64_t x : h.waits) if (x > s.ret) { done = x; break; }
   bool yes = false, no = false;
   for (size_t i = 0; i < h.h.size(); ++i) {
      uint64_t from = h.h[i].call, to = i + 1 < h.h.size() ? h.h[i + 1].ret : NEVERT;
      if (from > done || to < s.call) continue;
      (h.h[i].added && h.h[i].enabled && !h.h[i].detached ? yes : no) = true;
   }
   // (added before the call: the registration itself was complete)
   return yes && no ? MAY : yes ? MUST : NOT;
}

// Every sequence of management calls by one thread, while another one logs.
void management(int depth, int loggerMsgs, int preempt, bool shapes) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   std::vector<int> prog;
   bool added = false, detached = false, enabled = true, dropped = false;
   for (int i = 0; i < depth; ++i) {
      int o = ts::choose(NOPS);
      if ((o == ADD && added) || (o == DETACH && detached) || (o == ENABLE && enabled) || (o == DISABLE && !enabled)) return;
      if (o == ADD) added = true;
      if (o == DETACH) detached = true;
      if (o == ENABLE) enabled = true;
      if (o == DISABLE) enabled = false;
      prog.push_back(o);
   }
   bool gone[2] = {false, false};
   History* hist; { ts::Quiet q; hist = new History; hist->h.push_back({0, 0, 0, 1, 0}); }
   bool first = shapes ? ts::choose(2) : 0;      // is the permanent listener added before the managed one?
   auto sys = std::make_unique<LS>(true);
   auto perm = std::make_shared<Rec>(w.w, 0);
   auto man = std::make_shared<Tracked>(w.w, 1, gone);
   Tracked* m = man.get();
   if (first || !shapes) sys->addListener(perm);
   if (shapes && !first) sys->addListener(perm);
   added = detached = false; enabled = true;
   std::thread logger;
   if (loggerMsgs) logger = std::thread([&]() { for (int i = 0; i < loggerMsgs; ++i) logN(*sys, *w, 200 + i, LEVEL::INFO, 1); });
   int n = 100;
   auto wait = [&]() { ts::quiesce(); ts::Quiet q; hist->waits.push_back(w->tick(6)); };
   uint64_t detachedAt = NEVERT;
   auto released = [&]() {
      ts::Quiet q;
      if (!dropped || !added || !detached) return;
      for (auto& s : w->sent) if (s.call > detachedAt && s.ret < hist->waits.back()) MC_CHECK(gone[0], "a detached listener is still held although a later message was handled\n%s", w->text().c_str());
   };
   for (int o : prog) {
      if (o == ADD || o == DETACH || o == DISABLE || o == ENABLE) {
         ts::point();
         { ts::Quiet q; Interval x = hist->h.back(); x.call = w->tick(7); x.ret = NEVERT;
           if (o == ADD) x.added = 1; else if (o == DETACH) x.detached = 1; else x.enabled = o == ENABLE;
           hist->h.push_back(x); }
         if (o == ADD) sys->addListener(man);
         if (o == DETACH) m->detach();
         if (o == DISABLE) m->enable(false);
         if (o == ENABLE) m->enable(true);
         { ts::Quiet q; hist->h.back().ret = w->tick(8); if (o == DETACH) detachedAt = hist->h.back().ret; }
         if (o == ADD) added = true;
         if (o == DETACH) detached = true;
         // The service is the only owner from here on.
         if (o == DETACH) { MC_CHECK(m->isDetached(), "isDetached() is false after detach()"); man.reset(); dropped = true; m = nullptr; break; }
      }
      else if (o == LOG) logN(*sys, *w, n++);
      else { wait(); released(); }
      if (mc::noting()) mc::note("T%d did %s\n", ts::self(), opName[o]);
   }
   if (dropped) {
      // what comes after the detachment
      size_t i = 0; while (prog[i] != DETACH) ++i;
      for (++i; i < prog.size(); ++i) {
         int o = prog[i];
         if (o == LOG) logN(*sys, *w, n++); else if (o == WAIT) { wait(); released(); }
      }
   }
   if (loggerMsgs) logger.join();
   ts::opt.preempt = 0;
   wait();
   released();
   logN(*sys, *w, 300);
   wait();
   released();
   { ts::Quiet q;
     w->check(0, [](const Sent&) { return MUST; });
     w->check(1, [&](const Sent& s) { return dueTo(*hist, s); });
     finish(*w); }
   LS::Diags d; sys->getDiags(d);
   size_t act = 1 + (added && !detached);
   MC_CHECK(d.m_activeListeners == act && d.m_pendingListeners == 0, "%zu active and %zu pending listeners instead of %zu and 0", d.m_activeListeners, d.m_pendingListeners, act);
   sys.reset();
   ts::Quiet q; w->destroyed = true;
   delete hist;
}

// Several listeners come and go while messages are logged: the ones that stay miss nothing.
void turnover(int listeners, int msgs, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   auto sys = std::make_unique<LS>(true);
   bool gone[4] = {};
   std::vector<std::shared_ptr<Tracked>> ls;
   for (int i = 0; i < listeners; ++i) { ls.push_back(std::make_shared<Tracked>(w.w, i, gone + i)); sys->addListener(ls.back()); }
   unsigned leaves = ts::choose(1 << listeners);
   logN(*sys, *w, 99); ts::quiesce();
   std::thread logger([&]() { for (int i = 0; i < msgs; ++i) logN(*sys, *w, 100 + i); });
   std::vector<std::pair<uint64_t, uint64_t>> when(listeners, {NEVERT, NEVERT});
   for (int i = 0; i < listeners; ++i) if (leaves >> i & 1) {
      { ts::Quiet q; when[i].first = w->tick(7); }
      ls[i]->detach();
      { ts::Quiet q; when[i].second = w->tick(8); }
      ls[i].reset();
   }
   logger.join();
   ts::quiesce();
   ts::opt.preempt = 0;
   logN(*sys, *w, 300);
   ts::quiesce();
   { ts::Quiet q;
     for (int i = 0; i < listeners; ++i) w->check(i, [&](const Sent& s) { return s.call > when[i].second ? NOT : s.spec.line == 99 || when[i].first == NEVERT ? MUST : MAY; });
     for (int i = 0; i < listeners; ++i) MC_CHECK(gone[i] == bool(leaves >> i & 1), "listener %d %s", i, gone[i] ? "was released too early" : "was not released");
     finish(*w); }
   sys.reset();
   ls.clear();
   for (int i = 0; i < listeners; ++i) MC_CHECK(gone[i], "listener %d was never released", i);
}

// A great number of listeners; any share of them leaves.
void crowd(int listeners) {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   int every = 1 + ts::choose(3), how = ts::choose(3);
   auto sys = std::make_unique<LS>(true);
   bool* gone; { ts::Quiet q; gone = new bool[listeners](); }
   std::vector<std::shared_ptr<Count>> ls;
   for (int i = 0; i < listeners; ++i) { ls.push_back(std::make_shared<Count>(1000, gone + i)); sys->addListener(ls.back()); }
   auto diags = [&](size_t pend, size_t act, size_t en) {
      LS::Diags d; sys->getDiags(d);
      MC_CHECK(d.m_pendingListeners == pend && d.m_activeListeners == act && d.m_enabledListeners == en, "%zu pending, %zu active, %zu enabled listeners are reported instead of %zu, %zu, %zu",
         d.m_pendingListeners, d.m_activeListeners, d.m_enabledListeners, pend, act, en);
   };
   diags(listeners, 0, 0);
   logI(*sys, 1000, 0, 0); logI(*sys, 1000, 0, 1);
   ts::quiesce();
   diags(0, listeners, listeners);
   for (auto& l : ls) MC_CHECK(l->got == 2, "a listener received %d messages of 2", l->got);
   int out = 0;
   for (int i = 0; i < listeners; i += every) { ++out; if (how) ls[i]->detach(); else ls[i]->enable(false); if (how == 2) ls[i].reset(); }
   logI(*sys, 1000, 0, 2);
   ts::quiesce();
   logI(*sys, 1000, 0, 3);
   ts::quiesce();
   diags(0, how ? listeners - out : listeners, listeners - out);
   for (int i = 0; i < listeners; ++i) {
      bool left = i % every == 0;
      MC_CHECK(gone[i] == (left && how == 2), "listener %d %s", i, gone[i] ? "is gone" : "is still held");
      if (!gone[i]) MC_CHECK(ls[i]->got == (left ? 2 : 4), "listener %d received %d messages of %d", i, ls[i]->got, left ? 2 : 4);
   }
   mc::state(mc::hash2(listeners, every * 3 + how));
   sys.reset();
   ls.clear();
   for (int i = 0; i < listeners; ++i) MC_CHECK(gone[i], "listener %d was never released", i);
   ts::Quiet q; delete[] gone;
}

// A listener using the log system when it is released, or in a delivery.
void reentrant(int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   int what = ts::choose(5), when = ts::choose(2);
   auto sys = std::make_unique<LS>(true);
   LS* s = sys.get();
   auto perm = std::make_shared<Rec>(w.w, 0);
   auto extra = std::make_shared<Rec>(w.w, 2);
   auto act = [&, s]() {
      switch (what) {
      case 0: logN(*s, *w, 500); break;
      case 1: s->addListener(extra); break;
      case 2: { LS::Diags d; s->getDiags(d); break; }
      case 3: perm->category(".*"); break;
      case 4: s->level(LEVEL::TRACE); break;
      }
   };
   struct Acting : Rec { std::function<void()>* f; Acting(World* w, std::function<void()>* f): Rec(w, 1), f(f) {} ~Acting() { if (f) (*f)(); } };
   bool did = false;
   auto f = std::make_unique<std::function<void()>>(act);
   auto h = std::make_unique<Hook>([&](const LS::Message&) { if (!did) { did = true; act(); } });
   auto l = std::make_shared<Acting>(w.w, when ? f.get() : nullptr);
   if (!when) l->hook = h.get();
   sys->addListener(perm);
   sys->addListener(l);
   logN(*sys, *w, 100);
   ts::quiesce();
   std::thread logger([&]() { logN(*sys, *w, 101); });
   l->detach();
   l.reset();
   logN(*sys, *w, 102);
   logger.join();
   ts::quiesce();
   logN(*sys, *w, 103);
   ts::quiesce();
   { ts::Quiet q; w->check(0, [](const Sent&) { return MUST; }); finish(*w); }
   sys.reset();
}
#endif

#if PROP == 17
struct Filter { const char* re; };
const char* const filters[] = {nullptr, "A", "A.*", ".*::I", "", "a|b", "[AB]+", "A?"};
enum { NF = sizeof filters / sizeof *filters };
const char* const bad[] = {"*", "(", "[", "a{2,1}", "\\"};
const char* const cats[] = {"", "A", "AB", "B", "x::I", "a", "I", "ab", "AA", " A"};
enum { NC = sizeof cats / sizeof *cats };
// Does the whole category match?  (by hand)
const char* const accepted[NF] = {"1111111111", "1100000000", "1110000010", "1000100000", "1111111111", "1000010000", "1111000010", "1100000000"};
bool accepts(int f, int c) { return accepted[f][c] == '1'; }

struct Streams {        // nothing may be written to the standard streams
   int fd, o, e;
   Streams() { ts::Quiet q; fflush(stdout); fflush(stderr); fd = memfd_create("out", 0); o = dup(1); e = dup(2); dup2(fd, 1); dup2(fd, 2); }
   void check() {
      std::cout.flush(); std::clog.flush(); std::wcout.flush(); fflush(stdout); fflush(stderr);
      off_t n = lseek(fd, 0, SEEK_END);
      char b[201]; memset(b, 0, sizeof b); pread(fd, b, 200, 0);
      MC_CHECK(n == 0, "the log service wrote to the standard streams: '%s'", b);
   }
   ~Streams() { ts::Quiet q; dup2(o, 1); dup2(e, 2); close(o); close(e); close(fd); }
};

struct Setting { int level, enabled, filter; };
void apply(LS::Listener& l, const Setting& s) {
   l.level((LEVEL)s.level);
   l.enable(s.enabled);
   if (s.filter >= 0 && filters[s.filter]) l.category(filters[s.filter]);
}
Status due(const Setting& s, int sysLevel, const Spec& m, int cat) {
   return s.enabled && m.level <= sysLevel && m.level <= s.level && accepts(s.filter < 0 ? 0 : s.filter, cat) ? MUST : NOT;
}

// The product of all settings, each with all levels and categories of messages.
void product(bool two) {
   ts::opt.preempt = 0;
   WorldPtr w;
   Streams std;
   int sysLevel = two ? 3 : ts::choose(6);
   Setting a{two ? 2 + 2 * ts::choose(2) : ts::choose(6), ts::choose(2), ts::choose(NF)}, b{5, 1, 0};
   if (two) b = Setting{2 + 2 * ts::choose(2), ts::choose(2), ts::choose(NF)};
   auto sys = std::make_unique<LS>(true);
   sys->level((LEVEL)sysLevel);
   MC_CHECK(sys->level() == sysLevel, "level() does not return what was set");
   std::vector<std::shared_ptr<Rec>> ls;
   for (int i = 0; i < 2; ++i) { ls.push_back(std::make_shared<Rec>(w.w, i)); apply(*ls[i], i ? b : a); sys->addListener(ls[i]); }
   MC_CHECK(ls[0]->level() == a.level && ls[0]->isEnabled() == bool(a.enabled) && ls[0]->category() == (filters[a.filter] ? filters[a.filter] : ""), "the settings of a listener read back differently");
   int n = 0;
   for (int l = 0; l < 6; ++l) for (int c = 0; c < NC; ++c) {
      Spec s; { ts::Quiet q; s = makeSpec(n, l, 0); s.cat = cats[c]; }
      logSpec(*sys, *w, s, false, false);
      ++n;
      ts::Quiet q; s = Spec();
   }
   ts::quiesce();
   { ts::Quiet q;
     w->check(0, [&](const Sent& s) { return due(a, sysLevel, s.spec, s.spec.line % NC); });
     w->check(1, [&](const Sent& s) { return due(b, sysLevel, s.spec, s.spec.line % NC); });
     std.check();
     mc::state(w->outcome()); finish(*w); }
   sys.reset();
}

// Settings that change between the messages.
void changing(int depth) {
   ts::opt.preempt = 0;
   WorldPtr w;
   Streams std;
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l);
   Setting s{5, 1, -1}; int sysLevel = 5, n = 0;
   std::vector<Status>* want; { ts::Quiet q; want = new std::vector<Status>; }
   static const int some[] = {1, 3, 6};
   auto burst = [&]() {
      static const int lv[] = {0, 2, 5}, cs[] = {0, 1, 4};
      for (int x : lv) for (int c : cs) {
         Spec m; { ts::Quiet q; m = makeSpec(n, x, 0); m.cat = cats[c]; want->push_back(due(s, sysLevel, m, c)); }
         logSpec(*sys, *w, m, false, false);
         ++n;
         ts::Quiet q; m = Spec();
      }
      ts::quiesce();
   };
   burst();
   for (int i = 0; i < depth; ++i) {
      int o = ts::choose(16);
      if (o < 3) { sysLevel = some[o] == 6 ? 5 : some[o]; sys->level((LEVEL)sysLevel); }
      else if (o < 6) { s.level = o - 3; l->level((LEVEL)s.level); }
      else if (o < 8) { s.enabled = o - 6; l->enable(s.enabled); }
      else if (o < 11) { s.filter = 1 + (o - 8); l->category(filters[s.filter]); }
      else if (o == 11) { s.filter = 4; l->category(""); }
      else {
         bool threw = false;
         std::string before = l->category();
         try { l->category(bad[o - 12]); }
         catch (LS::InvalidCategory& e) { threw = true; }
         catch (std::exception& e) { ts::Quiet q; mc::fail("an invalid category filter throws '%s' instead of InvalidCategory", e.what()); }
         MC_CHECK(threw, "the category filter '%s' is accepted although it is not valid", bad[o - 12]);
         MC_CHECK(l->category() == before, "a refused category filter replaced the previous one");
      }
      burst();
   }
   { ts::Quiet q;
     w->check(0, [&](const Sent& m) { return (*want)[m.spec.line]; });
     std.check(); mc::state(w->outcome()); finish(*w); delete want; }
   sys.reset();
}

// Many expressions, one after another, on many categories.
const char* const exprs[] = {"", ".", "..", ".*", ".+", "a.c", "a\\.c", "^abc$", "abc", "^abc", "abc$", "a|b", "a|bc|bcd", "(a|b)c", "(.)\\1", "(a)(b)\\2", "(?:a|b)+", "(?!X).*", "(?=a).b", "a*?", "a+?b",
   "[a-c]+", "[^a-c]+", "[[:alpha:]]+", "[[:digit:]]{2,3}", "\\d+", "\\w+", "\\s*", "\\bab\\b.*", "x{0}", "a{2}", "a{2,}", "(ab)*", "(a*)*b", "A", "a", "net::.*", ".*::(tcp|udp)", "net::(?!tcp).*", "[.]", "[]a]", "a b", "\\(a\\)", "\u00e9", "[*]", "\\x61", "\\t", "(|a)b", "$", "^", "a.*", "n.t::.*", "^net.*", ".*c", ".*b.*", "net::.*$", "abc|abcd", "ab?c?"};
const char* const words[] = {"", "a", "b", "ab", "abc", "abcd", "xabc", "a.c", "aXc", "aa", "aab", "aaa", "bb", "abb", "bcd", "bc", "ac", "X", "Xa", "A", "ABC", "abc\n", "\n", "a\nc", "a b", "12", "123", "1234", "a1_", " ", "\t", "net::tcp", "net::udp", "net::", "Net::tcp", "net::tcp2", ".", "]", "(a)", "\u00e9", "*", "a|b", "^abc$", "-", "net::\nx", "abc\r", "nXt::y", "^net", "\nb"};
enum { NE = sizeof exprs / sizeof *exprs, NW = sizeof words / sizeof *words };
void expressions() {
   ts::opt.preempt = 0; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30;
   WorldPtr w;
   int e[2] = {ts::choose(NE), ts::choose(NE)};
   static signed char ok[NE];       // is the expression valid?
   static std::vector<char>* match[NE];
   { ts::Quiet q;
     for (int x : e) if (!match[x]) {
        match[x] = new std::vector<char>(NW, 0);
        try { std::regex re(exprs[x]); ok[x] = 1; for (int i = 0; i < NW; ++i) (*match[x])[i] = !*words[i] || !*exprs[x] || std::regex_match(std::string(words[i]), re); }
        catch (const std::regex_error&) { ok[x] = 0; }
     } }
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l);
   int force[2] = {0, 0}, n = 0;
   static std::vector<char> all(NW, 1);
   const std::vector<char>* due[2];
   for (int k = 0; k < 2; ++k) {
      bool threw = false;
      try { l->category(exprs[e[k]]); } catch (const LS::InvalidCategory&) { threw = true; }
      MC_CHECK(threw == !ok[e[k]], "the expression '%s' is %s", exprs[e[k]], threw ? "refused" : "accepted");
      force[k] = threw ? (k ? force[0] : -1) : e[k];
      { ts::Quiet q; due[k] = force[k] < 0 ? &all : match[force[k]]; }
      for (int i = 0; i < NW; ++i) {
         Spec m; { ts::Quiet q; m = makeSpec(n++, 2, 0); m.cat = words[i]; }
         logSpec(*sys, *w, m, false, false);
         ts::Quiet q; m = Spec();
      }
      ts::quiesce();
   }
   { ts::Quiet q;
     w->check(0, [&](const Sent& m) { return (*due[m.spec.line / NW])[m.spec.line % NW] ? MUST : NOT; });
     mc::state(mc::hash2(e[0], e[1])); finish(*w); }
   sys.reset();
}

// A proxy hands what its own filters accept to another listener, whatever the settings of that one.
void proxies() {
   ts::opt.preempt = 0;
   WorldPtr w;
   Setting own{2 * ts::choose(3), ts::choose(2), ts::choose(3)}, other{2 * ts::choose(3), ts::choose(2), ts::choose(3)};
   int where = ts::choose(3), chain = ts::choose(2);       // the target: not a listener of the service, one of it, detached from it
   int sysLevel = 5;
   auto sys = std::make_unique<LS>(true);
   auto target = std::make_shared<Rec>(w.w, 0), beside = std::make_shared<Rec>(w.w, 1);
   apply(*target, other);
   if (where) sys->addListener(target);
   if (where == 2) target->detach();
   std::shared_ptr<LS::Listener> p = std::make_shared<falcon::LogProxyListener>(target);
   if (chain) p = std::make_shared<falcon::LogProxyListener>(p);
   apply(*p, own);
   sys->addListener(p); sys->addListener(beside);
   int n = 0;
   std::vector<int> want;
   for (int x = 0; x < 6; ++x) for (int c = 0; c < NC; ++c) {
      Spec m; { ts::Quiet q; m = makeSpec(n, x, 0); m.cat = cats[c];
        want.push_back((due(own, sysLevel, m, c) == MUST) + (where == 1 && due(other, sysLevel, m, c) == MUST)); }
      logSpec(*sys, *w, m, false, false);
      ++n;
      ts::Quiet q; m = Spec();
   }
   ts::quiesce();
   { ts::Quiet q;
     std::vector<int> got(n);
     int last = -1;
     for (const Got& g : w->got[0]) { int i = w->sent[g.msg].spec.line; MC_CHECK(i >= last, "message %d arrives after message %d", i, last); last = i; ++got[i]; }
     for (int i = 0; i < n; ++i) MC_CHECK(got[i] == want[i], "message %d (level %d, category '%s') reached the target %d times instead of %d (proxy: level %d, %s, filter '%s')", i, i / NC, cats[i % NC], got[i], want[i], own.level, own.enabled ? "enabled" : "disabled", filters[own.filter] ? filters[own.filter] : "none");
     for (int i = 0; i < n; ++i) MC_CHECK((int)w->got[1].size() == n && w->sent[w->got[1][i].msg].spec.line == i, "the other listener does not receive every message once");
     mc::state(w->outcome()); finish(*w); }
   sys.reset();
}

// Filter changes while a message is delivered: judged by the old or the new settings, never a mixture.
void changingWhile(int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   int from = 1 + ts::choose(3), to = 1 + ts::choose(3), cat = ts::choose(5);
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<Rec>(w.w, 0);
   l->category(filters[from]);
   sys->addListener(l);
   Spec m; { ts::Quiet q; m = makeSpec(7, 3, 0); m.cat = cats[cat]; }
   logSpec(*sys, *w, m, false, false);
   l->category(filters[to]);
   MC_CHECK(l->category() == filters[to], "the category filter reads back differently");
   ts::quiesce();
   { ts::Quiet q; m = Spec(); bool x = accepts(from, cat), y = accepts(to, cat);
     w->check(0, [&](const Sent&) { return x && y ? MUST : x || y ? MAY : NOT; }); finish(*w); }
   sys.reset();
}

// Long categories, many of them, and many changes of the filter.
void longCategories() {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   static const int lens[] = {1, 2, 7, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000};
   int L = lens[ts::choose(sizeof lens / sizeof *lens)], f = ts::choose(6);
   WorldPtr w;
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<Rec>(w.w, 0);
   std::string A(L, 'a'), re = f == 0 ? A : f == 1 ? "a*" : f == 2 ? "a*b" : f == 3 ? A + "b" : f == 4 ? "(" + A + "|b" + A + ")" : A + "?";
   l->category(re);
   MC_CHECK(l->category() == re, "a filter of %zu characters reads back differently", re.size());
   sys->addListener(l);
   const std::string C[] = {A, A + "a", A.substr(1), A + "b", "b" + A, A.substr(1) + "b", "", A + std::string(1, '\0')};
   static const char* const ok[] = {"10000010", "11100010", "00010110", "00010010", "10001010", "10100010"};
   std::vector<char> due;
   for (int i = 0; i < 8; ++i) {
      Spec s; { ts::Quiet q; s = makeSpec(i, 3, 0); s.cat = C[i]; }
      logSpec(*sys, *w, s, false, false);
      ts::Quiet q; s = Spec();
   }
   ts::quiesce();
   { ts::Quiet q; w->check(0, [&](const Sent& s) { return C[s.spec.line].empty() || (f == 2 && L == 1 && s.spec.line == 5) || ok[f][s.spec.line] == '1' ? MUST : NOT; }); mc::state(mc::hash2(L, f)); finish(*w); }
   sys.reset();
}
void manyChanges(int n) {
   ts::opt.choices = false; ts::opt.horizon = 50000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   struct Take : LS::Listener { std::string* last; int n = 0; explicit Take(std::string* s): last(s) {} void onMessage(const LS::Message& m) override { ts::Quiet q; last->assign(m.m_message); ++n; } };
   int what = ts::choose(4);
   std::string* last; { ts::Quiet q; last = new std::string; }
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<Take>(last);
   sys->addListener(l);
   int want = 0, level = 5, sysLevel = 3; bool enabled = true; std::string filter;
   for (int i = 0; i < n; ++i) {
      bool invalid = false;
      if (what == 0 || what == 3) { filter = "c" + std::to_string(i % 300); l->category(filter); }
      if (what == 1 || (what == 3 && i % 3 == 0)) { level = i % 6; l->level((LEVEL)level); sysLevel = i / 6 % 6; sys->level((LEVEL)sysLevel); }
      if (what == 2 || (what == 3 && i % 5 == 0)) { enabled = i % 2; l->enable(enabled); }
      if (i % 7 == 0) { try { l->category("("); } catch (const LS::InvalidCategory&) { invalid = true; } MC_CHECK(invalid, "an invalid filter was accepted"); }
      int lv = i % 4, c = i % 3 == 2 ? i + 1 : i;
      std::string cat = i % 11 == 0 ? "" : "c" + std::to_string(c % 300), text = "m" + std::to_string(i);
      bool due = enabled && lv <= level && lv <= sysLevel && (cat.empty() || filter.empty() || cat == filter);
      int before = l->n;
      sys->log("f", i, (LEVEL)lv, cat, text);
      ts::quiesce();
      want += due;
      MC_CHECK(l->n == want, "after %d changes: message '%s' of category '%s', level %d, was %s (filter '%s', level %d, system level %d, enabled %d)", i + 1, text.c_str(), cat.c_str(), lv, l->n > before ? "delivered" : "not delivered", filter.c_str(), level, sysLevel, enabled);
      if (due) { ts::Quiet q; MC_CHECK(*last == text, "'%s' arrived instead of '%s'", last->c_str(), text.c_str()); }
   }
   mc::state(mc::hash2(n, what)); mc::transition(n);
   sys.reset(); l.reset();
   ts::Quiet q; delete last;
}

void levelNames() {
   static const char* const n[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC "};
   int l = ts::choose(12) - 3;
   const char* s = LS::levelToString((LEVEL)l);
   MC_CHECK(s == std::string(l >= 0 && l <= 5 ? n[l] : "????"), "level %d is called '%s'", l, s);
   mc::state(l + 3);
}
#endif

#if PROP == 18
struct Model { size_t pool = 64, created = 0, discarded = 0, received = 0, maxq = 0, queued = 0, inflight = 0; };
void compare(LS& sys, const Model& m, size_t pend, size_t act, size_t en) {
   LS::Diags d; memset(&d, 0xee, sizeof d);
   sys.getDiags(d);
   MC_CHECK(d.m_poolSize == m.pool && d.m_msgsCreated == m.created && d.m_msgsDiscarded == m.discarded && d.m_msgReceived == m.received && d.m_maxMsgQueueSize == m.maxq,
      "the diagnostics report pool %zu, created %zu, discarded %zu, received %zu, longest queue %zu instead of %zu, %zu, %zu, %zu, %zu",
      d.m_poolSize, d.m_msgsCreated, d.m_msgsDiscarded, d.m_msgReceived, d.m_maxMsgQueueSize, m.pool, m.created, m.discarded, m.received, m.maxq);
   MC_CHECK(d.m_pendingListeners == pend && d.m_activeListeners == act && d.m_enabledListeners == en,
      "the diagnostics report %zu pending, %zu active, %zu enabled listeners instead of %zu, %zu, %zu", d.m_pendingListeners, d.m_activeListeners, d.m_enabledListeners, pend, act, en);
}

// Every sequence of bursts, deliveries and restarts, with exact accounting.
void accounting(int depth) {
   ts::opt.preempt = 0;
   WorldPtr w;
   auto gate = std::make_unique<Gate>();
   auto sys = std::make_unique<LS>(ts::choose(2) == 0);
   auto hook = std::make_unique<Hook>([&](const LS::Message&) { gate->wait(); });
   auto l = std::make_shared<Rec>(w.w, 0), l1 = std::make_shared<Rec>(w.w, 1);
   l->hook = hook.get();
   bool running = ts::liveThreads() == 2;
   Model m; int n = 0;
   size_t pend = 0, act = 0; bool en1 = true, added1 = false, active1 = false, det1 = false;
   sys->addListener(l); pend = 1;
   auto enabled = [&]() { return act - (active1 && !en1); };
   auto take = [&]() { // the service takes a message and waits in the listener
      m.queued--; m.inflight = 1; m.received++;
      act += pend; if (added1 && pend) active1 = true;
      pend = 0;
   };
   auto drain = [&]() { // everything is delivered
      if (!running) return;
      while (m.queued || m.inflight) {
         if (!m.inflight) take();
         if (active1 && det1) { act--; active1 = false; }
         m.inflight = 0;
         if (m.pool < 64) m.pool++; else m.discarded++;
      }
   };
   auto put = [&](int k, bool ptr) {
      for (int i = 0; i < k; ++i) {
         logN(*sys, *w, n++, LEVEL::INFO, ptr ? 2 : 0);
         if (!ptr) { if (m.pool) m.pool--; else m.created++; }
         m.queued++;
         if (m.queued > m.maxq) m.maxq = m.queued;
         if (running && m.queued && !m.inflight) { ts::quiesce(); take(); }
      }
      ts::quiesce();
   };
   for (int i = 0; i < depth; ++i) {
      gate->close();
      int o = ts::choose(11);
      switch (o) {
      case 0: put(1, false); break;
      case 1: put(2, true); break;
      case 2: put(63, false); break;
      case 3: put(65, false); break;
      case 4: put(70, false); break;
      case 5: if (!running) { sys->start(); running = true; ts::quiesce(); if (m.queued) take(); } break;
      case 6: if (running) { gate->open(); ts::quiesce(); drain(); sys->stop(); running = false; } break;
      case 7: if (!added1) { sys->addListener(l1); added1 = true; pend++; } break;
      case 8: en1 = false; l1->enable(false); break;
      case 9: det1 = true; l1->detach(); break;
      case 10: logN(*sys, *w, n++, LEVEL::TRACE + 1, 0, true); break;
      }
      ts::quiesce();
      compare(*sys, m, pend, act, enabled());
      if (ts::choose(2)) { gate->open(); ts::quiesce(); drain(); compare(*sys, m, pend, act, enabled()); }
      mc::state(mc::hash2(m.pool * 1000 + m.created, mc::hash2(m.discarded * 1000 + m.queued, m.maxq * 64 + pend * 16 + act * 4 + enabled())));
   }
   gate->open();
   if (!running && ts::choose(2)) { sys->start(); running = true; }
   if (running) { ts::quiesce(); drain(); compare(*sys, m, pend, act, enabled()); MC_CHECK(m.pool == 64 && m.created + 0 <= m.discarded, "internal"); }
   sys.reset();
   { ts::Quiet q; w->check(0, [](const Sent&) { return MAY; }); finish(*w); }
}

// Messages that nobody, or not everybody, takes are accounted for like the others.
void unheard(int rounds) {
   ts::opt.preempt = 0;
   WorldPtr w;
   auto sys = std::make_unique<LS>(true);
   std::shared_ptr<Rec> ls[2];
   size_t pend = 0, act = 0, en = 0, leaving = 0;
   for (int i = 0; i < 2; ++i) {
      int how = ts::choose(6);       // none, taking all, nothing by level or by category, disabled, detached
      { ts::Quiet q; if ((int)w->got.size() <= i) w->got.resize(i + 1); }
      if (!how) continue;
      ls[i] = std::make_shared<Rec>(w.w, i);
      if (how == 2) ls[i]->level(LEVEL::CRITICAL);
      if (how == 3) ls[i]->category("none");
      if (how == 4) ls[i]->enable(false);
      sys->addListener(ls[i]);
      if (how == 5) ls[i]->detach();
      ++pend; leaving += how == 5; en += how != 4 && how != 5;
   }
   Model m; int n = 0;
   for (int r = 0; r < rounds; ++r) {
      int k = ts::choose(3), kind = ts::choose(3);
      for (int i = 0; i < k; ++i) {
         if (kind == 2) sys->log(new LS::Message("f", n, LEVEL::INFO, "c", "t")); else sys->log("f", n, LEVEL::INFO, kind ? "c" : "", "t");
         { ts::Quiet q; w->sent.push_back(Sent{Spec{"f", n, 3, kind ? "c" : "", "t"}, 0, 0, 0, false}); }
         if (kind != 2) { if (m.pool) m.pool--; else m.created++; }
         ++n; m.maxq = m.maxq ? m.maxq : 1;
         ts::quiesce();
         m.received++; if (m.pool < 64) m.pool++; else m.discarded++;
         act += pend; pend = 0; act -= leaving; leaving = 0;
      }
      compare(*sys, m, pend, act, act ? en : 0);
   }
   mc::state(mc::hash2(n, mc::hash2(act, en)));
   sys.reset();
   finish(*w);
}

// A great number of messages, waiting and in total.
void volume(int burst, int rounds) {
   ts::opt.choices = false; ts::opt.horizon = 20000000; ts::opt.spin = 1 << 30; ts::opt.races = false;
   bool ready = ts::choose(2);
   auto sys = std::make_unique<LS>(false);
   auto l = std::make_shared<Count>(100000000);
   sys->addListener(l);
   Model m;
   int n = 0;
   for (int r = 0; r < rounds; ++r) {
      for (int i = 0; i < burst; ++i) logI(*sys, 100000000, 0, n++, ready && i % 2);
      int given = ready ? burst / 2 : 0, own = burst - given, spare = own > 64 ? own - 64 : 0;
      m.created += spare; m.pool = own > 64 ? 0 : 64 - own; if ((int)m.maxq < burst) m.maxq = burst;
      compare(*sys, m, r == 0, r != 0, r != 0);
      sys->start(); ts::quiesce();
      m.received += burst; m.discarded += burst - (64 - m.pool); m.pool = 64;
      compare(*sys, m, 0, 1, 1);
      MC_CHECK(l->got == n, "%d messages of %d were received", l->got, n);
      sys->stop();
      if (r % 100 == 0) mc::state(mc::hash2(m.received, mc::hash2(m.created, ready)));
   }
   sys.reset();
}

// Producers and the service around the point where the pool runs out (the service is kept from
// returning messages meanwhile), and then around the point where it is full again.
void conservation(int left, std::vector<int> shape, int preempt, bool full) {
   ts::opt.preempt = 0;
   WorldPtr w;
   auto sys = std::make_unique<LS>(false);
   auto gate = std::make_unique<Gate>();
   int before = 64 - left, ptr = ts::choose(2);
   bool stops = full && ts::choose(2);
   auto hook = std::make_unique<Hook>([&](const LS::Message& m) {
      if (!full && m.m_line == 0) gate->wait();
      if (full && m.m_line == before - 2) { gate->open(); ts::Quiet q; ts::opt.preempt = preempt; }      // the last messages come back
   });
   auto l = std::make_shared<Rec>(w.w, 0);
   l->hook = hook.get();
   for (int i = 0; i < before; ++i) logN(*sys, *w, i);
   sys->addListener(l);
   std::vector<std::thread> th;
   size_t total = before;
   for (size_t t = 0; t < shape.size(); ++t) total += shape[t];
   auto spawn = [&]() { for (size_t t = 1; t < shape.size(); ++t) th.emplace_back([&, t]() { if (full) gate->wait(); for (int i = 0; i < shape[t]; ++i) logN(*sys, *w, 1000 * t + i); }); };
   if (full) spawn();
   sys->start();
   if (!full) { ts::quiesce(); { ts::Quiet q; ts::opt.preempt = preempt; } spawn(); }
   else gate->wait();
   for (int i = 0; i < shape[0]; ++i) logN(*sys, *w, 5000 + i, LEVEL::INFO, ptr ? 2 : 0);
   if (stops) { sys->stop(); sys->start(); }
   // While the others go on, too, the numbers make sense.
   LS::Diags d; sys->getDiags(d);
   MC_CHECK(d.m_poolSize <= 64, "there are %zu messages in the pool", d.m_poolSize);
   MC_CHECK(d.m_msgReceived <= total && d.m_msgsCreated <= total - 64 && d.m_maxMsgQueueSize <= total && d.m_maxMsgQueueSize >= (size_t)before,
      "the diagnostics report received %zu, created %zu, longest queue %zu for %zu messages", d.m_msgReceived, d.m_msgsCreated, d.m_maxMsgQueueSize, total);
   size_t external = ptr ? shape[0] : 0, beyond = total - before - external, want = total - external > 64 ? total - external - 64 : 0;
   if (!full) {
      for (auto& t : th) t.join();
      sys->getDiags(d);
      MC_CHECK(d.m_msgsCreated == want && d.m_msgsDiscarded == 0 && d.m_poolSize == (beyond >= (size_t)left ? 0 : left - beyond) && d.m_maxMsgQueueSize == total - 1 + (before == 1),
         "with %zu messages under way the diagnostics report %zu created, %zu discarded, %zu in the pool, longest queue %zu", total, d.m_msgsCreated, d.m_msgsDiscarded, d.m_poolSize, d.m_maxMsgQueueSize);
      { ts::Quiet q; ts::opt.preempt = 0; }
      gate->open();
   }
   else for (auto& t : th) t.join();
   { ts::Quiet q; ts::opt.preempt = 0; }
   ts::quiesce();
   sys->getDiags(d);
   MC_CHECK(d.m_msgReceived == total, "%zu messages were processed instead of %zu", d.m_msgReceived, total);
   MC_CHECK(d.m_poolSize == 64, "%zu messages are in the pool after everything was delivered", d.m_poolSize);
   MC_CHECK(d.m_msgsDiscarded == d.m_msgsCreated + external, "%zu messages were discarded, %zu created and %zu given", d.m_msgsDiscarded, d.m_msgsCreated, external);
   MC_CHECK(d.m_msgsCreated <= want, "%zu messages were created, although there were 64 for %zu", d.m_msgsCreated, total - external);
   { ts::Quiet q; w->checkAllMust(); mc::outcome(mc::hash2(d.m_msgsCreated, d.m_maxMsgQueueSize)); if (mc::noting()) mc::note("%s", w->text().c_str()); }
   sys.reset();
}

// Destruction with messages in every place.
void leftovers(int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   int n = ts::choose(3), ptr = ts::choose(2), how = ts::choose(3);
   auto sys = std::make_unique<LS>(how != 0);
   auto l = std::make_shared<Rec>(w.w, 0);
   sys->addListener(l);
   std::thread other([&]() { logN(*sys, *w, 200, LEVEL::INFO, 2 * ptr); });
   for (int i = 0; i < n; ++i) logN(*sys, *w, 100 + i, LEVEL::INFO, 1);
   if (how == 2) sys->stop();
   other.join();
   sys.reset();
   ts::Quiet q; finish(*w);
}
#endif

#if PROP == 19 || PROP == 20
// A stream that is not insensitive to being used in the wrong way.
struct Sink : std::ostream {
   struct Buf : std::streambuf {
      std::string* out; bool points; long writes = 0; bool unsent = false;
      int overflow(int c) override { ++writes; unsent = true; { ts::Quiet q; out->push_back((char)c); } if (points) ts::point(); return c; }
      std::streamsize xsputn(const char* s, std::streamsize n) override { ++writes; unsent = true; { ts::Quiet q; out->append(s, n); } if (points && n > 4) ts::point(); return n; }
      int sync() override { ++writes; unsent = false; return 0; }
   } buf;
   bool* gone;
   Sink(std::string* o, bool* g, bool points): std::ostream(&buf), gone(g) { buf.out = o; buf.points = points; }
   ~Sink() { ts::Quiet q; if (gone) *gone = true; }
};
struct Texts { std::vector<std::string> s; };
#endif

#if PROP == 19
// Every pair of calls, by two threads, with a third one logging and the service delivering.
enum Op { LEVEL_SET, LEVEL_GET, ADD, DIAGS, L_LEVEL_SET, L_LEVEL_GET, L_CAT_SET, L_CAT_GET, L_ENABLE, L_ENABLED, L_DETACH, L_DETACHED, WRITE_ON, SHARE, OWN, LOGIT, LOGPTR, CHECK_CAT, START, STOP, FILTER, CLEAR, NOPS };
const char* const opName[] = {"level(l)", "level()", "addListener", "getDiags", "listener.level(l)", "listener.level()", "listener.category(c)", "listener.category()", "listener.enable", "listener.isEnabled",
   "listener.detach", "listener.isDetached", "writeOn", "share", "own", "log", "log(message)", "checkCategory", "start", "stop", "categoryFilter", "clearFilter"};

struct Ctx {
   std::unique_ptr<falcon::Logger> sys;
   std::shared_ptr<Rec> rec;
   std::shared_ptr<falcon::LogStreamListener> str;
   World* w; std::string* out; Sink* fixed[2];
};
void call(Ctx& c, int op, int who) {
   ts::point();
   switch (op) {
   case LEVEL_SET: c.sys->level(who ? LEVEL::INFO : LEVEL::WARN); break;
   case LEVEL_GET: { int l = c.sys->level(); MC_CHECK(l == LEVEL::TRACE || l == LEVEL::INFO || l == LEVEL::WARN, "level() returns %d, which nobody set", l); break; }
   case ADD: c.sys->addListener(std::make_shared<Rec>(c.w, 2 + who)); break;
   case DIAGS: { LS::Diags d; c.sys->getDiags(d); MC_CHECK(d.m_poolSize <= 64 && d.m_msgReceived <= 6 && d.m_pendingListeners + d.m_activeListeners <= 6 && d.m_enabledListeners <= d.m_activeListeners, "getDiags returns impossible numbers"); break; }
   case L_LEVEL_SET: c.rec->level(who ? LEVEL::INFO : LEVEL::WARN); break;
   case L_LEVEL_GET: { int l = c.rec->level(); MC_CHECK(l == LEVEL::TRACE || l == LEVEL::INFO || l == LEVEL::WARN, "listener.level() returns %d, which nobody set", l); break; }
   case L_CAT_SET: c.rec->category(who ? "cat.*" : "c.* number .*"); break;
   case L_CAT_GET: { std::string s = c.rec->category(); MC_CHECK(s == "" || s == "cat.*" || s == "c.* number .*", "listener.category() returns '%s', which nobody set", s.c_str()); break; }
   case L_ENABLE: c.rec->enable(who); break;
   case L_ENABLED: c.rec->isEnabled(); break;
   case L_DETACH: c.rec->detach(); break;
   case L_DETACHED: c.rec->isDetached(); break;
   case WRITE_ON: c.str->writeOn(c.fixed[who]); break;
   case SHARE: c.str->share(std::make_shared<Sink>(c.out, nullptr, false)); break;
   case OWN: { std::unique_ptr<std::ostream> p(new Sink(c.out, nullptr, false)); c.str->own(p); break; }
   case LOGIT: logN(*c.sys, *c.w, 300 + who, LEVEL::CRITICAL, 1); break;
   case LOGPTR: logN(*c.sys, *c.w, 310 + who, LEVEL::CRITICAL, 2); break;
   case CHECK_CAT: c.rec->checkCategory("cat"); break;
   case START: c.sys->start(); break;
   case STOP: c.sys->stop(); break;
   // (setting and clearing filters from several threads is excluded by the documentation)
   case FILTER: if (!who) c.sys->categoryFilter("cat.*", LEVEL::DEBUG); break;
   case CLEAR: if (!who) c.sys->clearFilter(); break;
   }
   if (mc::noting()) mc::note("T%d did %s\n", ts::self(), opName[op]);
}
void pairs(int a, int b, int logged, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   std::string* out; { ts::Quiet q; out = new std::string; w->got.resize(4); }
   Ctx c;
   std::vector<int> p, r;
   for (int i = 0; i < a; ++i) p.push_back(ts::choose(NOPS));
   for (int i = 0; i < b; ++i) r.push_back(ts::choose(NOPS));
   bool filters = false;
   for (int o : r) if (o == FILTER || o == CLEAR) filters = true;
   if (!filters) {
      c.w = w.w; c.out = out;
      for (auto& f : c.fixed) f = new Sink(out, nullptr, false);
      c.sys = std::make_unique<falcon::Logger>();
      c.rec = std::make_shared<Rec>(w.w, 0);
      c.str = c.sys->defaultListener();
      c.sys->addListener(c.rec);
      logN(*c.sys, *w, 100, LEVEL::INFO, 1);
      std::thread other([&]() { for (int o : r) call(c, o, 1); });
      if (logged > 1) logN(*c.sys, *w, 101, LEVEL::INFO, 1);
      for (int o : p) call(c, o, 0);
      other.join();
      ts::opt.preempt = 0;
      c.sys->start();
      ts::quiesce();
      logN(*c.sys, *w, 102, LEVEL::CRITICAL, 1);
      ts::quiesce();
      { ts::Quiet q; w->check(0, [](const Sent&) { return MAY; }); finish(*w); }
      c.sys.reset(); c.str.reset();
      for (auto& f : c.fixed) delete f;
      c.rec.reset();
   }
   ts::Quiet q; delete out;
}
#endif

#if PROP == 20
const char* const levels[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC "};
std::string lineOf(const Spec& s, const std::string& date) {
   std::string f = s.file; size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
   return date + " [" + (s.level >= 0 && s.level < 6 ? levels[s.level] : "????") + "] " + (s.cat.empty() ? "" : "(" + s.cat + ") ") + f + ":" + std::to_string(s.line) + " " + s.text + "\n";
}
// Local date and time, computed independently of the C library.
std::string dateOf(int64_t sec, int64_t offset) {
   sec += offset;
   int64_t days = sec / 86400, rem = sec % 86400; if (rem < 0) { rem += 86400; --days; }
   int y = 1970;
   auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
   while (days < 0) { --y; days += leap(y) ? 366 : 365; }
   while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; ++y; }
   static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
   int m = 0;
   while (days >= ml[m] + (m == 1 && leap(y))) { days -= ml[m] + (m == 1 && leap(y)); ++m; }
   char b[60]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", y, m + 1, (int)days + 1, (int)(rem / 3600), (int)(rem / 60 % 60), (int)(rem % 60));
   return b;
}
const int64_t dates[] = {0, 1551571200, 1582934399, 1582934400, 1583020799, 1583020800, 1546300799, 1546300800, 1577836799, 951782400, 951868800, 2147483647, 4102444800, 1000000000, 1562888888, 1570000000 + 3661, 1512345678};
const int64_t T0 = 1551571200;
const char* const zones[] = {"UTC", "AAA-5:30", "BBB8"};
const int64_t offs[] = {0, 19800, -28800};

// Formatting that the program has set on its stream.
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } };
void format(std::ostream& s, int form) {
   switch (form) {
   case 1: s << std::hex << std::showbase << std::uppercase; break;
   case 2: s << std::setfill('*') << std::showpos; break;
   case 3: s << std::left << std::setfill('-'); break;
   case 4: s.imbue(std::locale(std::locale::classic(), new Grouping)); break;
   case 5: s << std::oct << std::internal << std::setprecision(3) << std::scientific; break;
   }
}
void formats(int dim) {
   ts::opt.preempt = 0;
   static const char* const files[] = {"f.cpp", "dir/f.cpp", "/a/b/c.cpp", "d/", "", "a\\b", "/", "x/y"};
   static const char* const cs[] = {"", "c", "a::b", "two words", ")"};
   static const std::string texts[] = {"", "x", "%d %s", "a longer text that does not fit in place", " ", std::string("\0b\0", 3), std::string(3000, 't')};
   static const int lines[] = {0, 7, 123456, -1, INT_MAX};
   int zone = 0, form = 0; int64_t when = dates[1]; Spec s;
   { ts::Quiet q;
     if (dim >= 3) {
        zone = ts::choose(3); s = makeSpec(12, 3, 0);
        if (dim == 3) when = 1546300800 + 86400LL * ts::choose(366 + 2 * 365) + 3600 * 7;          // every day of 2019-2021
        else if (dim == 4) { when = dates[1] + 3600 * ts::choose(24); when += 60 * ts::choose(60); when += ts::choose(mc::thorough() ? 60 : 6) * (mc::thorough() ? 1 : 11); }
        else { int y = ts::choose(130); when = 365LL * 86400 * y + 86400LL * ((y + 1) / 4) + 86400 * (ts::choose(3) * 58 + ts::choose(4)) - 1 + ts::choose(2); }   // around new year, the end of February and of April, 1970-2099
     }
     else      if (dim == 2) { s = makeSpec(12345, ts::choose(6), ts::choose(2)); form = 1 + ts::choose(5); }
     else if (dim == 0) { when = dates[ts::choose(sizeof dates / sizeof *dates)]; zone = ts::choose(3); s = makeSpec(12, 3, 0); }
     else { s.level = ts::choose(8) - 1; s.file = files[ts::choose(8)]; s.cat = cs[ts::choose(5)]; s.text = texts[ts::choose(7)]; s.line = lines[ts::choose(5)]; }
     setenv("TZ", zones[zone], 1); tzset(); }
   ts::setEpoch(when);
   std::string* out; { ts::Quiet q; out = new std::string; }
   auto l = std::make_unique<falcon::LogStreamListener>();
   auto m = std::make_unique<LS::Message>(s.file, s.line, (LEVEL)s.level, s.cat, s.text);
   // the initial output goes nowhere
   l->onMessage(*m);
   auto sink = std::make_unique<Sink>(out, nullptr, false);
   if (form) format(*sink, form);
   auto flags = sink->flags(); auto fill = sink->fill(); auto prec = sink->precision(); auto loc = sink->getloc();
   l->writeOn(sink.get());
   // also after another message, with the most different contents
   l->onMessage(*m);
   auto m2 = std::make_unique<LS::Message>("dir/other.cpp", 5, LEVEL::WARN, "cat", "text");
   l->onMessage(*m2);
   l->onMessage(*m);
   ts::Quiet q;
   std::string a = lineOf(s, dateOf(when, offs[zone])), b = lineOf(Spec{"dir/other.cpp", 5, 2, "cat", "text"}, dateOf(when, offs[zone]));
   MC_CHECK(*out == a + b + a, "the lines written are\n%sinstead of\n%s", out->c_str(), (a + b + a).c_str());
   MC_CHECK(!sink->buf.unsent, "a line was written, but not flushed");
   MC_CHECK(sink->flags() == flags && sink->fill() == fill && sink->precision() == prec && sink->getloc() == loc, "writing a line changed the formatting of the stream (fill '%c' instead of '%c')", sink->fill(), fill);
   mc::state(mc::hashStr(*out, form));
   if (mc::noting()) mc::note("%s", out->c_str());
   delete out; s = Spec();
   setenv("TZ", "UTC", 1); tzset();
}

// Files, categories and texts of all lengths, and lines of all magnitudes.
void lengths() {
   ts::opt.preempt = 0;
   static const int sizes[] = {1, 2, 15, 16, 22, 23, 31, 32, 63, 64, 79, 80, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 300000};
   static const int lines[] = {0, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 16777217, INT_MAX, -1, -10, INT_MIN};
   Spec s;
   ts::setEpoch(T0);
   { ts::Quiet q;
     int what = ts::choose(5), n = what == 4 ? ts::choose(sizeof lines / sizeof *lines) : ts::choose(sizeof sizes / sizeof *sizes);
     s = makeSpec(12, 3, 1);
     std::string x; if (what < 4) while ((int)x.size() < sizes[n]) x += (char)(x.size() % 95 == 15 ? '_' : ' ' + x.size() % 95);
     if (what == 0) s.text = x; else if (what == 1) s.cat = x; else if (what == 2) s.file = "dir/" + x; else if (what == 3) s.file = x + "/f.cpp"; else s.line = lines[n]; }
   std::string* out; { ts::Quiet q; out = new std::string; }
   auto l = std::make_unique<falcon::LogStreamListener>();
   auto sink = std::make_unique<Sink>(out, nullptr, false);
   l->writeOn(sink.get());
   { auto m = std::make_unique<LS::Message>(s.file, s.line, (LEVEL)s.level, s.cat, s.text); l->onMessage(*m); l->onMessage(*m); }
   ts::Quiet q;
   std::string a = lineOf(s, dateOf(T0, 0));
   MC_CHECK(*out == a + a, "the lines written are\n%.3000sinstead of\n%.3000s", out->c_str(), (a + a).c_str());
   mc::state(mc::hashStr(*out));
   delete out; s = Spec();
}

// Time goes on (or back) between the messages of one listener, or of two; the time zone may change, too.
void timesGoOn(int msgs) {
   ts::opt.preempt = 0;
   static const int64_t steps[] = {0, 1, 59, 60, 3599, 3600, 86400, 86400 * 31, 86400 * 365, 86400LL * 365 * 4 + 86400, -1, -60, -3600, -86400};
   std::string* out, *want; { ts::Quiet q; out = new std::string; want = new std::string; }
   auto l = std::make_unique<falcon::LogStreamListener>(), l2 = std::make_unique<falcon::LogStreamListener>();
   auto sink = std::make_unique<Sink>(out, nullptr, false);
   l->writeOn(sink.get()); l2->writeOn(sink.get());
   int64_t now = T0 + 5;
   int zone = 0;
   for (int i = 0; i < msgs; ++i) {
      Spec s;
      { ts::Quiet q;
        if (i) { now += steps[ts::choose(14)]; if (i == 1) { zone = ts::choose(3); setenv("TZ", zones[zone], 1); tzset(); } }
        s = makeSpec(i, 3, i & 1); *want += lineOf(s, dateOf(now, offs[zone])); }
      ts::setEpoch(now);
      auto m = std::make_unique<LS::Message>(s.file, s.line, (LEVEL)s.level, s.cat, s.text);
      (i == 2 ? l2 : l)->onMessage(*m);
      ts::Quiet q; s = Spec();
   }
   ts::Quiet q;
   MC_CHECK(*out == *want, "the lines written are\n%sinstead of\n%s", out->c_str(), want->c_str());
   mc::state(mc::hashStr(*out));
   if (mc::noting()) mc::note("%s", out->c_str());
   delete out; delete want;
   setenv("TZ", "UTC", 1); tzset();
}

// The output is redirected at any moment.
void redirect(int changes, int msgs, int preempt, bool points) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   int total = changes + 1;
   Texts* tx; bool* gone;
   std::vector<std::pair<uint64_t, uint64_t>>* ch;
   { ts::Quiet q; tx = new Texts; tx->s.resize(total); gone = new bool[total](); ch = new std::vector<std::pair<uint64_t, uint64_t>>(total, {0, 0}); }
   auto sys = std::make_unique<LS>(true);
   auto l = std::make_shared<falcon::LogStreamListener>();
   l->category(".*");
   sys->addListener(l);
   struct Held { int how; std::shared_ptr<Sink> s; std::unique_ptr<Sink> u; };
   std::vector<Held> held(total);
   int lastOwn = -1, lastShare = -1;
   auto redirectTo = [&](int i, int how) {
      auto mk = [&]() { std::string* o; { ts::Quiet q; o = &tx->s[i]; } return new Sink(o, gone + i, points); };
      held[i].how = how;
      ts::point();
      if (how == 0) held[i].u.reset(mk());
      else if (how == 1) held[i].s.reset(mk());
      std::unique_ptr<std::ostream> own; if (how == 2) own.reset(mk());
      { ts::Quiet q; if (i) (*ch)[i].first = w->tick(7); }
      if (how == 0) l->writeOn(held[i].u.get());
      else if (how == 1) l->share(held[i].s);
      else l->own(own);
      { ts::Quiet q; if (i) (*ch)[i].second = w->tick(8); }
      if (how == 1) { held[i].s.reset(); if (lastShare >= 0) MC_CHECK(gone[lastShare], "a shared stream is still held after it was replaced by another one"); lastShare = i; }
      if (how == 2) { MC_CHECK(!own, "own() did not take the stream"); if (lastOwn >= 0) MC_CHECK(gone[lastOwn], "an owned stream lives on after it was replaced by another one"); lastOwn = i; }
      // A borrowed stream may go away once it is replaced.
      for (int j = 0; j < i; ++j) held[j].u.reset();
   };
   std::vector<int> hows; for (int i = 0; i < total; ++i) hows.push_back(ts::choose(3));
   redirectTo(0, hows[0]);
   std::thread logger([&]() { for (int i = 0; i < msgs; ++i) logN(*sys, *w, 100 + i, LEVEL::INFO, 1); });
   for (int i = 1; i < total; ++i) redirectTo(i, hows[i]);
   logger.join();
   ts::opt.preempt = 0;
   ts::quiesce();
   logN(*sys, *w, 300); ts::quiesce();
   { ts::Quiet q;
     // every line once, whole, in order, on a stream that was in force
     std::vector<int> where(w->sent.size(), -1);
     size_t next = 0;
     for (int i = 0; i < total; ++i) {
        std::string rest = tx->s[i];
        while (!rest.empty()) {
           std::string want = next < w->sent.size() ? lineOf(w->sent[next].spec, dateOf(T0, 0)) : "";
           MC_CHECK(next < w->sent.size() && rest.compare(0, want.size(), want) == 0, "stream %d holds\n%s\nwhere the line\n%sis expected", i, rest.c_str(), want.c_str());
           where[next++] = i; rest = rest.substr(want.size());
        }
     }
     MC_CHECK(next == w->sent.size(), "%zu of %zu lines were written", next, w->sent.size());
     for (size_t k = 0; k < w->sent.size(); ++k)
        for (int i = 1; i < total; ++i)
           MC_CHECK(!((*ch)[i].second < w->sent[k].call && where[k] < i), "a line went to the old stream although the output had been changed before it was logged");
     if (mc::noting()) { mc::note("%s", w->text().c_str()); for (auto& s : tx->s) mc::note("stream:\n%s", s.c_str()); }
     uint64_t h = 3; for (int x : where) h = mc::hash2(h, x); mc::outcome(h); }
   sys.reset();
   l.reset();
   for (int i = 0; i < total; ++i) if (hows[i]) MC_CHECK(gone[i], "a stream handed over was never released");
   held.clear();
   ts::Quiet q; delete tx; delete[] gone; delete ch;
}

// Two threads redirect the output at once, while a third one writes.
void redirect2(int each, int msgs, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   int total = 1 + 2 * each;
   Texts* tx; bool* gone;
   { ts::Quiet q; tx = new Texts; tx->s.resize(total); gone = new bool[total](); }
   auto sink = [&](int i) { std::string* o; { ts::Quiet q; o = &tx->s[i]; } return new Sink(o, gone + i, false); };
   auto l = std::make_shared<falcon::LogStreamListener>();
   std::vector<std::unique_ptr<Sink>> kept(total);
   std::vector<int> hows; for (int i = 1; i < total; ++i) hows.push_back(ts::choose(3));
   auto redirectTo = [&](int i, int how) {
      if (how == 0) { kept[i].reset(sink(i)); l->writeOn(kept[i].get()); }
      else if (how == 1) l->share(std::shared_ptr<std::ostream>(sink(i)));
      else { std::unique_ptr<std::ostream> own(sink(i)); l->own(own); MC_CHECK(!own, "own() did not take the stream"); }
   };
   kept[0].reset(sink(0)); l->writeOn(kept[0].get());
   auto deliver = [&](int id) {
      Spec s; { ts::Quiet q; s = makeSpec(id, 3, 1); }
      auto m = std::make_unique<LS::Message>(s.file, s.line, LEVEL::INFO, s.cat, s.text);
      l->onMessage(*m);
      ts::Quiet q; s = Spec();
   };
   auto go = [&](int t) { for (int k = 0; k < each; ++k) redirectTo(1 + t * each + k, hows[t * each + k]); };
   std::thread a([&]() { go(0); }), b([&]() { go(1); });
   for (int i = 0; i < msgs; ++i) deliver(100 + i);
   a.join(); b.join();
   ts::opt.preempt = 0;
   deliver(300);
   { ts::Quiet q;
     std::vector<std::string> want;
     for (int i = 0; i <= msgs; ++i) want.push_back(lineOf(makeSpec(i < msgs ? 100 + i : 300, 3, 1), dateOf(T0, 0)));
     std::vector<int> where(want.size(), -1);
     for (int i = 0; i < total; ++i) {
        std::string rest = tx->s[i];
        size_t next = 0;
        while (!rest.empty()) {
           bool ok = false;
           for (; next < want.size() && !ok; ++next)
              if (where[next] < 0 && rest.compare(0, want[next].size(), want[next]) == 0) { where[next] = i; rest = rest.substr(want[next].size()); ok = true; }
           MC_CHECK(ok, "stream %d holds something else than whole lines in order:\n%s", i, tx->s[i].c_str());
        }
     }
     for (size_t k = 0; k < want.size(); ++k) MC_CHECK(where[k] >= 0, "the line '%s' was not written", want[k].c_str());
     int last = where[msgs];
     MC_CHECK(last == each || last == 2 * each, "when two threads have changed the output, a line goes to stream %d, which none of them set last", last);
     MC_CHECK(!gone[last], "the stream that is written on is gone");
     uint64_t h = 3; for (int x : where) h = mc::hash2(h, x); mc::outcome(h); }
   l.reset();
   for (int i = 1; i < total; ++i) if (hows[i - 1]) MC_CHECK(gone[i], "a stream handed over was never released");
   kept.clear();
   ts::Quiet q; delete tx; delete[] gone;
}

// The same two streams, borrowed and shared in turns, another one handed over in between; the program may give up what it has shared.
void sameStreams(int depth) {
   ts::opt.preempt = 0;
   WorldPtr w;
   Texts* tx; bool* gone;
   { ts::Quiet q; tx = new Texts; tx->s.resize(2 + depth); gone = new bool[2 + depth](); }
   auto sink = [&](int i) { std::string* o; { ts::Quiet q; o = &tx->s[i]; } return new Sink(o, gone + i, false); };
   std::shared_ptr<Sink> user[2] = {std::shared_ptr<Sink>(sink(0)), std::shared_ptr<Sink>(sink(1))};
   auto l = std::make_shared<falcon::LogStreamListener>();
   int now = -1, how = 0, made = 2; Sink* at = nullptr;     // where the lines go: 0 borrowed, 1 shared, 2 handed over
   std::vector<std::string> want(2 + depth);
   for (int i = 0; i <= depth; ++i) {
      if (i) {
         int o = ts::choose(7), k = o % 2;
         if (o == 6) { at = sink(made); std::unique_ptr<std::ostream> u(at); l->own(u); MC_CHECK(!u, "own() did not take the stream"); now = made++; how = 2; }
         else if (!user[k]) {}      // given up already
         else if (o < 2) { l->writeOn(user[k].get()); now = k; how = 0; at = user[k].get(); }
         else if (o < 4) { l->share(user[k]); now = k; how = 1; at = user[k].get(); }
         else if (now != k || how == 1) { user[k].reset(); }
      }
      if (now >= 0) MC_CHECK(!gone[now], "the stream that is in force is gone, though it was %s", how == 1 ? "shared" : how ? "handed over" : "only borrowed");
      Spec s; { ts::Quiet q; s = makeSpec(100 + i, 3, 1); }
      auto m = std::make_unique<LS::Message>(s.file, s.line, LEVEL::INFO, s.cat, s.text);
      l->onMessage(*m);
      if (now >= 0) { ts::Quiet q; want[now] += lineOf(s, dateOf(T0, 0)); MC_CHECK(!at->buf.unsent, "a line was written, but not flushed"); }
      for (size_t j = 0; j < want.size(); ++j) MC_CHECK(tx->s[j] == want[j], "stream %zu holds\n%sinstead of\n%s", j, tx->s[j].c_str(), want[j].c_str());
      ts::Quiet q; s = Spec();
   }
   l.reset();
   for (int k = 0; k < 2; ++k) { MC_CHECK(!user[k] || !gone[k], "a stream was destroyed although the program still shares it"); user[k].reset(); }
   for (int i = 0; i < made; ++i) MC_CHECK(gone[i], "a stream was never released");
   ts::Quiet q; mc::state(mc::hash2(mc::hashStr(tx->s[0] + "|" + tx->s[1]), now)); delete tx; delete[] gone;
}

// Two services write each through its own listener, or both through one; a third thread of the program uses localtime() for itself.
void twoClocks(bool user, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   ts::setEpoch(T0);
   std::string* out; { ts::Quiet q; out = new std::string[2]; }
   auto l1 = std::make_unique<falcon::LogStreamListener>(), l2 = std::make_unique<falcon::LogStreamListener>();
   auto s1 = std::make_unique<Sink>(&out[0], nullptr, false), s2 = std::make_unique<Sink>(&out[1], nullptr, false);
   l1->writeOn(s1.get()); l2->writeOn(s2.get());
   auto go = [&](int t) {
      Spec s; { ts::Quiet q; s = makeSpec(100 * t, 3, 1); }
      auto m = std::make_unique<LS::Message>(s.file, s.line, LEVEL::INFO, s.cat, s.text);
      (t == 1 ? l1 : l2)->onMessage(*m);
      ts::Quiet q; s = Spec();
   };
   int hour = -1;
   std::thread other([&]() {
      if (user) { time_t t = 86400 * 365 + 5 * 3600; tm* r = localtime(&t); ts::point(); hour = r->tm_hour; }
      else go(2);
   });
   go(1);
   other.join();
   ts::Quiet q;
   std::string want = lineOf(makeSpec(100, 3, 1), dateOf(T0, 0));
   MC_CHECK(out[0] == want, "the line written is\n%sinstead of\n%s", out[0].c_str(), want.c_str());
   if (user) MC_CHECK(hour == 5, "the hour that another thread asked for is %d", hour);
   else { want = lineOf(makeSpec(200, 3, 1), dateOf(T0, 0)); MC_CHECK(out[1] == want, "the line written is\n%sinstead of\n%s", out[1].c_str(), want.c_str()); }
   mc::outcome(mc::hashStr(out[0] + out[1]));
   delete[] out;
}
// Two services (or a service and a proxy) write through one stream listener.
void twoWriters(int msgs, int preempt) {
   ts::opt.preempt = preempt;
   WorldPtr w;
   std::string* out; { ts::Quiet q; out = new std::string; }
   auto l = std::make_shared<falcon::LogStreamListener>();
   auto sink = std::make_unique<Sink>(out, nullptr, true);
   l->writeOn(sink.get());
   auto go = [&](int t) {
      for (int i = 0; i < msgs; ++i) {
         Spec s; { ts::Quiet q; s = makeSpec(100 * t + i, 3, 1); }
         auto m = std::make_unique<LS::Message>(s.file, s.line, LEVEL::INFO, s.cat, s.text);
         l->onMessage(*m);
         ts::Quiet q; s = Spec();
      }
   };
   std::thread other(go, 2);
   go(1);
   other.join();
   ts::Quiet q;
   int next[3] = {0, 0, 0};
   std::string rest = *out;
   while (!rest.empty()) {
      bool ok = false;
      for (int t = 1; t <= 2 && !ok; ++t) if (next[t] < msgs) {
         std::string x = lineOf(makeSpec(100 * t + next[t], 3, 1), dateOf(T0, 0));
         if (rest.compare(0, x.size(), x) == 0) { rest = rest.substr(x.size()); next[t]++; ok = true; }
      }
      MC_CHECK(ok, "the lines are mixed up:\n%s", out->c_str());
   }
   MC_CHECK(next[1] == msgs && next[2] == msgs, "lines are missing:\n%s", out->c_str());
   mc::outcome(mc::hashStr(*out));
   delete out;
}
#endif
}

#if PROP == 20
// localtime(), as documented: all threads share its result.
extern "C" tm* localtime(const time_t* t) noexcept {
   static tm shared;
   tm r; memset(&r, 0, sizeof r); { ts::Quiet q; tzset(); localtime_r(t, &r); }
   shared.tm_sec = r.tm_sec; shared.tm_min = r.tm_min; shared.tm_hour = r.tm_hour; shared.tm_mday = r.tm_mday; shared.tm_mon = r.tm_mon;
   shared.tm_year = r.tm_year; shared.tm_wday = r.tm_wday; shared.tm_yday = r.tm_yday; shared.tm_isdst = r.tm_isdst; shared.tm_gmtoff = r.tm_gmtoff; shared.tm_zone = r.tm_zone;
   return &shared;
}
#endif
static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
   auto add = [&](const char* n, std::function<void()> f, std::string b, double cap = 120) { v.push_back({n, f, false, cap, b}); };
   (void)add;
#if PROP == 14
   add("volume-1", []() { volume(1, 70000, 0); }, "70000 messages of one thread, faster than they are handled");
   add("volume-3", []() { volume(3, 10000, 0); }, "10000 messages of each of 3 threads, faster than they are handled");
   add("volume-paced", []() { volume(1, 30000, 50); }, "30000 messages of one thread, 50 at a time");
   add("1+1", [=]() { delivery({1, 1}, 2, 4, th ? 4 : 3, 0); }, S("2 threads logging 1 message of 4 kinds each, 2 listeners, %d preemptions", th ? 4 : 3));
   add("2", [=]() { delivery({2}, 2, 4, 99, 1); }, "1 thread logging 2 messages of 4 kinds, 2 listeners, unbounded preemptions, 1 spurious wake-up");
   add("2+1", [=]() { delivery({2, 1}, 2, 4, th ? 3 : 2, 0); }, S("2 threads logging 2 and 1 messages of 4 kinds, 2 listeners, %d preemptions", th ? 3 : 2));
   add("2+2", [=]() { delivery({2, 2}, 1, th ? 4 : 2, 2, 0); }, S("2 threads logging 2 messages of %d kinds each, 1 listener, 2 preemptions", th ? 4 : 2));
   add("1+1+1", [=]() { delivery({1, 1, 1}, 1, th ? 4 : 2, 2, 0); }, S("3 threads logging 1 message of %d kinds each, 1 listener, 2 preemptions", th ? 4 : 2));
   if (th) add("3+2", [=]() { delivery({3, 2}, 1, 2, 2, 1); }, "2 threads logging 3 and 2 messages of 2 kinds, 1 listener, 2 preemptions, 1 spurious wake-up", 300);
   add("lengths", []() { lengths(); }, "39 lengths of file, category or text up to 1000000, three kinds of contents, both ways of logging, between other messages");
   add("shapes", [=]() { shapes(th ? 3 : 2, false); }, S("%d messages through the same storage, one by one or together, the last with every combination of 4 files, 4 categories, 4 texts, 3 lines, 3 levels and 2 ways of logging", th ? 3 : 2), 200);
   add("blocked", [=]() { blockedListener(2, 2, th ? 3 : 2); }, S("2 threads logging 2 messages each while a listener does not return, %d preemptions", th ? 3 : 2));
   add("blocked-burst", [=]() { blockedListener(70, 1, 0); }, "70 messages while a listener does not return, no preemption");
   add("relog", [=]() { relogging(th ? 2 : 1, th ? 3 : 2); }, S("a listener logging from the delivery, 2 threads, %d preemptions", th ? 3 : 2));
   add("level", [=]() { levelChange(2, th ? 4 : 2); }, S("2 level changes, every choice of 3 levels, against 3 messages, %d preemptions", th ? 4 : 2));
#elif PROP == 15
   add("sequence", [=]() { sequence(th ? 6 : 5, 0, th ? 3 : 2, 0); }, S("every sequence of %d calls of start/stop/log/wait, immediate start or not, %d preemptions", th ? 6 : 5, th ? 3 : 2), 200);
   add("sequence-spurious", [=]() { sequence(th ? 4 : 3, 0, th ? 99 : 3, 1); }, S("every sequence of %d calls, %s preemptions, 1 spurious wake-up", th ? 4 : 3, th ? "unbounded" : "3"), 200);
   add("with-logger", [=]() { sequence(th ? 4 : 3, th ? 2 : 1, 2, 0); }, S("every sequence of %d calls while another thread logs %d messages, 2 preemptions", th ? 4 : 3, th ? 2 : 1), 200);
   add("controllers", [=]() { controllers(th ? 3 : 2, th ? 2 : 2, th ? 3 : 2); }, S("2 threads making every sequence of %d and 2 calls of start/stop/log, %d preemptions", th ? 3 : 2, th ? 3 : 2), 200);
   add("restarts", [=]() { restarts(th ? 2000 : 300); }, S("%d starts and stops, with 0..2 messages before and after each, delivered before the stop or not", th ? 2000 : 300));
   add("destruction", [=]() { destruction(th ? 3 : 2, 99, 1); }, S("destruction after 0..%d messages, never started, running or stopped, unbounded preemptions, 1 spurious wake-up", th ? 3 : 2));
#elif PROP == 16
   add("manage", [=]() { management(th ? 6 : 5, 0, th ? 2 : 1, true); }, S("every sequence of %d calls of add/detach/disable/enable/log/wait, %d preemptions", th ? 6 : 5, th ? 2 : 1), 200);
   add("manage-3", [=]() { management(th ? 4 : 3, 0, th ? 99 : 4, true); }, S("every sequence of %d calls, %s preemptions", th ? 4 : 3, th ? "unbounded" : "4"), 200);
   add("manage+logger", [=]() { management(th ? 4 : 3, 2, 2, false); }, S("every sequence of %d calls while another thread logs 2 messages, 2 preemptions", th ? 4 : 3), 300);
   add("turnover", [=]() { turnover(3, 2, th ? 4 : 2); }, S("any of 3 listeners leave while 2 messages are logged, %d preemptions", th ? 4 : 2));
   for (int n : {1, 2, 64, 65, 255, 256, 300, 1000}) add("crowd", [=]() { crowd(n); }, S("%d listeners, of which all, half or a third are disabled, detached or detached and released", n));
   add("reentrant", [=]() { reentrant(th ? 3 : 2); }, S("a listener logging, adding a listener, reading diagnostics or changing filters when called or released, %d preemptions", th ? 3 : 2));
#elif PROP == 17
   add("product", []() { product(false); }, "every system level x listener level x enablement x 8 category filters, each with 6 message levels x 10 categories");
   add("two-listeners", []() { product(true); }, "every pair of settings (2 levels x enablement x 8 filters) of two listeners, each with 60 messages");
   add("changing", [=]() { changing(th ? 4 : 3); }, S("every sequence of %d setting changes of 16 (4 invalid filters among them), with 9 messages after each", th ? 4 : 3), 200);
   add("expressions", []() { expressions(); }, S("every pair of %d regular expressions, one after the other, each with %d categories", NE, NW));
   add("proxy", []() { proxies(); }, "a proxy (or a proxy of a proxy) and its target with every pair of 18 settings, the target on its own, a listener of the service or detached, 60 messages");
   add("changing-while", [=]() { changingWhile(th ? 4 : 3); }, S("every filter change during a delivery, 3 x 3 filters x 5 categories, %d preemptions", th ? 4 : 3));
   add("long-categories", []() { longCategories(); }, "categories and filters of 27 lengths up to 1000 x 6 filters x 8 categories");
   for (int n : {300, 1100}) add(S("many-changes-%d", n).c_str(), [=]() { manyChanges(n); }, S("%d changes of filter, levels or enablement in a row, each followed by a message", n));
   add("names", []() { levelNames(); }, "levels -3..8");
#elif PROP == 18
   add("accounting", [=]() { accounting(th ? 4 : 3); }, S("every sequence of %d bursts (1, 2 ready-made, 63, 65, 70), starts, stops and listener changes, delivered or held after each", th ? 4 : 3), 300);
   add("unheard", [=]() { unheard(th ? 4 : 3); }, S("%d times 0 to 2 messages of 3 kinds, with no listener, or one or two that take all, nothing or are disabled or detached", th ? 4 : 3));
   add("volume", []() { volume(70000, 1); }, "70000 messages, waiting all at once, half of them ready-made or none");
   add("volume-rounds", []() { volume(100, 300); }, "300 x 100 messages, the service started for each 100, half of them ready-made or none");
   add("run-out-1", [=]() { conservation(1, {1, 1}, th ? 99 : 5, false); }, S("2 threads logging 1 message each with 1 left in the pool, %s preemptions", pre(th ? 99 : 5).c_str()), 200);
   add("run-out-2", [=]() { conservation(2, {2, 2}, th ? 5 : 4, false); }, S("2 threads logging 2 messages each with 2 left in the pool, %d preemptions", th ? 5 : 4), 200);
   add("run-out-3", [=]() { conservation(1, {1, 1, 1}, th ? 3 : 2, false); }, S("3 threads logging 1 message each with 1 left in the pool, %d preemptions", th ? 3 : 2), 200);
   add("fill-up-1", [=]() { conservation(-1, {1, 1}, 2, true); }, "2 threads logging 1 message each (and restarting the service) while the last of 65 messages come back, 2 preemptions", 200);
   add("fill-up-2", [=]() { conservation(-1, {2, 1}, th ? 2 : 1, true); }, S("2 threads logging 2 and 1 messages (and restarting the service) while the last of 65 messages come back, %d preemptions", th ? 2 : 1), 200);
   add("leftovers", [=]() { leftovers(th ? 99 : 3); }, S("destruction with 0..3 messages pending, being delivered or done, never started, running or stopped, %s preemptions", th ? "unbounded" : "3"));
#elif PROP == 19
   add("pairs", [=]() { pairs(1, 1, th ? 2 : 1, th ? 3 : 2); }, S("every pair of %d calls by 2 threads while the service delivers, %d preemptions", NOPS, th ? 3 : 2), 300);
   if (th) add("pairs-2", [=]() { pairs(2, 1, 1, 1); }, S("every program of 2 and 1 of %d calls by 2 threads while the service delivers, 1 preemption", NOPS), 400);
#elif PROP == 20
   add("dates", []() { formats(0); }, "17 dates around calendar edges x 3 time zones");
   add("days", []() { formats(3); }, "every day of three years x 3 time zones");
   add("times", []() { formats(4); }, S("every hour and minute of a day and %s x 3 time zones", th ? "every second" : "6 seconds"));
   add("years", []() { formats(5); }, "3 x 4 days around changes of month in each of 130 years, 2 seconds, 3 time zones");
   add("formats", []() { formats(1); }, "8 levels x 8 paths x 5 categories x 7 texts x 5 line numbers");
   add("lengths", []() { lengths(); }, "texts, categories, file names and directories of 35 lengths up to 300000 characters, 26 line numbers");
   add("times-go-on", [=]() { timesGoOn(th ? 4 : 3); }, S("%d messages one after another, with 14 steps of time in between, 3 time zones set after the first", th ? 4 : 3));
   add("formatted", []() { formats(2); }, "6 levels x 2 messages on streams with 5 kinds of formatting set");
   add("redirect", [=]() { redirect(2, 2, th ? 3 : 2, false); }, S("every sequence of 2 changes of the output (borrowed, shared, owned) while 2 messages are delivered, %d preemptions", th ? 3 : 2), 200);
   add("redirect-mid", [=]() { redirect(1, th ? 2 : 1, 3, true); }, S("1 change while %d message is written, also in the middle of the line, 3 preemptions", th ? 2 : 1), 200);
   add("same", [=]() { sameStreams(th ? 6 : 5); }, S("every sequence of %d calls borrowing or sharing one of two streams, giving one of them up or handing over another, a line after each", th ? 6 : 5));
   add("redirect-two", [=]() { redirect2(1, th ? 2 : 1, th ? 4 : 3); }, S("2 threads changing the output once each (borrowed, shared, owned) while %d message is written, %d preemptions", th ? 2 : 1, th ? 4 : 3), 200);
   add("redirect-two-twice", [=]() { redirect2(2, 1, th ? 3 : 2); }, S("2 threads changing the output twice each while 1 message is written, %d preemptions", th ? 3 : 2), 200);
   add("two-listeners", [=]() { twoClocks(false, th ? 99 : 4); }, S("2 services writing 1 line each through their own listeners, %s preemptions", pre(th ? 99 : 4).c_str()));
   add("localtime", [=]() { twoClocks(true, 99); }, "a line is written while another thread uses localtime(), unbounded preemptions");
   add("two-writers", [=]() { twoWriters(th ? 2 : 1, th ? 3 : 3); }, S("2 threads writing %d line each through one listener, 3 preemptions", th ? 2 : 1), 200);
#endif
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
