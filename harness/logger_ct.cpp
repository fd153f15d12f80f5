// C23: compile-time and runtime levels.  Built once for each compile-time level (CTLEVEL says which).
#include "logger_ct.h"
falcon::Logger* theLogger;
Seen* seen;
STATEMENTS(statementHere)

namespace {
struct Tape : LS::Listener {
   std::vector<Spec>* got;
   Tape(std::vector<Spec>* g): got(g) {}
   void onMessage(const LS::Message& m) override { ts::Quiet q; got->push_back(Spec{m.m_file, m.m_line, (int)m.m_level, m.m_category, m.m_message}); }
};
constexpr int noRuntime = -100;

// Every runtime level x statement level x form x translation unit, after every first statement.
void product(int length) {
   ts::opt.preempt = 0;
   std::vector<Spec>* got; { ts::Quiet q; got = new std::vector<Spec>; seen = new Seen; }
   auto lg = std::make_unique<falcon::Logger>(); theLogger = lg.get();
   auto tape = std::make_shared<Tape>(got);
   lg->addListener(tape);
   int rt = ts::choose(7) - 1;
   if (rt >= 0) lg->level((LEVEL)rt); else rt = LEVEL::TRACE;      // as it is by default
   MC_CHECK(lg->level() == rt, "the level is %d instead of %d", (int)lg->level(), rt);
   std::string hist;
   for (int i = 0; i < length; ++i) {
      int level = ts::choose(6), form = ts::choose(FORMS), there = ts::choose(2), cat = ts::choose(2);
      if (cat) { if (there) categoryThere("category"); else { LOG_CATEGORY("category"); } }
      { ts::Quiet q; *seen = Seen(); got->clear(); hist += S("level %d form %d unit %d%s; ", level, form, there, cat ? " after LOG_CATEGORY" : ""); }
      if (there) statementThere(form, level); else statementHere(form, level);
      ts::quiesce();
      ts::Quiet q;
      bool on = level <= CTLEVEL && level <= rt, block = form == 1 || form == 3;
      MC_CHECK(got->size() == size_t(on), "%zu messages are emitted instead of %d (compile-time level %d, runtime level %d): %s", got->size(), int(on), CTLEVEL, rt, hist.c_str());
      MC_CHECK(seen->blocks == int(on && block), "the block was executed %d times (compile-time level %d, runtime level %d): %s", seen->blocks, CTLEVEL, rt, hist.c_str());
      MC_CHECK(seen->formats == int(on), "the arguments were formatted %d times (compile-time level %d, runtime level %d): %s", seen->formats, CTLEVEL, rt, hist.c_str());
      bool named = CTLEVEL >= 0 && hist.find("after LOG_CATEGORY") != std::string::npos;
      if (on) {
         const Spec& s = got->front();
         std::string want = form == 2 ? "temp" : named ? "category" : "";
         MC_CHECK(s.text == "text probe" && s.level == level && s.cat == want && s.file == (there ? fileThere() : __FILE__), "the message is %s: %s", show(s).c_str(), hist.c_str());
      }
      // (with logging compiled out the category has no effect to be seen)
      mc::state(mc::hash2(rt * 100 + level * 10 + form, CTLEVEL + 5 + there * 16 + cat * 32 + on * 64));
   }
   mc::outcome(mc::hash2(got->size(), seen->blocks));
   if (mc::noting()) mc::note("compile-time level %d, runtime level %d: %s last emitted %zu\n", CTLEVEL, rt, hist.c_str(), got->size());
   lg.reset(); tape.reset(); theLogger = nullptr;
   ts::Quiet q; delete got; delete seen; hist = std::string();
}
}
static std::vector<mc::Scenario> build(bool th) {
   std::vector<mc::Scenario> v;
   v.push_back({S("product-ct%d", CTLEVEL), [=]() { product(th ? 3 : 2); }, false, 200.0, S("compile-time level %d x every runtime level x every sequence of %d statements (6 levels x 5 forms x 2 translation units, after setting the category or not)", CTLEVEL, th ? 3 : 2)});
   return v;
}
int main(int c, char** v) { return mc::main(c, v, build); }
