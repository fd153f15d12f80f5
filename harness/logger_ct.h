// What the two translation units of the C23 check share.
#ifndef LOGGER_CT_H
#define LOGGER_CT_H
#include "log_common.h"
#include <falcon/logger.h>
extern falcon::Logger* theLogger;
#undef LOGGER
#define LOGGER (*theLogger)
struct Seen { int blocks = 0, formats = 0, line = 0; };
extern Seen* seen;
struct Probe {};
inline std::ostream& operator<<(std::ostream& o, const Probe&) { { ts::Quiet q; seen->formats++; } return o << "probe"; }
inline void blockRuns() { ts::Quiet q; seen->blocks++; }
constexpr int FORMS = 5;
// Statement of the given form and level, from this or the other translation unit.
void statementHere(int form, int level);
void statementThere(int form, int level);
void categoryThere(const char* c);
const char* fileThere();
#define STATEMENTS(name) \
void name(int form, int level) { \
   switch (form) { \
   case 0: { ts::Quiet q; seen->line = __LINE__; } \
      switch (level) { \
      case 0: LOG_CRIT << "text " << Probe(); break; \
      case 1: LOG_ERR << "text " << Probe(); break; \
      case 2: LOG_WARN << "text " << Probe(); break; \
      case 3: LOG_INFO << "text " << Probe(); break; \
      case 4: LOG_DBG << "text " << Probe(); break; \
      case 5: LOG_TRC << "text " << Probe(); break; } \
      break; \
   case 1: \
      switch (level) { \
      case 0: LOG_BLOCK_CRIT { blockRuns(); LOGGER << "text " << Probe(); } break; \
      case 1: LOG_BLOCK_ERR { blockRuns(); LOGGER << "text " << Probe(); } break; \
      case 2: LOG_BLOCK_WARN { blockRuns(); LOGGER << "text " << Probe(); } break; \
      case 3: LOG_BLOCK_INFO { blockRuns(); LOGGER << "text " << Probe(); } break; \
      case 4: LOG_BLOCK_DBG { blockRuns(); LOGGER << "text " << Probe(); } break; \
      case 5: LOG_BLOCK_TRC { blockRuns(); LOGGER << "text " << Probe(); } break; } \
      break; \
   case 2: LOG((LEVEL)level) << LOG_CAT("temp") << "text " << Probe(); break; \
   case 3: LOG_BLOCK((LEVEL)level) { blockRuns(); LOGGER << "text " << Probe(); } break; \
   case 4: \
      switch (level) { \
      case 0: LOG(falcon::LLCRIT) << "text " << Probe(); break; \
      case 1: LOG(falcon::LLERR) << "text " << Probe(); break; \
      case 2: LOG(falcon::LLWARN) << "text " << Probe(); break; \
      case 3: LOG(falcon::LLINFO) << "text " << Probe(); break; \
      case 4: LOG(falcon::LLDEBUG) << "text " << Probe(); break; \
      case 5: LOG(falcon::LLTRACE) << "text " << Probe(); break; } \
      break; \
   } \
   { ts::Quiet q; seen->line = __LINE__; } \
}
#endif
