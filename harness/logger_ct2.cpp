// The other translation unit including the logger.
#include "logger_ct.h"
STATEMENTS(statementThere)
void categoryThere(const char* c) { LOG_CATEGORY(c); }
const char* fileThere() { return __FILE__; }
