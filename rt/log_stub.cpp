// util/log.h entry points without log files (logging is not the subject).
#include "util/log.h"
static DummyLog gDummy;
DummyLog& DummyLogStream() { return gDummy; }
std::ostream& operator<<(std::ostream& o, const block& v) { return o; }
