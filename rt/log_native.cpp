#include <iostream>
#include <fstream>
#include "util/log.h"
static std::ofstream gNull;
static DummyLog gDummy;
bool __dummy_expr__;
std::ostream& LogStream(int) { return gNull; }
std::ostream& Dump(const std::string&) { return gNull; }
DummyLog& DummyLogStream() { return gDummy; }
void LogInitial(int, char**) {}
void LogFinish() {}
std::ostream& operator<<(std::ostream& o, const block& v) { return o; }
