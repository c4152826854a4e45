// Text formatting for help messages: nothing to decide, so nothing to execute.
#ifndef SHIM_BOOST_FORMAT
#define SHIM_BOOST_FORMAT 1
#include <string>
#include <ostream>
namespace boost {
struct format { std::string s; format() {} explicit format(const std::string& f) : s(f) {} template <class T> format& operator%(const T&) { return *this; } std::string str() const { return s; } format& parse(const std::string& f) { s = f; return *this; } };
inline std::string str(const format& f) { return f.str(); }
inline std::ostream& operator<<(std::ostream& o, const format& f) { o << f.str(); return o; }
}
#endif
