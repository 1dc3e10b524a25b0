// stand-in for boost::format: every %1% of the format is replaced by the argument
#pragma once
#include <string>
namespace boost {
struct format {
  std::string f, arg;
  explicit format(const std::string &s) : f(s) {}
  format &operator%(const std::string &a) { arg = a; return *this; }
};
inline std::string str(const format &f) {
  std::string r;
  for (std::size_t i = 0; i < f.f.size(); ++i) {
    if (f.f[i] == '%' && i + 2 < f.f.size() && f.f[i + 1] == '1' && f.f[i + 2] == '%') { r += f.arg; i += 2; }
    else r += f.f[i];
  }
  return r;
}
}
