// stand-in for the text form of numbers: a number is written as a token "#k", k being its index in a table
// of (symbolic) values.  Strings and characters are kept as they are.
#ifndef BOOST_PROPERTY_TREE_STREAM_TRANSLATOR_HPP_INCLUDED
#define BOOST_PROPERTY_TREE_STREAM_TRANSLATOR_HPP_INCLUDED
#include <boost/property_tree/ptree_fwd.hpp>
#include <boost/optional.hpp>
#include <boost/optional/optional_io.hpp>
#include <boost/utility/enable_if.hpp>
#include <boost/type_traits/decay.hpp>
#include <boost/type_traits/integral_constant.hpp>
#include <sstream>
#include <string>
#include <locale>
#include <limits>
namespace vft {
struct Table { double v[256]; int n; };
inline Table &table() { static Table t; return t; }
inline std::string token(double v) {
  Table &t = table();
  const int k = t.n++;
  t.v[k] = v;
  std::string s = "#";
  s += (char)('0' + k / 100); s += (char)('0' + k / 10 % 10); s += (char)('0' + k % 10);
  return s;
}
inline bool value(const std::string &s, double &v) {
  if (s.size() != 4 || s[0] != '#') return false;
  for (int i = 1; i < 4; ++i) if (s[i] < '0' || s[i] > '9') return false;
  const int k = (s[1] - '0') * 100 + (s[2] - '0') * 10 + (s[3] - '0');
  if (k >= table().n) return false;
  v = table().v[k];
  return true;
}
}
namespace boost { namespace property_tree {
template <typename Ch, typename Traits, typename E, typename Enabler = void> struct customize_stream {};
template <typename Ch, typename Traits, typename Alloc, typename E> class stream_translator;
template <typename Ch, typename Traits, typename Alloc> class stream_translator<Ch, Traits, Alloc, double> {
 public:
  typedef std::basic_string<Ch, Traits, Alloc> internal_type;
  typedef double external_type;
  boost::optional<double> get_value(const internal_type &s) {
    double v;
    return vft::value(s, v) ? boost::optional<double>(v) : boost::optional<double>();
  }
  boost::optional<internal_type> put_value(const double &v) { return vft::token(v); }
};
template <typename Ch, typename Traits, typename Alloc> class stream_translator<Ch, Traits, Alloc, float> {
 public:
  typedef std::basic_string<Ch, Traits, Alloc> internal_type;
  typedef float external_type;
  boost::optional<float> get_value(const internal_type &s) {
    double v;
    return vft::value(s, v) ? boost::optional<float>((float)v) : boost::optional<float>();
  }
  boost::optional<internal_type> put_value(const float &v) { return vft::token(v); }
};
template <typename Ch, typename Traits, typename Alloc> class stream_translator<Ch, Traits, Alloc, int> {
 public:
  typedef std::basic_string<Ch, Traits, Alloc> internal_type;
  typedef int external_type;
  boost::optional<int> get_value(const internal_type &s) {
    double v;
    return vft::value(s, v) ? boost::optional<int>((int)v) : boost::optional<int>();
  }
  boost::optional<internal_type> put_value(const int &v) { return vft::token(v); }
};
template <typename Ch, typename Traits, typename Alloc, std::size_t N> class stream_translator<Ch, Traits, Alloc, char[N]> {
 public:
  typedef std::basic_string<Ch, Traits, Alloc> internal_type;
  boost::optional<internal_type> put_value(const char (&v)[N]) { return internal_type(v); }
};
template <typename Ch, typename Traits, typename Alloc> class stream_translator<Ch, Traits, Alloc, const char *> {
 public:
  typedef std::basic_string<Ch, Traits, Alloc> internal_type;
  boost::optional<internal_type> put_value(const char *v) { return internal_type(v); }
};
template <typename Ch, typename Traits, typename Alloc, typename E>
struct translator_between<std::basic_string<Ch, Traits, Alloc>, E> { typedef stream_translator<Ch, Traits, Alloc, E> type; };
}}
#endif
