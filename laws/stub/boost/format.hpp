// boost::format for formats made of text and %N% directives: the arguments take the places of their numbers
#ifndef STUB_BOOST_FORMAT_HPP
#define STUB_BOOST_FORMAT_HPP
#include <sstream>
#include <string>
#include <vector>
namespace boost {
class format {
  std::string fmt;
  std::vector<std::string> args;
 public:
  explicit format(const std::string &f) : fmt(f) {}
  template <class T> format &operator%(const T &x) {
    std::ostringstream s;
    s << x;
    args.push_back(s.str());
    return *this;
  }
  std::string str() const {
    std::string r;
    for (std::size_t i = 0; i < fmt.size(); ++i) {
      if (fmt[i] != '%') { r += fmt[i]; continue; }
      std::size_t n = 0;
      for (++i; i < fmt.size() && fmt[i] >= '0' && fmt[i] <= '9'; ++i) n = 10 * n + (fmt[i] - '0');
      if (n >= 1 && n <= args.size()) r += args[n - 1];
    }
    return r;
  }
};
inline std::string str(const format &f) { return f.str(); }
}
#endif
