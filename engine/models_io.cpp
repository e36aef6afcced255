// Explicit instantiation of the number formatting and parsing facets so that
// streams use instrumented code.
// the conversion to floating point, defined below
#define __convert_to_v sx_convert_to_v
#include <locale>
#include <ostream>
#include <istream>
#include <sstream>
template class std::num_put<char>;
template class std::num_get<char>;

// The conversion to floating point is left to the C library: the text is pinned first.
#include "sx.h"
#include <cmath>
#include <limits>
#include <stdlib.h>
#include <string.h>
namespace {
struct Text {
  char buf[256];
  explicit Text(const char *s) {
    size_t n = 0;
    for (; n + 1 < sizeof(buf); ++n)
      if (!(buf[n] = (char)sx_pinned_u64((unsigned char)s[n]))) break;
    buf[n] = 0;
  }
};
template <class T> void convert(const char *s, T &v, std::ios_base::iostate &err, T (*conv)(const char *, char **, locale_t), const std::__c_locale &loc) {
  Text t(s);
  char *end = nullptr;
  v = conv(t.buf, &end, loc);
  if (end == t.buf || *end) {
    v = 0;
    err = std::ios_base::failbit;
  } else if (v == std::numeric_limits<T>::infinity()) {
    v = std::numeric_limits<T>::max();
    err = std::ios_base::failbit;
  } else if (v == -std::numeric_limits<T>::infinity()) {
    v = -std::numeric_limits<T>::max();
    err = std::ios_base::failbit;
  }
}
} // namespace
template <> void std::__convert_to_v(const char *s, float &v, std::ios_base::iostate &err, const std::__c_locale &loc) throw() { convert(s, v, err, strtof_l, loc); }
template <> void std::__convert_to_v(const char *s, double &v, std::ios_base::iostate &err, const std::__c_locale &loc) throw() { convert(s, v, err, strtod_l, loc); }
template <> void std::__convert_to_v(const char *s, long double &v, std::ios_base::iostate &err, const std::__c_locale &loc) throw() { convert(s, v, err, strtold_l, loc); }
