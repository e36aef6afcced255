// Values of the built-in types and their conversions, independent of the implementation.
#pragma once
#include "vm.h"
#include <cmath>

namespace A {

enum T { B, I16, I32, I64, F, D, S, Count };
static const char *kName[] = {"bool", "int16", "int", "int64", "float", "double", "string"};
inline bool isInt(T t) { return t == I16 || t == I32 || t == I64; }
inline bool isFp(T t) { return t == F || t == D; }
inline bool isNum(T t) { return isInt(t) || isFp(t); }

struct V {
  T t;
  bool b = false;
  int64_t i = 0;
  float f = 0;
  double d = 0;
  std::string s;
};
inline V ofB(bool v) { V r{B}; r.b = v; return r; }
inline V ofI(T t, int64_t v) {
  V r{t};
  r.i = t == I16 ? (int64_t)(int16_t)v : t == I32 ? (int64_t)(int32_t)v : v;
  return r;
}
inline V ofF(float v) { V r{F}; r.f = v; return r; }
inline V ofD(double v) { V r{D}; r.d = v; return r; }
inline V ofS(const std::string &v) { V r{S}; r.s = v; return r; }

// every value of the type; text: every string of up to two characters
inline V sym(T t, const std::string &n) {
  switch (t) {
  case B: return ofB(sx_bool(n.c_str()));
  case I16: return ofI(I16, sx_i16(n.c_str()));
  case I32: return ofI(I32, sx_i32(n.c_str()));
  case I64: return ofI(I64, sx_i64(n.c_str()));
  case F: return ofF(sx_f32(n.c_str()));
  case D: return ofD(sx_f64(n.c_str()));
  default: {
    unsigned len = sx_choose((n + "_len").c_str(), 3);
    std::string s(len, 0);
    for (unsigned k = 0; k < len; ++k) {
      uint8_t c = sx_u8((n + std::to_string(k)).c_str());
      sx_assume(c >= 32 && c < 127);
      s[k] = (char)c;
    }
    return ofS(s);
  }
  }
}

inline Slang::Parameter arg(const V &v) {
  switch (v.t) {
  case B: return H::arg(v.b);
  case I16: return H::arg((int16_t)v.i);
  case I32: return H::arg((int32_t)v.i);
  case I64: return H::arg(v.i);
  case F: return H::arg(v.f);
  case D: return H::arg(v.d);
  default: return H::arg(v.s);
  }
}

// the text of a number, for the values listed here
struct Text {
  V v;
  const char *text;
};
inline std::vector<Text> texts(T t) {
  switch (t) {
  case B: return {{ofB(false), "0"}, {ofB(true), "1"}};
  case I16: return {{ofI(t, 0), "0"}, {ofI(t, -1), "-1"}, {ofI(t, 32767), "32767"}, {ofI(t, -32768), "-32768"}, {ofI(t, 1000), "1000"}};
  case I32: return {{ofI(t, 0), "0"}, {ofI(t, -1), "-1"}, {ofI(t, INT32_MAX), "2147483647"}, {ofI(t, INT32_MIN), "-2147483648"}, {ofI(t, 1000000), "1000000"}};
  case I64: return {{ofI(t, 0), "0"}, {ofI(t, -1), "-1"}, {ofI(t, INT64_MAX), "9223372036854775807"}, {ofI(t, INT64_MIN), "-9223372036854775808"}, {ofI(t, 4294967296), "4294967296"}};
  case F: return {{ofF(0), "0"}, {ofF(0.5f), "0.5"}, {ofF(-2.25f), "-2.25"}, {ofF(100), "100"}, {ofF(65536.125f), "65536.125"}};
  case D: return {{ofD(0), "0"}, {ofD(0.5), "0.5"}, {ofD(-2.25), "-2.25"}, {ofD(100), "100"}, {ofD(16777217.125), "16777217.125"}};
  default: return {{ofS(""), ""}, {ofS("a b"), "a b"}, {ofS("0"), "0"}};
  }
}

// floating point values whose integer part fits 62 bits (others have no defined integer value)
inline int64_t toInt(float f) {
  sx_assume(f > -4.6e18f && f < 4.6e18f);
  return (int64_t)f;
}
inline int64_t toInt(double d) {
  sx_assume(d > -4.6e18 && d < 4.6e18);
  return (int64_t)d;
}

// conversion between the number types and bool
inline V conv(const V &v, T t) {
  if (v.t == t) return v;
  switch (t) {
  case B:
    return ofB(v.t == F ? v.f != 0 : v.t == D ? v.d != 0 : v.i != 0);
  case I16: case I32: case I64:
    return ofI(t, v.t == B ? (int64_t)v.b : v.t == F ? toInt(v.f) : v.t == D ? toInt(v.d) : v.i);
  case F:
    return ofF(v.t == B ? (float)v.b : v.t == D ? (float)v.d : (float)v.i);
  case D:
    return ofD(v.t == B ? (double)v.b : v.t == F ? (double)v.f : (double)v.i);
  default:
    sx_fail("harness: no conversion");
    return v;
  }
}

inline uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline uint64_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }

// the method returned exactly this value
inline void same(const H::Result &r, const V &want, const char *what) {
  sx_assert(r.out == H::Returned, what);
  switch (want.t) {
  case B: {
    bool g = r.b();
    sx_observe(g);
    sx_assert(g == want.b, what);
    break;
  }
  case I16: case I32: case I64: {
    int64_t g = r.i();
    sx_observe((uint64_t)g);
    sx_assert_eq((uint64_t)g, (uint64_t)want.i, what);
    break;
  }
  case F: {
    float g = r.f();
    unsigned eq = bits(g) == bits(want.f), nan = (unsigned)(want.f != want.f) & (unsigned)(g != g);
    sx_assert_eq(eq | nan, 1, what);
    break;
  }
  case D: {
    double g = r.d();
    unsigned eq = bits(g) == bits(want.d), nan = (unsigned)(want.d != want.d) & (unsigned)(g != g);
    sx_assert_eq(eq | nan, 1, what);
    break;
  }
  default: {
    std::string g = r.s();
    sx_observe_str(g.data(), g.size());
    sx_assert(g.size() == want.s.size(), what);
    bool ok = true;
    for (size_t k = 0; k < g.size() && k < want.s.size(); ++k) ok = ok & (g[k] == want.s[k]);
    sx_assert(ok, what);
  }
  }
}

} // namespace A
