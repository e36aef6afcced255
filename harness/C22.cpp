// Literals denote the written value; numbers survive the way through text.
#include "atomic.h"
using namespace A;

static void empty() {
  H::newVM();
  H::vm->init();
}
static bool loadHere(const std::string &src) {
  try {
    H::vm->createScriptFromString(src);
  } catch (std::exception &) {
    return false;
  }
  Slang::Controller::Instance().phase(Slang::Controller::Phase::Execution);
  H::thread = Slang::Controller::Instance().threads()->createThread();
  return true;
}
// programs that use a literal of type T
static const unsigned kForms = 5;
static std::string use(unsigned form, const char *type, const std::string &lit) {
  std::string t = type;
  switch (form) {
  case 0: return "public " + t + " f() { return " + lit + "; }\n";
  case 1: return "public " + t + " f() { " + t + " v = " + lit + "; return v; }\n";
  case 2: return "public " + t + " g(" + t + " v) { return v; }\npublic " + t + " f() { return g(" + lit + "); }\n";
  case 3: return "public " + t + " g(" + t + " v = " + lit + ") { return v; }\npublic " + t + " f() { return g(); }\n";
  default: return "public object O { public " + t + " m = " + lit + "; }\npublic " + t + " f() { O o = new O(); return o.m; }\n";
  }
}
static void check(unsigned form, const std::string &lit, const V &want, const char *what) {
  bool ok = loadHere(use(form, kName[want.t], lit));
  sx_assert(ok, what);
  same(H::call("f"), want, what);
}
static std::string digits(unsigned n, int64_t &value, const char *name = "d") {
  std::string s;
  value = 0;
  for (unsigned k = 0; k < n; ++k) {
    uint8_t c = sx_u8((name + std::to_string(k)).c_str());
    sx_assume(c >= '0' && c <= '9');
    s += (char)c;
    value = value * 10 + (c - '0');
  }
  return s;
}

// ---------------------------------------------------------------- integers
SX_CASE_SETUP(integers, empty) {
  int64_t v;
  unsigned form = sx_choose("form", kForms), n = 1 + sx_choose("digits", 4), minus = form == 3 || form == 4 ? 0 : sx_choose("minus", 3), suffix = sx_choose("suffix", 2);
  std::string lit = digits(n, v);
  if (suffix) lit += 'i';
  if (minus) lit = (minus == 1 ? "-" : "- ") + lit;
  check(form, lit, ofI(I32, minus ? -v : v), "integer literal");
}
// around the ends of int and int64
SX_CASE_SETUP(large_integers, empty) {
  static const char *heads[] = {"214748364", "214748365", "429496729", "999999999", "922337203685477580", "922337203685477581", "999999999999999999", "9223372036854775807", "0000000000000000000000"};
  unsigned h = sx_choose("head", 9);
  uint8_t c = sx_u8("d");
  sx_assume(c >= '0' && c <= '9');
  std::string lit = std::string(heads[h]) + (char)c;
  bool small = (h == 0 && c <= '7') || h == 8, fits = h < 4 || (h == 4 && c <= '7') || h == 8;
  int64_t v = 0;
  if (fits) v = (int64_t)((h == 8 ? 0 : strtoull(heads[h], nullptr, 10)) * 10 + (c - '0'));
  bool ok = loadHere("public int t(int v) { return 32; }\npublic int t(int64 v) { return 64; }\npublic int kind() { return t(" + lit + "); }\npublic int64 f() { int64 v = " + lit + "; return v; }\n");
  sx_observe(ok);
  sx_assert(ok == fits, ok ? "a literal that fits no type is accepted" : "a literal is rejected");
  if (!ok) {
    sx_reach("rejected");
    return;
  }
  sx_assert(H::call("kind").i() == (small ? 32 : 64), "type of an integer literal");
  same(H::call("f"), ofI(I64, v), "large integer literal");
}

// ---------------------------------------------------------------- floating point
template <unsigned Before, unsigned After> static void fp() {
  int64_t a, b = 0;
  bool dbl = sx_choose("double", 2);
  unsigned form = sx_choose("form", kForms);
  std::string lit = digits(Before, a, "a");
  int64_t scale = 1;
  if (After) {
    lit += '.';
    if (After > 1) lit += std::string(After - 1, '0'), scale *= After == 2 ? 10 : 100;
    lit += digits(1, b, "b");
    scale *= 10;
  }
  lit += dbl ? 'd' : 'f';
  int64_t all = a * scale + b;
  check(form, lit, dbl ? ofD((double)all / (double)scale) : ofF((float)all / (float)scale), "floating point literal");
}
SX_CASE_SETUP(fp_1, empty) { fp<1, 0>(); }
SX_CASE_SETUP(fp_2, empty) { fp<2, 0>(); }
SX_CASE_SETUP(fp_1_1, empty) { fp<1, 1>(); }
SX_CASE_SETUP(fp_1_2, empty) { fp<1, 2>(); }
SX_CASE_SETUP(fp_1_3, empty) { fp<1, 3>(); }

// ---------------------------------------------------------------- text and bool
template <unsigned Max> static void text() {
  unsigned n = sx_choose("len", Max + 1), form = sx_choose("form", kForms);
  std::string lit = "\"", want;
  bool escaped = false;
  for (unsigned k = 0; k < n; ++k) {
    uint8_t c = sx_u8(("c" + std::to_string(k)).c_str());
    sx_assume(c >= 32 && c < 127);
    sx_assume(escaped || c != '"');
    lit += (char)c;
    if (!escaped && c == '\\') escaped = true;
    else {
      want += (char)c;
      escaped = false;
    }
  }
  sx_assume(!escaped);
  check(form, lit + "\"", ofS(want), "text literal");
}
SX_CASE_SETUP(text_4, empty) { text<4>(); }
SX_CASE_SETUP(T_text_6, empty) { text<6>(); }
SX_CASE_SETUP(truth, empty) {
  bool b = sx_choose("value", 2);
  check(sx_choose("form", kForms), b ? "true" : "false", ofB(b), "bool literal");
}
// the words next to the literals are no literals
SX_CASE_SETUP(no_literals, empty) {
  static const char *lits[] = {"truex", "False", "TRUE", "12a", "1f2", "1.5", "1.5i", "0x10", "'a'", "1..5f", "1.f5", "5dd", "5l", ".5f", "1e3", "1 2", "\"a\" \"b\"", "1_0"};
  unsigned k = sx_choose("literal", sizeof(lits) / sizeof(*lits));
  bool ok = loadHere(std::string("public void f() { string s = \"\" + ") + lits[k] + "; }\n");
  sx_observe(ok);
  sx_assert(!ok, (std::string("accepted as literal: ") + lits[k]).c_str());
}

// ---------------------------------------------------------------- through text and back
static void tripSetup() {
  std::string s;
  for (unsigned t = B; t < S; ++t)
    s += std::string("public ") + kName[t] + " t" + kName[t] + "(" + kName[t] + " v) { string s = string v; " + (t == B ? "return bool s; }\n" : std::string("return ") + kName[t] + " s; }\n");
  s += "public string ts(string s) { int64 v = int64 s; return string v; }\n";
  H::load(s);
}
SX_CASE_SETUP(trip_small, tripSetup) {
  T t = (T)(I16 + sx_choose("type", 3));
  V x = sym(t, "x");
  sx_assume(x.i >= -40 && x.i <= 120);
  same(H::call(std::string("t") + kName[t], {arg(x)}), x, "a number through text");
}
SX_CASE_SETUP(trip_listed, tripSetup) {
  T t = (T)(I16 + sx_choose("type", 5));
  auto all = texts(t);
  auto &e = all[sx_choose("value", all.size())];
  same(H::call(std::string("t") + kName[t], {arg(e.v)}), e.v, "a number through text");
}
// every power of two and its neighbours
SX_CASE_SETUP(trip_powers, tripSetup) {
  T t = (T)(I16 + sx_choose("type", 3));
  unsigned bit = sx_choose("bit", t == I16 ? 15 : t == I32 ? 31 : 63), near = sx_choose("near", 3), neg = sx_choose("negative", 2);
  int64_t v = (int64_t)(1ull << bit) + (int64_t)near - 1;
  if (t == I16 && v > 32767) v = 32767;
  if (t == I32 && v > INT32_MAX) v = INT32_MAX;
  V x = ofI(t, neg ? -v : v);
  same(H::call(std::string("t") + kName[t], {arg(x)}), x, "a number through text");
}
// fractions of up to six decimals: n / 64
SX_CASE_SETUP(trip_fractions, tripSetup) {
  T t = sx_choose("double", 2) ? D : F;
  unsigned n = sx_choose("n", 130), neg = sx_choose("negative", 2);
  double d = (double)n / 64 * (neg ? -1 : 1);
  V x = t == D ? ofD(d) : ofF((float)d);
  if (d == 0) x = t == D ? ofD(0) : ofF(0);
  same(H::call(std::string("t") + kName[t], {arg(x)}), x, "a fraction through text");
}
// text of a number through the number (no leading zeros or sign)
SX_CASE_SETUP(trip_text, tripSetup) {
  int64_t v;
  unsigned n = 1 + sx_choose("digits", 2);
  std::string s = digits(n, v);
  sx_assume(n == 1 || s[0] != '0');
  same(H::call("ts", {H::arg(s)}), ofS(s), "text of a number through the number");
}
