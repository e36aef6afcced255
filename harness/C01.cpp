// C01: integer arithmetic of scripts, for all operand values.
#include "vm.h"
using namespace H;

// One script method per operator and type; `run` executes it.
static const char *kOps[] = {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!="};
static const char *kNames[] = {"add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge", "eq", "ne"};

static std::string program(const std::string &T) {
  std::string s;
  for (int i = 0; i < 11; ++i) {
    std::string ret = i < 5 ? T : "bool";
    s += "public " + ret + " " + kNames[i] + "(" + T + " a, " + T + " b) { return a " + kOps[i] + " b; }\n";
  }
  const char *cop[] = {"+=", "-=", "*=", "/=", "%="};
  for (int i = 0; i < 5; ++i)
    s += "public " + T + " c" + kNames[i] + "(" + T + " a, " + T + " b) { " + T + " x = a; x " + cop[i] + " b; return x; }\n";
  s += "public " + T + " neg(" + T + " a) { return -a; }\n";
  s += "public " + T + " inc(" + T + " a) { " + T + " x = a; x++; return x; }\n";
  s += "public " + T + " dec(" + T + " a) { " + T + " x = a; x--; return x; }\n";
  // chains: intermediate results are of the operand type as well
  s += "public " + T + " chain(" + T + " a, " + T + " b, " + T + " c) { return a + b - c; }\n";
  s += "public " + T + " chain2(" + T + " a, " + T + " b, " + T + " c) { return (a - b) * c; }\n";
  s += "public bool cmpsum(" + T + " a, " + T + " b, " + T + " c) { return a + b < c; }\n";
  s += "public " + T + " locals(" + T + " a, " + T + " b) { " + T + " x = a; " + T + " y = b; x = x + y; y = x - y; x = x - y; return x + x + y; }\n";
  return s;
}

template <class T> static const char *nameOf();
template <> const char *nameOf<int16_t>() { return "int16"; }
template <> const char *nameOf<int32_t>() { return "int"; }
template <> const char *nameOf<int64_t>() { return "int64"; }
template <class T> static T sym(const char *n);
template <> int16_t sym<int16_t>(const char *n) { return sx_i16(n); }
template <> int32_t sym<int32_t>(const char *n) { return sx_i32(n); }
template <> int64_t sym<int64_t>(const char *n) { return sx_i64(n); }

template <class T> static void setup() { load(program(nameOf<T>())); }

// reference: two's complement arithmetic of the width of T
template <class T> static T W(uint64_t v) { return (T)v; }

template <class T> static void check(const char *what, const Result &r, T want) {
  sx_assert(r.out == Returned, what);
  int64_t got = r.i();
  sx_observe((uint64_t)got);
  sx_assert_eq((uint64_t)got, (uint64_t)(int64_t)want, what);
}

template <class T> static void arithmetic() {
  T a = sym<T>("a"), b = sym<T>("b");
  unsigned op = sx_choose("op", 11), compound = op < 5 ? sx_choose("compound", 2) : 0;
  std::string m = kNames[op];
  if (compound) m = "c" + m;
  uint64_t ua = (uint64_t)(int64_t)a, ub = (uint64_t)(int64_t)b;
  if ((op == 3 || op == 4) && b == 0) {
    auto r = call(m, {arg(a), arg(b)});
    sx_reach("zero divisor");
    sx_assert(r.out == Native || r.out == Thrown, "division by zero must raise an error");
    return;
  }
  auto r = call(m, {arg(a), arg(b)});
  bool minus1 = b == (T)-1;
  switch (op) {
  case 0: check<T>("a + b", r, W<T>(ua + ub)); break;
  case 1: check<T>("a - b", r, W<T>(ua - ub)); break;
  case 2: check<T>("a * b", r, W<T>(ua * ub)); break;
  case 3: check<T>("a / b", r, minus1 ? W<T>(0 - ua) : (T)(a / b)); break;
  case 4: check<T>("a % b", r, minus1 ? (T)0 : (T)(a % b)); break;
  case 5: check<bool>("a < b", r, a < b); break;
  case 6: check<bool>("a <= b", r, a <= b); break;
  case 7: check<bool>("a > b", r, a > b); break;
  case 8: check<bool>("a >= b", r, a >= b); break;
  case 9: check<bool>("a == b", r, a == b); break;
  case 10: check<bool>("a != b", r, a != b); break;
  }
}
template <class T> static void unary() {
  T a = sym<T>("a");
  unsigned op = sx_choose("op", 3);
  const char *names[] = {"neg", "inc", "dec"};
  uint64_t ua = (uint64_t)(int64_t)a;
  uint64_t want[] = {0 - ua, ua + 1, ua - 1};
  check<T>(names[op], call(names[op], {arg(a)}), W<T>(want[op]));
}
template <class T> static void chains() {
  T a = sym<T>("a"), b = sym<T>("b"), c = sym<T>("c");
  uint64_t ua = (uint64_t)(int64_t)a, ub = (uint64_t)(int64_t)b, uc = (uint64_t)(int64_t)c;
  switch (sx_choose("op", 4)) {
  case 0: check<T>("a + b - c", call("chain", {arg(a), arg(b), arg(c)}), W<T>(ua + ub - uc)); break;
  case 1: check<T>("(a - b) * c", call("chain2", {arg(a), arg(b), arg(c)}), W<T>((ua - ub) * uc)); break;
  case 2: check<bool>("a + b < c", call("cmpsum", {arg(a), arg(b), arg(c)}), W<T>(ua + ub) < c); break;
  case 3: check<T>("swap of locals", call("locals", {arg(a), arg(b)}), W<T>(ub * 2 + ua)); break;
  }
}
SX_CASE_SETUP(arith16, setup<int16_t>) { arithmetic<int16_t>(); }
SX_CASE_SETUP(arith32, setup<int32_t>) { arithmetic<int32_t>(); }
SX_CASE_SETUP(arith64, setup<int64_t>) { arithmetic<int64_t>(); }
SX_CASE_SETUP(unary16, setup<int16_t>) { unary<int16_t>(); }
SX_CASE_SETUP(unary32, setup<int32_t>) { unary<int32_t>(); }
SX_CASE_SETUP(unary64, setup<int64_t>) { unary<int64_t>(); }
SX_CASE_SETUP(chains16, setup<int16_t>) { chains<int16_t>(); }
SX_CASE_SETUP(chains32, setup<int32_t>) { chains<int32_t>(); }
SX_CASE_SETUP(chains64, setup<int64_t>) { chains<int64_t>(); }

static void bitsSetup() {
  load("public int band(int a, int b) { return a & b; }\n"
       "public int bor(int a, int b) { return a | b; }\n");
}
SX_CASE_SETUP(bits32, bitsSetup) {
  int32_t a = sx_i32("a"), b = sx_i32("b");
  if (sx_choose("op", 2)) check<int32_t>("a | b", call("bor", {arg(a), arg(b)}), a | b);
  else check<int32_t>("a & b", call("band", {arg(a), arg(b)}), a & b);
}
