// The operators of the built-in types: which operand types the type checker accepts, which result
// type it announces, and what the execution of an accepted operator yields.
#include "atomic.h"
using namespace A;

static const char *kArith[] = {"+", "-", "*", "/", "%"};
static const char *kCmp[] = {"<", "<=", ">", ">=", "==", "!="};
static const char *kBit[] = {"&", "|"};
static std::string source, what;

// ---------------------------------------------------------------- the type rules
// result type of `l op r`, Count when the combination is not an expression
static T arithType(unsigned op, T l, T r) {
  if (op == 0 && l == S) return S;
  if (!isNum(l) || !isNum(r)) return Count;
  if (op == 4 && (!isInt(l) || !isInt(r))) return Count;
  if (l == I16) return r;
  if (isInt(l)) return isFp(r) ? r : l;
  return l;
}
static bool comparable(unsigned op, T l, T r) {
  if (l == B || r == B) return l == r && op >= 4;
  if (l == S || r == S) return l == r;
  return l != I16 || r == I16;
}
static bool bitable(T l, T r) { return isInt(l) && l == r; }
static bool compoundable(unsigned op, T l, T r) { return arithType(op, l, r) != Count && !(l == I16 && isFp(r)); }

// ---------------------------------------------------------------- the value rules
template <class N> static bool integers(unsigned op, const V &l, const V &r, V &out) {
  N a = (N)l.i, b = (N)r.i;
  if (op >= 3 && b == 0) return false;
  bool minus1 = op >= 3 && b == -1;
  switch (op) {
  case 0: out.i = (N)(a + b); break;
  case 1: out.i = (N)(a - b); break;
  case 2: out.i = (N)(a * b); break;
  case 3: out.i = minus1 ? (N)(0 - a) : (N)(a / b); break;
  default: out.i = minus1 ? 0 : (N)(a % b);
  }
  return true;
}
// computed in the type of the left operand; false: an error is raised
static bool compute(unsigned op, const V &l, const V &right, V &out) {
  V r = conv(right, l.t);
  out.t = l.t;
  switch (l.t) {
  case F:
    out = ofF(op == 0 ? l.f + r.f : op == 1 ? l.f - r.f : op == 2 ? l.f * r.f : l.f / r.f);
    return true;
  case D:
    out = ofD(op == 0 ? l.d + r.d : op == 1 ? l.d - r.d : op == 2 ? l.d * r.d : l.d / r.d);
    return true;
  case I16: return integers<int16_t>(op, l, r, out);
  case I32: return integers<int32_t>(op, l, r, out);
  default: return integers<int64_t>(op, l, r, out);
  }
}
static bool cmp(unsigned op, const V &l, const V &right) {
  V r = right;
  if (l.t != r.t) r = conv(right, l.t);
  int lt, eq;
  switch (l.t) {
  case B: lt = l.b < r.b, eq = l.b == r.b; break;
  case F: lt = l.f < r.f, eq = l.f == r.f; break;
  case D: lt = l.d < r.d, eq = l.d == r.d; break;
  case S: lt = l.s < r.s, eq = l.s == r.s; break;
  default: lt = l.i < r.i, eq = l.i == r.i;
  }
  switch (op) {
  case 0: return lt;
  case 1: return lt || eq;
  case 2: return l.t == F ? l.f > r.f : l.t == D ? l.d > r.d : !lt && !eq;
  case 3: return l.t == F ? l.f >= r.f : l.t == D ? l.d >= r.d : !lt;
  case 4: return eq;
  default: return !eq;
  }
}

// ---------------------------------------------------------------- programs
static std::string id(const char *k, unsigned op, unsigned l, unsigned r) {
  return k + std::to_string(op) + std::to_string(l) + std::to_string(r);
}
static void add(const std::string &name, T ret, const std::string &params, const std::string &body) {
  source += std::string("public ") + kName[ret] + " " + name + "(" + params + ") { " + body + " }\n";
}
static std::string two(unsigned l, unsigned r) { return std::string(kName[l]) + " x, " + kName[r] + " y"; }
static void done() {
  if (getenv("DUMP")) puts(source.c_str());
  H::load(source);
}
// `t` reports the type an expression has for the type checker
static void tags() {
  for (unsigned t = 0; t < Count; ++t) add("t", I32, std::string(kName[t]) + " v", "return " + std::to_string(t) + ";");
}
static void numericSetup() {
  tags();
  for (unsigned l = I16; l <= D; ++l)
    for (unsigned r = I16; r <= D; ++r) {
      for (unsigned op = 0; op < 5; ++op) {
        T t = arithType(op, (T)l, (T)r);
        if (t == Count) continue;
        add(id("a", op, l, r), t, two(l, r), std::string("return x ") + kArith[op] + " y;");
        add(id("t", op, l, r), I32, two(l, r), std::string("return t(x ") + kArith[op] + " y);");
        if (compoundable(op, (T)l, (T)r)) add(id("c", op, l, r), (T)l, two(l, r), std::string("x ") + kArith[op] + "= y; return x;");
      }
      for (unsigned op = 0; op < 6; ++op)
        if (comparable(op, (T)l, (T)r)) {
          add(id("b", op, l, r), B, two(l, r), std::string("return x ") + kCmp[op] + " y;");
          add(id("i", op, l, r), B, two(l, r), std::string("if ( x ") + kCmp[op] + " y ) { return true; } return false;");
        }
    }
  done();
}

template <unsigned L, unsigned First, unsigned Last> static void arithmetic() {
  unsigned op = First + sx_choose("op", Last - First + 1);
  T r = (T)(I16 + sx_choose("right_type", 5)), t = arithType(op, (T)L, r);
  sx_assume(t != Count);
  unsigned form = sx_choose("form", 3);
  sx_assume(form != 2 || compoundable(op, (T)L, r));
  V x = sym((T)L, "x"), y = sym(r, "y"), want{I32};
  bool ok = compute(op, x, y, want);
  auto res = H::call(id(form == 0 ? "a" : form == 1 ? "t" : "c", op, L, r), {arg(x), arg(y)});
  what = std::string(kName[L]) + " " + kArith[op] + (form == 2 ? "= " : " ") + kName[r];
  if (!ok) {
    sx_reach("zero divisor");
    sx_assert(res.out == H::Native || res.out == H::Thrown, ("no error: " + what).c_str());
    return;
  }
  if (form == 1) return same(res, ofI(I32, t), ("type of " + what).c_str());
  want = conv(want, t);
  same(res, form == 2 ? conv(want, (T)L) : want, what.c_str()); // x op= y is x = x op y
}
#define ARITH(NAME, L) \
  SX_CASE_SETUP(add_##NAME, numericSetup) { arithmetic<L, 0, 1>(); } \
  SX_CASE_SETUP(mul_##NAME, numericSetup) { arithmetic<L, 2, 4>(); }
ARITH(int16, I16)
ARITH(int, I32)
ARITH(int64, I64)
ARITH(float, F)
ARITH(double, D)

SX_CASE_SETUP(compare, numericSetup) {
  unsigned op = sx_choose("op", 6);
  T l = (T)(I16 + sx_choose("left_type", 5)), r = (T)(I16 + sx_choose("right_type", 5));
  sx_assume(comparable(op, l, r));
  unsigned form = sx_choose("form", 2);
  V x = sym(l, "x"), y = sym(r, "y");
  bool want = cmp(op, x, y);
  what = std::string(kName[l]) + " " + kCmp[op] + " " + kName[r];
  same(H::call(id(form ? "i" : "b", op, l, r), {arg(x), arg(y)}), ofB(want), what.c_str());
}

// ---------------------------------------------------------------- bits, bool, text, one operand
static void othersSetup() {
  tags();
  for (unsigned t = I16; t <= I64; ++t)
    for (unsigned op = 0; op < 2; ++op) {
      add(id("a", op, t, t), (T)t, two(t, t), std::string("return x ") + kBit[op] + " y;");
      add(id("t", op, t, t), I32, two(t, t), std::string("return t(x ") + kBit[op] + " y);");
    }
  for (unsigned op = 4; op < 6; ++op) add(id("b", op, B, B), B, two(B, B), std::string("return x ") + kCmp[op] + " y;");
  for (unsigned op = 0; op < 6; ++op) add(id("s", op, S, S), B, two(S, S), std::string("return x ") + kCmp[op] + " y;");
  for (unsigned r = B; r < Count; ++r) {
    add(id("p", 0, S, r), S, two(S, r), "return x + y;");
    add(id("p", 1, S, r), S, two(S, r), "return x << y;");
    add(id("p", 2, S, r), S, two(S, r), "x += y; return x;");
    add(id("p", 3, S, r), I32, two(S, r), "return t(x + y);");
  }
  for (unsigned t = B; t < Count; ++t) {
    std::string p = std::string(kName[t]) + " x";
    add(id("u", 0, t, 0), B, p, "return !x;");
    add(id("u", 1, t, 0), I32, p, "return t(!x);");
    if (t == B || t == S) continue;
    add(id("u", 2, t, 0), (T)t, p, "return -x;");
    add(id("u", 3, t, 0), I32, p, "return t(-x);");
    add(id("u", 4, t, 0), (T)t, p, "return +x;");
    add(id("u", 5, t, 0), I32, p, "return t(+x);");
    add(id("u", 6, t, 0), (T)t, p, "x++; return x;");
    add(id("u", 7, t, 0), (T)t, p, "x--; return x;");
    add(id("u", 8, t, 0), (T)t, p, "return -x - -x;");
  }
  done();
}
SX_CASE_SETUP(bits, othersSetup) {
  unsigned op = sx_choose("op", 2), form = sx_choose("form", 2);
  T t = (T)(I16 + sx_choose("type", 3));
  V x = sym(t, "x"), y = sym(t, "y");
  what = std::string(kName[t]) + " " + kBit[op];
  auto res = H::call(id(form ? "t" : "a", op, t, t), {arg(x), arg(y)});
  if (form) return same(res, ofI(I32, t), ("type of " + what).c_str());
  same(res, ofI(t, op ? x.i | y.i : x.i & y.i), what.c_str());
}
SX_CASE_SETUP(bool_and_text_compare, othersSetup) {
  bool text = sx_choose("text", 2);
  unsigned op = text ? sx_choose("op", 6) : 4 + sx_choose("op", 2);
  T t = text ? S : B;
  V x = sym(t, "x"), y = sym(t, "y");
  what = std::string(kName[t]) + " " + kCmp[op];
  bool want = cmp(op, x, y);
  same(H::call(id(text ? "s" : "b", op, t, t), {arg(x), arg(y)}), ofB(want), what.c_str());
}
SX_CASE_SETUP(text_append, othersSetup) {
  unsigned form = sx_choose("form", 4);
  T r = (T)sx_choose("right_type", Count);
  V x = sym(S, "x"), y{S};
  std::string text;
  if (r == S) {
    y = sym(S, "y");
    text = y.s;
  } else {
    auto all = texts(r);
    auto &e = all[sx_choose("value", all.size())];
    y = e.v;
    text = e.text;
  }
  what = std::string("string + ") + kName[r];
  auto res = H::call(id("p", form, S, r), {arg(x), arg(y)});
  if (form == 3) return same(res, ofI(I32, S), ("type of " + what).c_str());
  same(res, ofS(x.s + text), what.c_str());
}
SX_CASE_SETUP(unary, othersSetup) {
  T t = (T)sx_choose("type", Count);
  unsigned op = sx_choose("op", 9);
  sx_assume(op < 2 || isNum(t));
  V x = t == S ? ofS(sx_choose("empty", 2) ? "" : "text") : sym(t, "x");
  static const char *names[] = {"!x", "type of !x", "-x", "type of -x", "+x", "type of +x", "x++", "x--", "-x - -x"};
  what = std::string(kName[t]) + ": " + names[op];
  auto res = H::call(id("u", op, t, 0), {arg(x)});
  V want = x, one = ofI(I32, 1);
  switch (op) {
  case 0: want = ofB(t == S ? x.s.empty() : !conv(x, B).b); break;
  case 1: want = ofI(I32, B); break;
  case 3: case 5: want = ofI(I32, t); break;
  case 2:
    if (t == F) want.f = -x.f;
    else if (t == D) want.d = -x.d;
    else want = ofI(t, (int64_t)(0 - (uint64_t)x.i));
    break;
  case 4: break;
  case 6: compute(0, x, one, want); break;
  case 7: compute(1, x, one, want); break;
  case 8:
    if (t == F) want.f = -x.f - -x.f;
    else if (t == D) want.d = -x.d - -x.d;
    else want = ofI(t, 0);
  }
  same(res, want, what.c_str());
}

// ---------------------------------------------------------------- three operands
// the type of an inner expression decides about the outer one
static void chainSetup() {
  for (unsigned l = I16; l <= D; ++l)
    for (unsigned m = I16; m <= D; ++m)
      for (unsigned r = I16; r <= D; ++r) {
        std::string p = std::string(kName[l]) + " x, " + kName[m] + " y, " + kName[r] + " z", n = std::to_string(l) + std::to_string(m) + std::to_string(r);
        T left = arithType(0, arithType(0, (T)l, (T)m), (T)r), right = arithType(0, (T)l, arithType(0, (T)m, (T)r));
        add("l" + n, left, p, "return (x - y) + z;");
        add("r" + n, right, p, "return x - (y + z);");
        T in = arithType(0, (T)l, (T)m);
        if (comparable(0, in, (T)r)) add("c" + n, B, p, "return (x + y) < z;");
      }
  done();
}
template <unsigned L> static void chain() {
  T m = (T)(I16 + sx_choose("middle_type", 5)), r = (T)(I16 + sx_choose("right_type", 5));
  unsigned form = sx_choose("form", 3);
  T in = arithType(0, (T)L, m);
  sx_assume(form != 2 || comparable(0, in, r));
  V x = sym((T)L, "x"), y = sym(m, "y"), z = sym(r, "z"), a{I32}, b{I32};
  what = std::string(kName[L]) + ", " + kName[m] + ", " + kName[r] + (form == 0 ? ": (x - y) + z" : form == 1 ? ": x - (y + z)" : ": (x + y) < z");
  auto name = std::string(form == 0 ? "l" : form == 1 ? "r" : "c") + std::to_string(L) + std::to_string(m) + std::to_string(r);
  V want{I32};
  if (form == 0) {
    compute(1, x, y, a);
    a = conv(a, in);
    compute(0, a, z, b);
    want = conv(b, arithType(0, in, r));
  } else if (form == 1) {
    compute(0, y, z, a);
    a = conv(a, arithType(0, m, r));
    compute(1, x, a, b);
    want = conv(b, arithType(0, (T)L, a.t));
  } else {
    compute(0, x, y, a);
    want = ofB(cmp(0, conv(a, in), z));
  }
  same(H::call(name, {arg(x), arg(y), arg(z)}), want, what.c_str());
}
SX_CASE_SETUP(chain_int16, chainSetup) { chain<I16>(); }
SX_CASE_SETUP(chain_int, chainSetup) { chain<I32>(); }
SX_CASE_SETUP(chain_int64, chainSetup) { chain<I64>(); }
SX_CASE_SETUP(chain_float, chainSetup) { chain<F>(); }
SX_CASE_SETUP(chain_double, chainSetup) { chain<D>(); }

// ---------------------------------------------------------------- what the checker rejects
static void rejected(const std::string &body, unsigned l, unsigned r) {
  bool ok = H::accepts("public void f(" + two(l, r) + ") { " + body + " }\npublic void Main(int argc, string argv) { }\n");
  sx_observe(ok);
  sx_assert(!ok, ("accepted for " + std::string(kName[l]) + " and " + kName[r] + ": " + body).c_str());
}
SX_CASE(rejected_expressions) {
  static const char *ops[] = {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&", "|", "<<", ">>", "~"};
  unsigned op = sx_choose("op", 16), l = sx_choose("left_type", Count), r = sx_choose("right_type", Count);
  bool ok = op < 5 ? arithType(op, (T)l, (T)r) != Count : op < 11 ? comparable(op - 5, (T)l, (T)r) : op < 13 ? bitable((T)l, (T)r) : op == 13 ? l == S : false;
  sx_assume(!ok);
  rejected(std::string("string s = \"\" + (x ") + ops[op] + " y);", l, r);
}
SX_CASE(rejected_assignments) {
  static const char *ops[] = {"+=", "-=", "*=", "/=", "%="};
  unsigned op = sx_choose("op", 5), l = sx_choose("left_type", Count), r = sx_choose("right_type", Count);
  sx_assume(!compoundable(op, (T)l, (T)r));
  rejected(std::string("x ") + ops[op] + " y;", l, r);
}
SX_CASE(rejected_unary) {
  static const char *bodies[] = {"string s = \"\" + (-x);", "string s = \"\" + (+x);", "x++;", "x--;"};
  unsigned k = sx_choose("body", 4), t = sx_choose("type", 2) ? S : B;
  rejected(bodies[k], t, t);
}
// results are returned only as the announced type
SX_CASE(rejected_results) {
  unsigned op = sx_choose("op", 3), l = I16 + sx_choose("left_type", 5), r = I16 + sx_choose("right_type", 5), t = sx_choose("type", Count);
  static const char *ops[] = {"+", "*", "=="};
  T is = op == 2 ? B : arithType(0, (T)l, (T)r);
  sx_assume(op != 2 || comparable(4, (T)l, (T)r));
  bool ok = H::accepts(std::string("public ") + kName[t] + " f(" + two(l, r) + ") { return x " + ops[op] + " y; }\npublic void Main(int argc, string argv) { }\n");
  sx_observe(ok);
  sx_assert(ok == (is == t), (std::string(kName[l]) + " " + ops[op] + " " + kName[r] + (ok ? " accepted" : " rejected") + " as result of type " + kName[t]).c_str());
}
