// Truth tables, evaluation order and short circuit of the boolean operators and of ?:
#include "vm.h"
#include <cctype>
#include <memory>

static std::string source;
static void loadAll() {
  source += R"(
public object Thing { public int mValue; public void Constructor(int v) { mValue = v; } }
public bool f(int k, bool v) { emit(k); return v; }
public int g(int k, int v) { emit(k); return v; }
public Thing thing(bool make) { if ( make ) { return new Thing(1); } Thing none; return none; }
)";
  if (getenv("DUMP")) puts(source.c_str());
  H::load(source);
}
// ---------------------------------------------------------------- operand types
static const char *kTypes[] = {"bool", "int16", "int", "int64", "float", "double", "string", "Thing"};
enum { TBool, TI16, TI32, TI64, TFloat, TDouble, TString, TThing, TCount };
static const char *kStrings[] = {"", "false", "FALSE", "  false ", " ", "true", "0", "falsey", "x"};
static const bool kStringTruth[] = {false, false, false, false, false, true, true, true, true};
struct Operand {
  Slang::Parameter param;
  bool truth;
};
static Operand operand(unsigned t, const std::string &n) {
  const char *name = n.c_str();
  switch (t) {
  case TBool: { bool v = sx_bool(name); return {H::arg(v), v}; }
  case TI16: { int16_t v = sx_i16(name); return {H::arg(v), v != 0}; }
  case TI32: { int32_t v = sx_i32(name); return {H::arg(v), v != 0}; }
  case TI64: { int64_t v = sx_i64(name); return {H::arg(v), v != 0}; }
  case TFloat: { float v = sx_f32(name); return {H::arg(v), v != 0.f}; }
  case TDouble: { double v = sx_f64(name); return {H::arg(v), v != 0.}; }
  case TString: { unsigned k = sx_choose(name, 9); return {H::arg(std::string(kStrings[k])), kStringTruth[k]}; }
  default: { bool v = sx_bool(name); return {H::arg(v), v}; }
  }
}
static std::string param(unsigned t, const char *n) { return std::string(t == TThing ? "bool" : kTypes[t]) + " " + n; }
static std::string use(unsigned t, const char *n) { return t == TThing ? "thing(" + std::string(n) + ")" : n; }
static const char *kOps[] = {"&&", "||", "!&", "!|"};
static bool apply(unsigned op, bool l, bool r) {
  switch (op) {
  case 0: return l && r;
  case 1: return l || r;
  case 2: return !(l && r);
  default: return !(l || r);
  }
}
static void tablesSetup() {
  for (unsigned op = 0; op < 4; ++op)
    for (unsigned l = 0; l < TCount; ++l)
      for (unsigned r = 0; r < TCount; ++r)
        source += "public bool t" + std::to_string(op) + std::to_string(l) + std::to_string(r) + "(" + param(l, "l") + ", " + param(r, "r") + ") { return " + use(l, "l") + " " + kOps[op] + " " + use(r, "r") + "; }\n";
  loadAll();
}
static void table(bool nor) {
  unsigned op = nor ? 3 : sx_choose("op", 4), lt = sx_choose("left_type", TCount), rt = sx_choose("right_type", TCount);
  Operand l = operand(lt, "l"), r = operand(rt, "r");
  sx_assume((op == 3 && !l.truth && r.truth) == nor);
  auto res = H::call("t" + std::to_string(op) + std::to_string(lt) + std::to_string(rt), {l.param, r.param});
  std::string msg = std::string(kTypes[lt]) + " " + kOps[op] + " " + kTypes[rt];
  sx_assert(res.out == H::Returned, msg.c_str());
  sx_assert_eq(res.b(), apply(op, l.truth, r.truth), nor ? "nor of a false and a true operand" : msg.c_str());
}
SX_CASE_SETUP(truth_tables, tablesSetup) { table(false); }
// false !| true: see known-findings.jsonl
SX_CASE_SETUP(nor_false_true, tablesSetup) { table(true); }

// ---------------------------------------------------------------- one operand: !, conditions
static void unarySetup() {
  for (unsigned t = 0; t < TCount; ++t) {
    std::string n = std::to_string(t), p = "(" + param(t, "x") + ")", u = use(t, "x");
    source += "public bool n" + n + p + " { if ( !" + u + " ) { return true; } return false; }\n";
    source += "public bool nn" + n + p + " { if ( !(!" + u + ") ) { return true; } return false; }\n";
    source += "public bool i" + n + p + " { if ( " + u + " ) { return true; } else { return false; } }\n";
    source += "public bool w" + n + p + " { while ( " + u + " ) { return true; } return false; }\n";
    source += "public bool o" + n + p + " { for ( int i = 0; " + u + "; i++ ) { return true; } return false; }\n";
    source += "public bool c" + n + p + " { return " + u + " ? true : false; }\n";
    source += "public bool b" + n + p + " { return true && " + u + "; }\n";
  }
  loadAll();
}
SX_CASE_SETUP(single_operand, unarySetup) {
  static const char *forms[] = {"n", "nn", "i", "w", "o", "c", "b"};
  unsigned form = sx_choose("form", 7), t = sx_choose("type", TCount);
  Operand x = operand(t, "x");
  auto res = H::call(forms[form] + std::to_string(t), {x.param});
  std::string msg = std::string("form ") + forms[form] + " of " + kTypes[t];
  sx_assert(res.out == H::Returned, msg.c_str());
  sx_assert_eq(res.b(), form == 0 ? !x.truth : x.truth, msg.c_str());
}
// text operands: all texts up to seven characters
SX_CASE_SETUP(text_operand, unarySetup) {
  unsigned len = sx_choose("length", 8);
  char buf[8] = {0};
  sx_bytes((unsigned char *)buf, len, "text");
  for (unsigned i = 0; i < len; ++i) sx_assume(buf[i] != 0);
  std::string text(buf, len);
  // reference: blank, a line break or "false" in any case, with or without surrounding blanks, is false
  std::string t;
  size_t b = 0, e = len;
  while (b < e && buf[b] == ' ') ++b;
  while (e > b && buf[e - 1] == ' ') --e;
  bool want = true;
  if (e == b) want = false;
  if (e - b == 1 && buf[b] == '\n') want = false;
  if (e - b == 5) {
    const char *w = "false";
    bool same = true;
    for (int i = 0; i < 5; ++i) same = same & ((buf[b + i] == w[i]) | (buf[b + i] == w[i] - 32));
    want = !same;
  }
  auto res = H::call("i6", {H::arg(text)});
  sx_assert(res.out == H::Returned, "text as condition");
  sx_assert_eq(res.b(), want, "truth of a text");
}

// ---------------------------------------------------------------- evaluation order
struct E {
  int op; // -1 leaf, 0..3 operator, 4 not, 5 ternary, 6 short ternary
  int leaf;
  std::vector<std::shared_ptr<E>> k;
};
using EP = std::shared_ptr<E>;
static std::vector<EP> exprs;
static EP leaf(int i) { return std::make_shared<E>(E{-1, i, {}}); }
static EP node(int op, std::vector<EP> k) { return std::make_shared<E>(E{op, 0, k}); }
static std::string show(const EP &e, bool top = true) {
  std::string s;
  switch (e->op) {
  case -1: return "f(" + std::to_string(e->leaf + 1) + ", x" + std::to_string(e->leaf) + ")";
  case 4: return "!(" + show(e->k[0]) + ")";
  case 5: s = "(" + show(e->k[0]) + ") ? (" + show(e->k[1]) + ") : (" + show(e->k[2]) + ")"; break;
  case 6: s = "(" + show(e->k[0]) + ") ?: (" + show(e->k[1]) + ")"; break;
  default: s = show(e->k[0], e->k[0]->op < 0 || e->k[0]->op > 3 ? false : true) + " " + kOps[e->op] + " " + show(e->k[1], false);
  }
  return top ? s : "(" + s + ")";
}
static bool undecided; // the known deviation of nor is involved
static bool eval(const EP &e, const bool *x, std::vector<int64_t> &tr) {
  switch (e->op) {
  case -1: tr.push_back(e->leaf + 1); return x[e->leaf];
  case 4: return !eval(e->k[0], x, tr);
  case 5: return eval(e->k[0], x, tr) ? eval(e->k[1], x, tr) : eval(e->k[2], x, tr);
  case 6: return eval(e->k[0], x, tr) ? true : eval(e->k[1], x, tr);
  }
  bool l = eval(e->k[0], x, tr);
  // the left operand decides: false for && and !&, true for || and !|
  bool decided = (e->op == 0 || e->op == 2) ? !l : l;
  if (decided) return apply(e->op, l, false);
  bool r = eval(e->k[1], x, tr);
  if (e->op == 3 && !l && r) undecided = true;
  return apply(e->op, l, r);
}
static void orderSetup() {
  exprs.clear();
  for (int a = 0; a < 4; ++a) {
    exprs.push_back(node(a, {leaf(0), leaf(1)}));
    exprs.push_back(node(4, {node(a, {leaf(0), leaf(1)})}));
    for (int b = 0; b < 4; ++b) {
      exprs.push_back(node(b, {node(a, {leaf(0), leaf(1)}), leaf(2)}));
      exprs.push_back(node(a, {leaf(0), node(b, {leaf(1), leaf(2)})}));
      exprs.push_back(node(a, {node(4, {leaf(0)}), node(4, {node(b, {leaf(1), leaf(2)})})}));
      for (int c = 0; c < 4; ++c) {
        exprs.push_back(node(b, {node(a, {leaf(0), leaf(1)}), node(c, {leaf(2), leaf(3)})}));
        exprs.push_back(node(c, {node(b, {node(a, {leaf(0), leaf(1)}), leaf(2)}), leaf(3)}));
      }
    }
    exprs.push_back(node(5, {node(a, {leaf(0), leaf(1)}), leaf(2), leaf(3)}));
    exprs.push_back(node(5, {leaf(0), node(a, {leaf(1), leaf(2)}), leaf(3)}));
    exprs.push_back(node(5, {leaf(0), leaf(1), node(a, {leaf(2), leaf(3)})}));
    exprs.push_back(node(6, {leaf(0), node(a, {leaf(1), leaf(2)})}));
    exprs.push_back(node(a, {node(6, {leaf(0), leaf(1)}), leaf(2)}));
  }
  exprs.push_back(node(5, {leaf(0), leaf(1), leaf(2)}));
  exprs.push_back(node(6, {leaf(0), leaf(1)}));
  exprs.push_back(node(5, {leaf(0), node(5, {leaf(1), leaf(2), leaf(3)}), leaf(4)}));
  exprs.push_back(node(5, {leaf(0), leaf(1), node(5, {leaf(2), leaf(3), leaf(4)})}));
  exprs.push_back(node(5, {node(5, {leaf(0), leaf(1), leaf(2)}), leaf(3), leaf(4)}));
  std::string ps = "(bool x0, bool x1, bool x2, bool x3, bool x4)";
  for (size_t i = 0; i < exprs.size(); ++i) {
    std::string n = std::to_string(i), e = show(exprs[i]);
    source += "public bool r" + n + ps + " { return " + e + "; }\n";
    source += "public bool v" + n + ps + " { bool v = " + e + "; return v; }\n";
    source += "public bool i" + n + ps + " { if ( " + e + " ) { return true; } return false; }\n";
    source += "public bool w" + n + ps + " { bool v = false; while ( !v && (" + e + ") ) { v = true; } return v; }\n";
    source += "public bool p" + n + ps + " { return f(9, " + e + "); }\n";
  }
  loadAll();
}
SX_CASE_SETUP(short_circuit, orderSetup) {
  static const char *forms[] = {"r", "v", "i", "w", "p"};
  unsigned form = sx_choose("form", 5), i = sx_choose("expression", (unsigned)exprs.size());
  bool x[5];
  Slang::ParameterList ps;
  for (int k = 0; k < 5; ++k) {
    x[k] = sx_bool(("x" + std::to_string(k)).c_str());
    ps.push_back(H::arg(x[k]));
  }
  auto r = H::call(forms[form] + std::to_string(i), ps);
  std::vector<int64_t> tr;
  undecided = false;
  bool want = eval(exprs[i], x, tr);
  if (undecided) return;
  if (form == 4) tr.push_back(9);
  std::string msg = std::string(forms[form]) + ": " + show(exprs[i]);
  sx_assert(r.out == H::Returned, msg.c_str());
  sx_assert_eq(r.b(), want, msg.c_str());
  H::expectTrace(tr, (msg + ": evaluation order").c_str());
}
// operands of all other operators and call arguments are evaluated once, left to right
static const char *kBin[] = {"+", "-", "*", "&", "|", "==", "!=", "<", "<=", ">", ">="};
static void binSetup() {
  for (int i = 0; i < 11; ++i) {
    std::string n = std::to_string(i), t = i < 5 ? "int" : "bool";
    source += "public " + t + " b" + n + "(int a, int b) { return g(1, a) " + kBin[i] + " g(2, b); }\n";
  }
  source += "public int take(int p, int q, int r) { emit(7); return p; }\n"
            "public int b11(int a, int b) { return take(g(1, a), g(2, b), g(3, a)); }\n"
            "public int b12(int a, int b) { Thing t = new Thing(g(1, a)); return t.mValue; }\n"
            "public int b13(int a, int b) { return (g(1, a) == g(2, b)) ? g(3, a) : g(4, b); }\n";
  loadAll();
}
SX_CASE_SETUP(operand_order, binSetup) {
  unsigned i = sx_choose("operator", 14);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  auto r = H::call("b" + std::to_string(i), {H::arg(a), H::arg(b)});
  std::string msg = i < 11 ? kBin[i] : "call arguments";
  sx_assert(r.out == H::Returned, msg.c_str());
  switch (i) {
  case 11: H::expectTrace({1, 2, 3, 7}, msg.c_str()); break;
  case 12: H::expectTrace({1}, msg.c_str()); break;
  case 13:
    H::expectTrace({1, 2, a == b ? 3 : 4}, msg.c_str());
    sx_assert_eq((uint32_t)r.i(), (uint32_t)(a == b ? a : b), msg.c_str());
    break;
  default: H::expectTrace({1, 2}, msg.c_str());
  }
}
