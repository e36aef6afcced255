// C04: operator precedence and associativity.  Every method of the generated
// programs computes one expression; the reference below parses the same text
// with the documented precedence levels and evaluates it on the same operands.
#include "vm.h"
#include <memory>
using namespace H;

// ---------------------------------------------------------------- reference
struct Op {
  const char *text;
  int level; // larger binds tighter
  char kind; // a: int,int->int  c: int,int->bool  e: T,T->bool  l: bool,bool->bool
};
static const Op kOps[] = {{"&&", 1, 'l'}, {"||", 1, 'l'}, {"<", 2, 'c'}, {"<=", 2, 'c'}, {">", 2, 'c'}, {">=", 2, 'c'}, {"==", 2, 'e'}, {"!=", 2, 'e'},
                          {"+", 3, 'a'}, {"-", 3, 'a'}, {"&", 3, 'a'}, {"|", 3, 'a'}, {"*", 4, 'a'}, {"/", 4, 'a'}, {"%", 4, 'a'}};
enum { AND, OR, LT, LE, GT, GE, EQ, NE, ADD, SUB, BAND, BOR, MUL, DIV, MOD, NOPS };

struct E {
  int op = -1;   // -1 leaf
  int leaf = 0;  // operand number
  bool isBool = false;
  char un = 0;   // '-' or '!' in front of the leaf
  std::shared_ptr<E> l, r;
};
typedef std::shared_ptr<E> EP;

// operands and operators in source order; open[i]/close[i]: parentheses around operand i
struct Text {
  std::vector<int> ops;
  std::vector<bool> isBool;
  std::vector<char> un;
  std::vector<int> open, close;
};

static EP leaf(const Text &t, size_t i) {
  EP e = std::make_shared<E>();
  e->leaf = (int)i;
  e->isBool = t.isBool[i];
  e->un = t.un[i];
  return e;
}
static EP parse(const Text &t, size_t from, size_t to, int strip);
// precedence climbing over operands [from,to)
static EP primary(const Text &t, size_t &pos, int skip) {
  int open = t.open[pos] - skip;
  if (open > 0) {
    size_t i = pos;
    int depth = 0;
    for (;; ++i) {
      depth += t.open[i];
      if (i == pos) depth -= skip;
      depth -= t.close[i];
      if (depth <= 0) break;
    }
    EP e = parse(t, pos, i + 1, 1);
    pos = i + 1;
    return e;
  }
  EP e = leaf(t, pos);
  ++pos;
  return e;
}
static EP climb(const Text &t, size_t &pos, size_t to, int level, int skip) {
  EP left = level > 4 ? primary(t, pos, skip) : climb(t, pos, to, level + 1, skip);
  if (level > 4) return left;
  while (pos < to && kOps[t.ops[pos - 1]].level == level) {
    EP n = std::make_shared<E>();
    n->op = t.ops[pos - 1];
    n->l = left;
    n->r = climb(t, pos, to, level + 1, 0);
    left = n;
  }
  return left;
}
static EP parse(const Text &t, size_t from, size_t to, int strip) {
  size_t pos = from;
  return climb(t, pos, to, 1, strip);
}
// result type, false if ill-typed
static bool typeOf(const EP &e, bool &isBool) {
  if (e->op < 0) {
    isBool = e->isBool;
    return !e->un || (e->un == '!') == isBool;
  }
  bool lb, rb;
  if (!typeOf(e->l, lb) || !typeOf(e->r, rb)) return false;
  switch (kOps[e->op].kind) {
  case 'a': isBool = false; return !lb && !rb;
  case 'c': isBool = true; return !lb && !rb;
  case 'e': isBool = true; return lb == rb;
  default: isBool = true; return lb && rb;
  }
}
static int32_t gI[5];
static bool gB[5];
static int32_t eval(const EP &e) {
  if (e->op < 0) {
    if (e->isBool) return e->un == '!' ? !gB[e->leaf] : gB[e->leaf];
    return e->un == '-' ? -gI[e->leaf] : gI[e->leaf];
  }
  if (e->op == AND) return eval(e->l) ? eval(e->r) : 0;
  if (e->op == OR) return eval(e->l) ? 1 : eval(e->r);
  int32_t a = eval(e->l), b = eval(e->r);
  switch (e->op) {
  case LT: return a < b;
  case LE: return a <= b;
  case GT: return a > b;
  case GE: return a >= b;
  case EQ: return a == b;
  case NE: return a != b;
  case ADD: return a + b;
  case SUB: return a - b;
  case BAND: return a & b;
  case BOR: return a | b;
  case MUL: return a * b;
  case DIV: sx_assume(b != 0); return b == -1 ? -a : a / b;
  case MOD: sx_assume(b != 0); return b == -1 ? 0 : a % b;
  }
  return 0;
}

// ---------------------------------------------------------------- programs
struct Item {
  EP tree;
  bool isBool;
  std::string text;
};
static std::vector<Item> items;
static std::string prog;

static void add(const Text &t) {
  EP e = parse(t, 0, t.isBool.size(), 0);
  bool b;
  if (!typeOf(e, b)) return;
  std::string s;
  for (size_t i = 0; i < t.isBool.size(); ++i) {
    if (i) s += std::string(" ") + kOps[t.ops[i - 1]].text + " ";
    s += std::string(t.open[i], '(');
    if (t.un[i]) s += t.un[i];
    s += t.isBool[i] ? "pqrst"[i] : "abcde"[i];
    s += std::string(t.close[i], ')');
  }
  prog += std::string("public ") + (b ? "bool" : "int") + " m" + std::to_string(items.size()) + "(int a, bool p, int b, bool q, int c, bool r, int d, bool s) { return " + s + "; }\n";
  items.push_back({e, b, s});
}
// all operand kinds for a given operator sequence
static void kinds(const std::vector<int> &ops, const std::vector<int> &open, const std::vector<int> &close, int unaryAt) {
  size_t n = ops.size() + 1;
  for (int mask = 0; mask < (1 << n); ++mask) {
    Text t;
    t.ops = ops;
    t.open = open;
    t.close = close;
    for (size_t i = 0; i < n; ++i) {
      t.isBool.push_back(mask >> i & 1);
      t.un.push_back((int)i == unaryAt ? (mask >> i & 1 ? '!' : '-') : 0);
    }
    add(t);
  }
}
static void go(unsigned part, unsigned parts) {
  // the operand values of the method chosen
  unsigned n = (unsigned)items.size(), per = (n + parts - 1) / parts;
  unsigned k = part * per + sx_choose("expression", part * per + per > n ? n - part * per : per);
  const char *in[] = {"a", "b", "c", "d"}, *bn[] = {"p", "q", "r", "s"};
  for (int i = 0; i < 4; ++i) {
    gI[i] = sx_i32(in[i]);
    gB[i] = sx_bool(bn[i]);
  }
  const Item &it = items[k];
  int32_t want = eval(it.tree);
  auto r = call("m" + std::to_string(k), {arg(gI[0]), arg(gB[0]), arg(gI[1]), arg(gB[1]), arg(gI[2]), arg(gB[2]), arg(gI[3]), arg(gB[3])});
  std::string msg = "value of " + it.text;
  sx_assert(r.out == Returned, msg.c_str());
  int32_t got = it.isBool ? (int32_t)r.b() : (int32_t)r.i();
  sx_observe((uint32_t)got);
  sx_assert_eq((uint32_t)got, (uint32_t)want, msg.c_str());
}

static std::vector<int> all() {
  std::vector<int> v;
  for (int i = 0; i < NOPS; ++i) v.push_back(i);
  return v;
}
static void setup2() {
  for (int x : all())
    for (int y : all()) kinds({x, y}, {0, 0, 0}, {0, 0, 0}, -1);
  if (getenv("DUMP")) fputs(prog.c_str(), stderr);
  load(prog);
}
static void setup2p() {
  for (int x : {AND, OR, LT, EQ, ADD, SUB, BAND, MUL, DIV, MOD})
    for (int y : {AND, OR, LT, EQ, ADD, SUB, BAND, MUL, DIV, MOD}) kinds({x, y}, {0, 1, 0}, {0, 0, 1}, -1);
  if (getenv("DUMP")) fputs(prog.c_str(), stderr);
  load(prog);
}
static void setup2u() {
  for (int x : {AND, OR, LT, NE, ADD, SUB, BAND, MUL, MOD})
    for (int y : {AND, OR, LT, NE, ADD, SUB, BAND, MUL, MOD})
      for (int at = 0; at < 3; ++at) kinds({x, y}, {0, 0, 0}, {0, 0, 0}, at);
  if (getenv("DUMP")) fputs(prog.c_str(), stderr);
  load(prog);
}
static void setup3() {
  for (int x : {AND, OR, LE, EQ, SUB, BOR, MUL})
    for (int y : {AND, OR, LE, EQ, SUB, BOR, MUL})
      for (int z : {AND, OR, LE, EQ, SUB, BOR, MUL}) kinds({x, y, z}, {0, 0, 0, 0}, {0, 0, 0, 0}, -1);
  if (getenv("DUMP")) fputs(prog.c_str(), stderr);
  load(prog);
}
static void setup3p() {
  for (int x : {AND, OR, GT, NE, ADD, SUB, MUL})
    for (int y : {AND, OR, GT, NE, ADD, SUB, MUL})
      for (int z : {AND, OR, GT, NE, ADD, SUB, MUL}) {
        kinds({x, y, z}, {1, 0, 1, 0}, {0, 1, 0, 1}, -1);
        kinds({x, y, z}, {0, 1, 0, 0}, {0, 0, 1, 0}, -1);
        kinds({x, y, z}, {0, 1, 1, 0}, {0, 0, 0, 2}, -1);
      }
  if (getenv("DUMP")) fputs(prog.c_str(), stderr);
  load(prog);
}
SX_CASE_SETUP(two_operators, setup2) { go(0, 1); }
SX_CASE_SETUP(parentheses, setup2p) { go(0, 1); }
SX_CASE_SETUP(unary_operators, setup2u) { go(0, 1); }
SX_CASE_SETUP(three_operators, setup3) { go(0, 1); }
SX_CASE_SETUP(three_operators_parentheses, setup3p) { go(0, 1); }
