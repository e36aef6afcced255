// Operators of user defined classes: selection, order, results, compound assignments, conversions.
#include "vm.h"
#include <functional>
using namespace H;

static void empty() {
  newVM();
  vm->init();
}
static bool loadHere(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  try {
    vm->createScriptFromString(src);
  } catch (std::exception &e) {
    if (getenv("DUMP")) fprintf(stderr, "rejected: %s\n", e.what());
    return false;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  return true;
}
static std::vector<int32_t> want;
static void expect(const char *what) {
  if (getenv("DUMP"))
    for (size_t i = 0; i < trace.size() || i < want.size(); ++i)
      fprintf(stderr, "%zu: %d %d\n", i, i < trace.size() ? (int)trace[i].val : -1, i < want.size() ? want[i] : -1);
  sx_assert(trace.size() == want.size(), what);
  for (size_t i = 0; i < want.size(); ++i) sx_assert_eq(trace[i].val, (uint64_t)(int64_t)want[i], what);
}
static std::string n(int i) { return std::to_string(i); }

// every operator records which one it is and its operands, and returns left * k - right
static const char *kOp[] = {"+", "-", "*", "/", "%", "&", "|", "<<", ">>"};
static const unsigned kOps = 9;
static const char *kCompare[] = {"<", "<=", ">", ">=", "==", "!="};
static bool tight(unsigned op) { return op >= 2 && op <= 4; }
static const int kInt = 50; // operator+(int)
static int32_t result(unsigned op, int32_t l, int32_t r) { return (int32_t)((uint32_t)l * (op + 2) - (uint32_t)r); }
// programs with long expressions only have the operators they use, and +
static unsigned given = ~0u;
static std::string classes() {
  std::string s = "public object V {\n  public int n;\n  public void Constructor(int x) { n = x; }\n";
  for (unsigned o = 0; o < kOps; ++o)
    if (given >> o & 1) s += std::string("  public V operator") + kOp[o] + "(V o const) { emit(" + n(100 + o) + "); emit(n); emit(o.n); return new V(n * " + n(o + 2) + " - o.n); }\n";
  s += "  public V operator+(int o) { emit(" + n(100 + kInt) + "); emit(n); emit(o); return new V(n * " + n(kInt + 2) + " - o); }\n";
  if (given >> 30 & 1)
    for (unsigned o = 0; o < 5; ++o) s += std::string("  public bool operator") + kCompare[o] + "(V o const) { emit(" + n(200 + o) + "); return n " + kCompare[o] + " o.n; }\n";
  if (given >> 31) s += "  public int operator[](int i) { emit(300); return n * 3 + i; }\n"
       "  public void operator++() modify { emit(301); n = n + 1; }\n"
       "  public void operator--() modify { emit(302); n = n - 1; }\n"
       "  public V operator=(int x) modify { emit(303); n = x; return this; }\n";
  s += "  public V get() const { return new V(n); }\n}\n"
       + std::string(given & 2 ? "public object W extends V { public void Constructor(int x) { n = x; } public V operator-(V o const) { emit(400); emit(n); emit(o.n); return new V(n - o.n); } }\n" : "") +
       "public V mk(int x) { emit(500); emit(x); return new V(x); }\n";
  return s;
}
// places for a value: a variable, a member, a member of a member, a result, a new object, the result of a method, a number
enum Kind { Local, Member, Deep, Call, New, Method, Number, Kinds };
static std::string holder() {
  return "public object H { public V c; public H inner; public void Constructor(int x) { c = new V(x); } }\n"
         "public H hold(int x) { H h = new H(0); h.inner = new H(x); h.c.n = 77; return h; }\n";
}
static std::string declare(unsigned kind, unsigned i) {
  std::string x = "x" + n(i);
  switch (kind) {
    case Local: case Method: return "V v" + n(i) + " = new V(" + x + "); ";
    case Member: return "H h" + n(i) + " = new H(" + x + "); ";
    case Deep: return "H h" + n(i) + " = hold(" + x + "); ";
    default: return "";
  }
}
static std::string use(unsigned kind, unsigned i) {
  switch (kind) {
    case Local: return "v" + n(i);
    case Member: return "h" + n(i) + ".c";
    case Deep: return "h" + n(i) + ".inner.c";
    case Call: return "mk(x" + n(i) + ")";
    case New: return "new V(x" + n(i) + ")";
    case Method: return "v" + n(i) + ".get()";
    default: return "x" + n(i);
  }
}
// ---------------------------------------------------------------- expressions
struct Operand {
  unsigned kind;
  int32_t v;
};
static int32_t value(const Operand &o) {
  if (o.kind == Call) want.push_back(500), want.push_back(o.v);
  return o.v;
}
static int32_t apply(unsigned op, int32_t l, int32_t r, bool number) {
  if (number) op = kInt; // only + accepts a number
  want.push_back(100 + (int32_t)op);
  want.push_back(l);
  want.push_back(r);
  return result(op, l, r);
}
enum Context { Declared, Assigned, Argument, Returned_, ToMember, Contexts };
static std::string in(unsigned context, const std::string &e) {
  switch (context) {
    case Declared: return "V r = " + e + "; emit(r.n);";
    case Assigned: return "V r; r = " + e + "; emit(r.n);";
    case Argument: return "show(" + e + ");";
    case Returned_: return "return " + e + ";";
    default: return "H t = new H(1); t.c = " + e + "; emit(t.c.n);";
  }
}
static void finish(unsigned context, const std::string &decl, const std::string &e, const std::vector<Operand> &o, const char *what) {
  std::string params, args;
  for (size_t i = 0; i < o.size(); ++i) params += (i ? ", int x" : "int x") + n((int)i), args += (i ? ", x" : "x") + n((int)i);
  std::string src = classes() + holder() + "public void show(V v) { emit(v.n); }\n";
  bool ret = context == Returned_;
  src += std::string("public ") + (ret ? "V" : "void") + " f(" + params + ") modify { " + decl + in(context, e) + " }\n";
  src += "public void run(" + params + ") modify { " + (ret ? "V r = f(" + args + "); emit(r.n);" : "f(" + args + ");") + " }\n";
  bool ok = loadHere(src);
  sx_assert(ok, "an expression of user defined operators is rejected");
  if (!ok) return;
  trace.clear();
  ParameterList list;
  for (auto &x : o) list.push_back(arg(x.v));
  auto r = call("run", list);
  sx_assert(r.out == Returned, "an expression of user defined operators fails");
  expect(what);
  sx_reach("value");
}
SX_CASE_SETUP(binary, empty) {
  unsigned op = sx_choose("op", kOps), l = sx_choose("left", Number), r = sx_choose("right", op == 0 ? Kinds : Number), context = sx_choose("context", Contexts);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::vector<Operand> o = {{l, a}, {r, b}};
  want.clear();
  int32_t x = value(o[0]), y = value(o[1]);
  want.push_back(apply(op, x, y, r == Number));
  finish(context, declare(l, 0) + declare(r, 1), use(l, 0) + " " + kOp[op] + " " + use(r, 1), o, "operator with two operands");
}
// operands o0 p o1 q o2 with every grouping
static void chain(unsigned kinds, unsigned contexts) {
  unsigned p = sx_choose("p", kOps), q = sx_choose("q", kOps), group = sx_choose("group", 3), pos = sx_choose("position", 3), kind = sx_choose("kind", kinds);
  unsigned context = contexts == 1 ? (p + q + group + pos) % Contexts : sx_choose("context", contexts);
  given = 1u << p | 1u << q | 1;
  int32_t a = sx_i32("a"), b = sx_i32("b"), c = sx_i32("c");
  std::vector<Operand> o = {{Local, a}, {Local, b}, {Local, c}};
  o[pos].kind = kind;
  if (kind == Number) { // the operand right of a +
    if (pos == 0 || (pos == 1 && (p != 0 || group == 2 || (!group && tight(q) && !tight(p)))) || (pos == 2 && q != 0)) {
      sx_assume(false);
      return;
    }
  }
  std::string s[3], d;
  for (unsigned i = 0; i < 3; ++i) s[i] = use(o[i].kind, i), d += declare(o[i].kind, i);
  std::string e;
  bool right;
  if (group == 0) {
    e = s[0] + " " + kOp[p] + " " + s[1] + " " + kOp[q] + " " + s[2];
    right = tight(q) && !tight(p);
  } else if (group == 1) {
    e = "(" + s[0] + " " + kOp[p] + " " + s[1] + ") " + kOp[q] + " " + s[2];
    right = false;
  } else {
    e = s[0] + " " + kOp[p] + " (" + s[1] + " " + kOp[q] + " " + s[2] + ")";
    right = true;
  }
  want.clear();
  int32_t r;
  if (right) {
    int32_t x = value(o[0]), y = value(o[1]), z = value(o[2]);
    int32_t t = apply(q, y, z, o[2].kind == Number);
    r = apply(p, x, t, false);
  } else {
    int32_t x = value(o[0]), y = value(o[1]);
    int32_t t = apply(p, x, y, o[1].kind == Number);
    int32_t z = value(o[2]);
    r = apply(q, t, z, o[2].kind == Number);
  }
  want.push_back(r);
  finish(context, d, e, o, "chain of operators");
}
SX_CASE_SETUP(chains, empty) { chain(Kinds, 1); }
SX_CASE_SETUP(T_chains_everywhere, empty) { chain(Kinds, Contexts); }
// four operands: five groupings and none
static void longChain(const std::vector<unsigned> &set) {
  unsigned count = (unsigned)set.size();
  unsigned ops[3] = {set[sx_choose("p", count)], set[sx_choose("q", count)], set[sx_choose("r", count)]}, group = sx_choose("group", 6);
  given = 1u << ops[0] | 1u << ops[1] | 1u << ops[2] | 1;
  std::vector<Operand> o;
  int32_t v[4] = {sx_i32("a"), sx_i32("b"), sx_i32("c"), sx_i32("d")};
  std::string decl;
  for (unsigned i = 0; i < 4; ++i) o.push_back({Local, v[i]}), decl += declare(Local, i);
  static const char *kForm[] = {"0p1q2r3", "((0p1)q2)r3", "(0p(1q2))r3", "(0p1)q(2r3)", "0p((1q2)r3)", "0p(1q(2r3))"};
  std::string e;
  for (const char *c = kForm[group]; *c; ++c)
    if (*c >= '0' && *c <= '3') e += "v" + n(*c - '0');
    else if (*c >= 'p' && *c <= 'r') e += std::string(" ") + kOp[ops[*c - 'p']] + " ";
    else e += *c;
  // recursive evaluation of the form
  want.clear();
  const char *c = kForm[group];
  std::function<int32_t(unsigned)> sum;
  auto primary = [&]() -> int32_t {
    if (*c == '(') {
      ++c;
      int32_t r = sum(0);
      ++c;
      return r;
    }
    return v[*c++ - '0'];
  };
  sum = [&](unsigned level) -> int32_t {
    int32_t l = level ? primary() : sum(1);
    while (*c >= 'p' && *c <= 'r' && tight(ops[*c - 'p']) == (level == 1)) {
      unsigned op = ops[*c++ - 'p'];
      int32_t r = level ? primary() : sum(1);
      l = apply(op, l, r, false);
    }
    return l;
  };
  want.push_back(sum(0));
  finish(Declared, decl, e, o, "long chain of operators");
}
SX_CASE_SETUP(long_chains, empty) { longChain({1, 2, 3, 6}); }
SX_CASE_SETUP(T_long_chains, empty) { longChain({0, 1, 2, 3, 4, 5, 6, 7, 8}); }

// ---------------------------------------------------------------- statements
static void run(const std::string &decls, const std::string &body, int32_t a, int32_t b, const char *what) {
  bool ok = loadHere(classes() + holder() + decls + "public void run(int x0, int x1) modify throws { " + body + " }\n");
  sx_assert(ok, "a statement with user defined operators is rejected");
  if (!ok) return;
  trace.clear();
  auto r = call("run", {arg(a), arg(b)});
  sx_assert(r.out == Returned, "a statement with user defined operators fails");
  expect(what);
  sx_reach("statement");
}
// targets: local, member, member of a member, own member, own member through this
enum Target { TLocal, TMember, TDeep, TOwn, TThis, Targets };
static std::string place(unsigned t) {
  switch (t) {
    case TLocal: return "v0";
    case TMember: return "h0.c";
    case TDeep: return "h0.inner.c";
    case TOwn: return "c";
    default: return "this.c";
  }
}
// statement(s) on the target, another variable refers to the object that was there before
static void onTarget(unsigned t, const std::string &more, const std::string &text, int32_t a, int32_t b, const char *what) {
  std::string p = place(t);
  if (t < TOwn) {
    unsigned kind = t == TLocal ? Local : t == TMember ? Member : Deep;
    run("", declare(kind, 0) + "V before = " + p + "; " + more + text + " emit(" + p + ".n); emit(before.n);" + (t == TDeep ? " emit(h0.c.n);" : ""), a, b, what);
  } else {
    run("public object O { public V c; public void Constructor(int x) { c = new V(x); } public void go(int x1) modify { V before = c; " + more + text + " emit(c.n); emit(before.n); } }\n", "O o = new O(x0); o.go(x1); emit(o.c.n);", a, b, what);
  }
}
static void after(unsigned t, int32_t now, int32_t before) {
  want.push_back(now);
  want.push_back(before);
  if (t == TDeep) want.push_back(77);
  if (t >= TOwn) want.push_back(now);
}
SX_CASE_SETUP(compound, empty) {
  unsigned t = sx_choose("target", Targets), op = sx_choose("op", 7), kind = sx_choose("kind", op == 0 ? Kinds : Number), again = sx_choose("again", 4);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::string text = place(t) + " " + kOp[op] + "= " + use(kind, 1) + ";";
  want.clear();
  Operand o{kind, b};
  int32_t x = a;
  auto once = [&](unsigned k) { // operands before the operator
    int32_t y = value(o);
    x = apply(k, x, y, kind == Number);
  };
  once(op);
  if (again) {
    unsigned second = again == 1 ? op : (op + again) % 7;
    if (kind == Number) second = 0;
    text += " " + place(t) + " " + kOp[second] + "= " + use(kind, 1) + ";";
    once(second);
  }
  after(t, x, a);
  onTarget(t, declare(kind, 1), text, a, b, "compound assignment");
}
SX_CASE_SETUP(steps_and_values, empty) {
  unsigned t = sx_choose("target", Targets), first = sx_choose("first", 3), second = sx_choose("second", 4);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::string text;
  want.clear();
  int32_t x = a;
  for (unsigned k : {first, second}) {
    if (k == 0) text += place(t) + "++; ", want.push_back(301), x = (int32_t)((uint32_t)x + 1);
    if (k == 1) text += place(t) + "--; ", want.push_back(302), x = (int32_t)((uint32_t)x - 1);
    if (k == 2) text += place(t) + " = x1; ", want.push_back(303), x = b;
  }
  after(t, x, x); // the object itself is changed
  onTarget(t, "", text, a, b, "increment, decrement and assignment of a number");
}
SX_CASE_SETUP(elements, empty) {
  unsigned t = sx_choose("target", Targets), form = sx_choose("form", 4);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::string e = place(t) + "[x1]";
  static const char *kPre[] = {"emit(", "int i = ", "emit(1 + ", "emit(before[x1] - "}, *kPost[] = {");", "; emit(i);", ");", ");"};
  uint32_t v = (uint32_t)a * 3 + (uint32_t)b;
  want.clear();
  want.push_back(300);
  if (form == 3) want.push_back(300);
  want.push_back(form == 2 ? (int32_t)(v + 1) : form == 3 ? 0 : (int32_t)v);
  after(t, a, a);
  onTarget(t, "", kPre[form] + e + kPost[form], a, b, "element access");
}
SX_CASE_SETUP(comparisons, empty) {
  enum { If, IfElse, Variable, Return, Not, And, Or, While, CContexts };
  unsigned op = sx_choose("op", 6), l = sx_choose("left", Number), r = sx_choose("right", Number), context = sx_choose("context", CContexts);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  if (l != Local && r != Local && context > IfElse) { // both kinds at once in two contexts
    sx_assume(false);
    return;
  }
  given = 1 | 1u << 30;
  Operand o[2] = {{l, a}, {r, b}};
  std::string e = use(l, 0) + " " + kCompare[op] + " " + use(r, 1), decl = declare(l, 0) + declare(r, 1), body, decls;
  bool v = op == 0 ? a < b : op == 1 ? a <= b : op == 2 ? a > b : op == 3 ? a >= b : op == 4 ? a == b : a != b;
  want.clear();
  auto evaluate = [&] {
    value(o[0]);
    value(o[1]);
    want.push_back(op == 5 ? 204 : 200 + (int32_t)op);
  };
  bool value_ = v;
  switch (context) {
    case If: body = "if ( " + e + " ) { emit(1); }"; break;
    case IfElse: body = "if ( " + e + " ) { emit(1); } else { emit(2); }"; break;
    case Variable: body = "bool k = " + e + "; if ( k ) { emit(1); }"; break;
    case Return: decls = "public bool t(int x0, int x1) { " + decl + "return " + e + "; }\n"; decl = ""; body = "if ( t(x0, x1) ) { emit(1); }"; break;
    case Not: body = "if ( !(" + e + ") ) { emit(1); }"; value_ = !v; break;
    case And: body = "if ( (" + e + ") && (x0 != x1) ) { emit(1); }"; value_ = v && a != b; break;
    case Or: body = "if ( (" + e + ") || (x0 == x1) ) { emit(1); }"; value_ = v || a == b; break;
    case While: body = "while ( " + e + " ) { emit(1); break; }"; break;
  }
  evaluate();
  if (value_) want.push_back(1);
  else if (context == IfElse) want.push_back(2);
  run(decls, decl + body, a, b, "comparison");
}
// the class of the object on the left decides
SX_CASE_SETUP(overridden, empty) {
  unsigned form = sx_choose("form", 6), op = sx_choose("op", 2);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::string body = "W w = new W(x0); V v = w; V o = new V(x1); ";
  std::string s = op ? " - " : " * ";
  unsigned k = op ? 1 : 2;
  want.clear();
  auto derived = [&](int32_t l, int32_t r) {
    if (!op) return apply(k, l, r, false);
    want.push_back(400);
    want.push_back(l);
    want.push_back(r);
    return (int32_t)((uint32_t)l - (uint32_t)r);
  };
  int32_t r = 0;
  switch (form) {
    case 0: body += "V r = v" + s + "o; emit(r.n);"; r = derived(a, b); break;
    case 1: body += "V r = v" + s + "o" + s + "o; emit(r.n);"; r = derived(a, b); r = apply(k, r, b, false); break;
    case 2: body += "V r = o" + s + "v; emit(r.n);"; r = apply(k, b, a, false); break;
    case 3: body += "H h = new H(1); h.c = v; V r = h.c" + s + "o; emit(r.n);"; r = derived(a, b); break;
    case 4: body += "v" + std::string(op ? " -= " : " *= ") + "o; emit(v.n);"; r = derived(a, b); break;
    case 5: body += "V r = o" + s + "(v" + s + "o); emit(r.n);"; r = derived(a, b); r = apply(k, b, r, false); break;
  }
  want.push_back(r);
  run("", body, a, b, "operator of a derived class");
}
// objects given where an atomic value is wanted
SX_CASE_SETUP(conversions, empty) {
  static const char *kType[] = {"int", "bool", "string", "double", "float"};
  enum { CDeclared, CAssigned, CMember, CResult, CForms };
  unsigned t = sx_choose("type", 5), form = sx_choose("form", CForms), kind = sx_choose("kind", 6);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::string T = kType[t];
  static const char *kBody[] = {"return n + 1;", "return n > 3;", "if ( n > 3 ) { return \"big\"; } return \"small\";", "if ( n > 3 ) { return 1.5d; } return 0.5d;", "if ( n > 3 ) { return 1.5f; } return 0.5f;"};
  std::string c = "public object K { public int n; public void Constructor(int x) { n = x; } public K me() const { return this; }\n";
  for (unsigned i = 0; i < 5; ++i) c += std::string("  public ") + kType[i] + " =operator(" + kType[i] + " none) const { emit(" + n(600 + i) + "); " + kBody[i] + " }\n";
  c += "}\npublic object L extends K { public void Constructor(int x) { n = x; } }\npublic object S { public K k; public " + T + " t; }\npublic K mkk(int x) { return new K(x); }\n";
  std::string body = "K k = new K(x0); S s = new S(); s.k = k; L l = new L(x0); K w = l; ", e = kind == 4 ? "w" : kind == 5 ? "new K(x0)" :  kind == 0 ? "k" : kind == 1 ? "s.k" : kind == 2 ? "mkk(x0)" : "k.me()";
  std::string var = "r";
  switch (form) {
    case CDeclared: body += T + " r = " + e + "; "; break;
    case CAssigned: body += T + " r; r = " + e + "; "; break;
    case CMember: body += "s.t = " + e + "; "; var = "s.t"; break;
    case CResult: body += T + " r = k; r = " + e + "; "; break;
  }
  want.clear();
  if (form == CResult) want.push_back(600 + (int32_t)t);
  want.push_back(600 + (int32_t)t);
  static const char *kShow[] = {"emit(@);", "if ( @ ) { emit(1); } else { emit(0); }", "if ( @ == \"big\" ) { emit(1); } if ( @ == \"small\" ) { emit(0); }", "if ( @ == 1.5d ) { emit(1); } if ( @ == 0.5d ) { emit(0); }", "if ( @ == 1.5f ) { emit(1); } if ( @ == 0.5f ) { emit(0); }"};
  for (const char *p = kShow[t]; *p; ++p)
    if (*p == '@') body += var;
    else body += *p;
  want.push_back(t == 0 ? (int32_t)((uint32_t)a + 1) : a > 3 ? 1 : 0);
  run(c, body, a, b, "conversion of an object to an atomic value");
}
// an operator that fails: the exception arrives, nothing is assigned
SX_CASE_SETUP(failing, empty) {
  unsigned form = sx_choose("form", 6), where = sx_choose("where", 3);
  int32_t a = sx_i32("a"), b = sx_i32("b");
  std::string c = "public object X { public int n; public void Constructor(int x) { n = x; } public X operator+(X o const) throws { emit(700); if ( o.n > n ) { throw o.n; } return new X(n + o.n); }\n"
                  "  public bool operator<(X o const) throws { emit(701); if ( o.n > n ) { throw o.n; } return true; } }\npublic object XH { public X c; }\n";
  std::string body = "X p = new X(x0); X q = new X(x1); X r = new X(5); XH h = new XH(); h.c = p; ";
  std::string l = where == 1 ? "h.c" : "p", st;
  bool fails = b > a;
  want.clear();
  int32_t r = 5, pn = a;
  bool done = !fails;
  uint32_t ua = (uint32_t)a, ub = (uint32_t)b;
  want.push_back(form == 3 ? 701 : 700);
  switch (form) {
    case 0: st = "r = " + l + " + q;"; if (!fails) r = (int32_t)(ua + ub); break;
    case 1: st = l + " += q;"; if (!fails) pn = (int32_t)(ua + ub); break;
    case 2: st = "r = " + l + " + q + r;"; // r.n is 5
      if (!fails) {
        want.push_back(700);
        int32_t sum = (int32_t)(ua + ub);
        if (5 > sum) done = false;
        else r = (int32_t)((uint32_t)sum + 5);
      }
      break;
    case 3: st = "if ( " + l + " < q ) { r.n = 6; }"; if (!fails) r = 6; break;
    case 4: st = "X s = " + l + " + q; r = s;"; if (!fails) r = (int32_t)(ua + ub); break;
    case 5: st = "r.n = (" + l + " + q).n;"; if (!fails) r = (int32_t)(ua + ub); break;
  }
  if (where == 2) st = "while ( true ) { " + st + " break; }";
  body += "try { " + st + " emit(1); } catch ( int e ) { emit(2); emit(e); } emit(r.n); emit(p.n); emit(h.c.n);";
  if (done) want.push_back(1);
  else {
    want.push_back(2);
    want.push_back(fails ? b : 5);
  }
  want.push_back(r);
  bool onMember = form == 1 && where == 1;
  want.push_back(onMember ? a : pn);
  want.push_back(onMember ? pn : a);
  run(c, body, a, b, "operator that throws");
}
