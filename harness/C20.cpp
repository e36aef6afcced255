// C20: a class with type parameters behaves like the same class written out for its arguments
#include "vm.h"
using namespace H;

static void empty() {
  newVM();
  vm->init();
}
static bool loadHere(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  try {
    vm->createScriptFromString(src);
  } catch (std::exception &e) {
    if (getenv("DUMP")) fprintf(stderr, "rejected: %s\n", e.what());
    return false;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  return true;
}

static std::string subst(std::string s, const std::string &what, const std::string &by) {
  size_t p = 0;
  while ((p = s.find(what, p)) != std::string::npos) {
    s.replace(p, what.size(), by);
    p += by.size();
  }
  return s;
}

struct Type {
  const char *name, *make;
};
static const Type TYPES[] = {{"int", "mki"}, {"string", "mks"}, {"double", "mkd"}, {"Item", "mko"}, {"bool", "mkb"}, {"int64", "mk64"}, {"float", "mkf"}};

// every type reports itself before its value, so that a wrongly chosen overload is seen
static const char *COMMON = R"(
public object Item {
	public int value;
	public void Constructor(int v) { value = v; }
	public bool operator==(Item o const) const { return value == o.value; }
	public Item operator+(Item o const) const { return new Item(value + o.value); }
	public int kind() const { return 1; }
}
public object Special extends Item {
	public void Constructor(int v) { base.Constructor(v); }
	public int kind() const { return 2; }
}
public interface Counted { public int count() const; }
public bool mkb(int n) { return n != 0; }
public int mki(int n) { return n; }
public int64 mk64(int n) { int64 r = n; return r; }
public float mkf(int n) { float r = cast<float>(n); return r; }
public double mkd(int n) { double r = cast<double>(n); return r; }
public string mks(int n) { if ( n == 0 ) { return "zero"; } return "many"; }
public Item mko(int n) { Item r = new Item(n); return r; }
public void show(bool v) { emit(1); emitb(v); }
public void show(int v) { emit(2); emit(v); }
public void show(int64 v) { emit(3); emit64(v); }
public void show(float v) { emit(4); emitd(double v); }
public void show(double v) { emit(5); emitd(v); }
public void show(string v) { emit(6); emits(v); }
public void show(Item v) { emit(7); emit(v.value); emit(v.kind()); }
)";

// $T is the type argument, $G the class itself
static const char *BOX = R"(
public object $G implements Counted {
	public $T v;
	public int n = 4;
	private string s = "start";
	protected bool b = true;
	public double d = 2.5d;
	public void Constructor($T x) { v = x; }
	public void Constructor($T x, int k) { v = x; n = k; }
	public void Destructor() { emit(90); show(v); }
	public int count() const { return n; }
	public $T get() const { return v; }
	public void set($T x) modify { v = x; n = n + 1; }
	public $T swap($T x) modify { $T old = v; v = x; return old; }
	public void out($T x ref) const { x = v; }
	public void keep($T x) const { x = v; show(x); }
	public bool same($T x) const { return v == x; }
	public bool operator==( $G o const ) const { return v == o.v; }
	public $T pick(bool c, $T x, $T y) const { if ( c ) { return x; } return y; }
	public $T last(int k, $T x, $T y) const { $T r = x; int i = 0; while ( i < k ) { r = y; i = i + 1; } return r; }
	public $T again(int k, $T x) const { if ( k > 0 ) { return again(k - 1, x); } return x; }
	public void fail($T x) const throws { throw x; }
	public void failSelf($T x) const throws { throw new $G(x); }
	public $T third($T x, int k = 3) const { show(k); return x; }
	public void put(string k) modify { s = k; }
	public void put(bool k, bool l) modify { b = k; }
	public void state() const { emits(s); emitb(b); emitd(d); emit(n); }
	public $T other($G o const) const { return o.v; }
	public $G make($T x) const { $G g = new $G(x); return g; }
	public void twice($G o const) const { show(o.get()); show(v); }
}
)";
static const char *SUM = R"(
public object $G {
	public $T v;
	public void Constructor($T x) { v = x; }
	public $T operator+( $G o const ) const { return v + o.v; }
	public $T both($T x) const { $T r = v + x; return r; }
	public $G sum($G o const) const { return new $G(v + o.v); }
}
)";
static const char *FRESH = R"(
public object $G {
	public $T v;
	public $T w;
	public bool on = true;
	public bool off = false;
	public int number = 7;
	public string text = "ab";
	public double part = 2.5d;
	public void init($T x) modify { w = x; }
	public void change() modify { on = false; number = 8; text = "c"; part = 1.5d; }
}
)";
static const char *HOLDER = R"(
public object $H {
	public $G g;
	public void Constructor($T x) { g = new $G(x); }
	public $T get() const { return g.get(); }
	public void set($T x) modify { g.set(x); }
	public $T local($T x) const { $G c = new $G(x); return c.get(); }
	public $G inner() const { return g; }
}
)";
static const char *PAIR = R"(
public object $P {
	public $A first;
	public $B second;
	public void Constructor($A x, $B y) { first = x; second = y; }
	public $A one() const { return first; }
	public $B two() const { return second; }
	public void set($A x, $B y) modify { first = x; second = y; }
	public void out($A x ref, $B y ref) const { x = first; y = second; }
	public bool same( $P o const ) const { return first == o.first && second == o.second; }
	public $A fst($A x, $B y) const { return x; }
	public $B snd($A x, $B y) const { return y; }
}
)";

static const char *USES[] = {
    "show(a.get());",
    "a.set($2); show(a.v); show(a.count());",
    "show(a.swap($2)); show(a.get());",
    "$T r ref = new $T($N); a.out(r); show(r);",
    "$T k = $2; a.keep(k); show(k);",
    "$G c = a; c.set($2); show(a.get());",
    "a = new $G($2); show(a.get());",
    "{ $G c = new $G($2, y); show(c.get()); emit(c.n); }",
    "try { a.fail($2); show(a.get()); } catch ( $T e ) { show(e); }",
    "try { a.failSelf($2); } catch ( $G e ) { show(e.get()); }",
    "emitb(a.same($2)); emitb(a.same($1));",
    "emitb(a == b); emitb(b == a);",
    "show(a.pick(x > y, $1, $2)); show(a.last(y % 3, $1, $2)); show(a.again(x % 3, $2));",
    "show(a.third($2)); show(a.third($1, y));",
    "a.put(\"put\"); a.put(x > 0, true); a.state();",
    "show(a.other(b)); a.twice(b);",
    "$G c = a.make($2); show(c.get());",
    "$G c const = b; show(c.get());",
    "Counted c = Counted a; emit(c.count());",
    "emit(pass$F(a, $2)); show(a.get());",
    "$G c = back$F($2); show(c.get());",
    "over(a);",
    "if ( a is $G ) { emit(1); } if ( a is Counted ) { emit(2); }",
    "Outer$F o = new Outer$F(); o.set($2); show(o.get()); show(o.g.v);",
    "Derived$F o = new Derived$F($2); show(o.get()); show(o.more()); o.set($1); show(o.v);",
    "$T k = a.v; k = $2; show(a.v); show(k);",
    "a.v = $2; show(a.get()); a.n = y; emit(a.count());",
    "int i = 0; while ( i < 2 ) { $G c = new $G($2); show(c.get()); i = i + 1; }",
};
static const unsigned NU = sizeof(USES) / sizeof(USES[0]);
static const char *FUNCS = R"(
public int pass$F($G g, $T x) { g.set(x); return g.count(); }
public $G back$F($T x) { return new $G(x); }
public void over($G g) { emit(50 + $I); show(g.get()); }
public object Outer$F { public $G g; public void set($T x) modify { g = new $G(x); } public $T get() const { return g.get(); } }
public object Derived$F extends $G { public void Constructor($T x) { base.Constructor(x); } public void set($T x) modify { emit(70); v = x; } public $T more() const { return get(); } }
)";

// text for one type argument; generic or written out
static std::string spell(const std::string &text, unsigned t, bool generic, const std::string &cls) {
  std::string n = TYPES[t].name, s = text;
  s = subst(s, "$1", std::string(TYPES[t].make) + "(x)");
  s = subst(s, "$2", std::string(TYPES[t].make) + "(y)");
  s = subst(s, "$N", t == 3 ? "x" : std::string(TYPES[t].make) + "(x)");
  s = subst(s, "$F", (generic ? "G" : "W") + n);
  s = subst(s, "$I", std::to_string(t));
  s = subst(s, "$H", generic ? "Holder<" + n + ">" : "WHolder" + n);
  s = subst(s, "$G", generic ? cls + "<" + n + ">" : "W" + cls + n);
  return subst(s, "$T", n);
}
static std::string generics(const char *body, const char *cls) {
  std::string s = body;
  s = subst(s, "$H", "Holder<T>");
  s = subst(s, "$G", std::string(cls) + "<T>");
  return subst(s, "$T", "T");
}
static void same(const std::vector<Ev> &a, const Result &ra, const std::vector<Ev> &b, const Result &rb) {
  sx_assert(ra.out == Returned && rb.out == Returned, "both programs end normally");
  sx_assert(a.size() == b.size(), "the generic class reports as much as the written out one");
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    sx_assert(a[i].tag == b[i].tag, "the same kind of value is reported");
    sx_assert_eq(a[i].val, b[i].val, "the same value is reported");
    sx_assert(a[i].str == b[i].str, "the same text is reported");
  }
}
static void compare(const std::string &src, int32_t x, int32_t y) {
  bool ok = loadHere(src);
  sx_assert(ok, "the program is accepted");
  if (!ok) return;
  trace.clear();
  ParameterList p{arg(x), arg(y)};
  Result r1 = call("generic", p);
  std::vector<Ev> t1 = trace;
  trace.clear();
  Result r2 = call("written", p);
  std::vector<Ev> t2 = trace;
  if (getenv("DUMP"))
    for (size_t i = 0; i < t1.size(); ++i) fprintf(stderr, "%d %lld %s\n", (int)t1[i].tag, (long long)t1[i].val, t1[i].str.c_str());
  sx_reach("compared");
  same(t1, r1, t2, r2);
  sx_done();
}
static std::string program(const std::string &classes, const std::string &g, const std::string &w) {
  return COMMON + classes + "\npublic void generic(int x, int y) modify throws { " + g + " }\npublic void written(int x, int y) modify throws { " + w + " }\n";
}

// one class, one type argument, pairs of uses
static void uses(unsigned t, bool all = true) {
  static const unsigned changing[] = {1, 5, 6, 8, 9, 26};
  unsigned u = sx_choose("use", NU), v = all ? sx_choose("then", NU) : changing[sx_choose("then", 6)];
  std::string body = std::string("$G a = new $G($1); $G b = new $G($2); { ") + USES[u] + " } { " + USES[v] + " } show(a.get()); show(b.get());";
  std::string cls = generics(BOX, "Box") + spell(BOX, t, false, "Box") + spell(FUNCS, t, true, "Box") + spell(FUNCS, t, false, "Box");
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(cls, spell(body, t, true, "Box"), spell(body, t, false, "Box")), x, y);
}
SX_CASE_SETUP(box_int, empty) { uses(0); }
SX_CASE_SETUP(box_string, empty) { uses(1, false); }
SX_CASE_SETUP(T_box_string, empty) { uses(1); }
SX_CASE_SETUP(box_item, empty) { uses(3, false); }
SX_CASE_SETUP(T_box_item, empty) { uses(3); }
SX_CASE_SETUP(T_box_double, empty) { uses(2); }
SX_CASE_SETUP(T_box_bool, empty) { uses(4); }
SX_CASE_SETUP(T_box_int64, empty) { uses(5); }
SX_CASE_SETUP(T_box_float, empty) { uses(6); }
SX_CASE_SETUP(box_others, empty) {
  static const unsigned other[] = {2, 4, 5, 6};
  unsigned t = other[sx_choose("type", 4)], u = sx_choose("use", NU);
  std::string body = std::string("$G a = new $G($1); $G b = new $G($2); { ") + USES[u] + " } show(a.get()); show(b.get());";
  std::string cls = generics(BOX, "Box") + spell(BOX, t, false, "Box") + spell(FUNCS, t, true, "Box") + spell(FUNCS, t, false, "Box");
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(cls, spell(body, t, true, "Box"), spell(body, t, false, "Box")), x, y);
}
// one class used with two different type arguments in one program, in both orders
static void twoArguments(unsigned count) {
  static const unsigned which[] = {0, 3, 1, 4, 2, 5, 6};
  unsigned t = sx_choose("first", count), o = sx_choose("second", count - 1), u = sx_choose("use", NU), order = sx_choose("order", 2);
  if (o >= t) ++o;
  t = which[t];
  o = which[o];
  std::string body = USES[u];
  std::string cls = generics(BOX, "Box");
  for (unsigned k : {t, o}) cls += spell(BOX, k, false, "Box") + spell(FUNCS, k, true, "Box") + spell(FUNCS, k, false, "Box");
  auto text = [&](bool g) {
    std::string s1 = spell("$G a = new $G($1); $G b = new $G($2); ", t, g, "Box") + spell(body, t, g, "Box");
    std::string s2 = spell("$G a = new $G($2); $G b = new $G($1); ", o, g, "Box") + spell(body, o, g, "Box");
    return order ? "{ " + s2 + " } { " + s1 + " }" : "{ " + s1 + " } { " + s2 + " }";
  };
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(cls, text(true), text(false)), x, y);
}
SX_CASE_SETUP(two_arguments, empty) { twoArguments(3); }
SX_CASE_SETUP(T_two_arguments, empty) { twoArguments(7); }
SX_CASE_SETUP(sums, empty) {
  unsigned t = sx_choose("type", 6);
  if (t >= 4) ++t; // values of type bool cannot be added
  std::string body = "$G a = new $G($1); $G b = new $G($2); show(a + b); show(a.both($2)); $G c = a.sum(b); show(c.v); show(b + c);";
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(generics(SUM, "Sum") + spell(SUM, t, false, "Sum"), spell(body, t, true, "Sum"), spell(body, t, false, "Sum")), x, y);
}
// members that have not been set
SX_CASE_SETUP(initial_values, empty) {
  unsigned t = sx_choose("type", 6), o = sx_choose("other", 6);
  if (t >= 3) ++t; // an unset object has no value to report
  if (o >= 3) ++o;
  std::string one = "$G a = new $G(); show(a.v); show(a.w); a.init($1); show(a.v); show(a.w); a.change(); $G b = new $G(); show(b.w); show(b.on); show(b.off); show(b.number); show(b.text); show(b.part); show(a.on); show(a.number); show(a.text); show(a.part);";
  std::string cls = generics(FRESH, "Fresh") + spell(FRESH, t, false, "Fresh");
  if (o != t) cls += spell(FRESH, o, false, "Fresh");
  auto text = [&](bool g) { return "{ " + spell(one, t, g, "Fresh") + " } { " + spell(one, o, g, "Fresh") + " }"; };
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(cls, text(true), text(false)), x, y);
}
// a generic class that has a member and locals of another generic class
SX_CASE_SETUP(nested, empty) {
  unsigned t = sx_choose("type", 7);
  std::string body = "$H h = new $H($1); show(h.get()); h.set($2); show(h.get()); show(h.local($1)); $G i = h.inner(); i.set($1); show(h.get()); $H k = h; k.set($2); show(i.get());";
  std::string cls = generics(BOX, "Box") + generics(HOLDER, "Box") + spell(BOX, t, false, "Box") + spell(HOLDER, t, false, "Box");
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(cls, spell(body, t, true, "Box"), spell(body, t, false, "Box")), x, y);
}
// two type parameters: every combination of arguments
static std::string pairText(std::string s, unsigned a, unsigned b, bool generic) {
  std::string n = TYPES[a].name, m = TYPES[b].name;
  s = subst(s, "$P", generic ? "Pair<" + n + ", " + m + ">" : "Pair_" + n + "_" + m);
  s = subst(s, "$A1", std::string(TYPES[a].make) + "(x)");
  s = subst(s, "$A2", std::string(TYPES[a].make) + "(y)");
  s = subst(s, "$B1", std::string(TYPES[b].make) + "(x)");
  s = subst(s, "$B2", std::string(TYPES[b].make) + "(y)");
  s = subst(s, "$NA", a == 3 ? "5" : std::string(TYPES[a].make) + "(5)");
  s = subst(s, "$NB", b == 3 ? "5" : std::string(TYPES[b].make) + "(5)");
  s = subst(s, "$A", n);
  return subst(s, "$B", m);
}
static const char *PAIRUSES[] = {
    "show(p.one()); show(p.two());",
    "p.set($A2, $B1); show(p.first); show(p.second);",
    "$A r ref = new $A($NA); $B s ref = new $B($NB); p.out(r, s); show(r); show(s);",
    "$P q = new $P($A1, $B1); emitb(p.same(q)); emitb(q.same(q));",
    "show(p.fst($A2, $B1)); show(p.snd($A2, $B1));",
    "$P q = p; q.first = $A2; q.second = $B1; show(p.first); show(p.second);",
    "p = new $P($A2, $B1); show(p.one()); show(p.two());",
};
SX_CASE_SETUP(pairs, empty) {
  unsigned a = sx_choose("first", 7), b = sx_choose("second", 7), u = sx_choose("use", 7);
  std::string body = std::string("$P p = new $P($A1, $B2); ") + PAIRUSES[u];
  std::string g = subst(subst(subst(PAIR, "$P", "Pair<F, S>"), "$A", "F"), "$B", "S");
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(g + pairText(PAIR, a, b, false), pairText(body, a, b, true), pairText(body, a, b, false)), x, y);
}
// the class with swapped arguments is a different class
static void swapped(bool all) {
  unsigned a = sx_choose("first", 7), b = sx_choose("second", 6), u = sx_choose("use", 7), v = all ? sx_choose("then", 7) : u;
  if (b >= a) ++b;
  std::string g = subst(subst(subst(PAIR, "$P", "Pair<F, S>"), "$A", "F"), "$B", "S");
  auto text = [&](bool k) {
    return "{ " + pairText(std::string("$P p = new $P($A1, $B2); ") + PAIRUSES[u], a, b, k) + " } { " + pairText(std::string("$P p = new $P($A2, $B1); ") + PAIRUSES[v], b, a, k) + " }";
  };
  int32_t x = sx_i32("x"), y = sx_i32("y");
  compare(program(g + pairText(PAIR, a, b, false) + pairText(PAIR, b, a, false), text(true), text(false)), x, y);
}

SX_CASE_SETUP(pairs_swapped, empty) { swapped(false); }
SX_CASE_SETUP(T_pairs_swapped, empty) { swapped(true); }

// what is wrong in the written out class is wrong in the generic one
static const char *WRONG[] = {
    "$G a = new $G($O);",
    "$G a = new $G($1); a.set($O);",
    "$G a = new $G($1); a.v = $O;",
    "$G a = new $G($1); $U k = a.get(); emit(1);",
    "$G a = new $G($1); a.s = \"x\";",
    "$G a = new $G($1); a.b = false;",
    "$G a const = new $G($1); a.set($1);",
    "$G a = new $G($1); $K b = a;",
    "$G a = new $G($1); $K b = new $K($O); a = b;",
    "$G a = new $G($1, 1, 2);",
    "$G a = new $G($1); a.nothing();",
    "$G a = new $G($1); show(a.nothing);",
};
SX_CASE_SETUP(wrong, empty) {
  static const unsigned ts[] = {0, 1, 3, 4};
  unsigned generic = sx_choose("generic", 2), t = sx_choose("type", 4), o = sx_choose("other", 3), u = sx_choose("use", sizeof(WRONG) / sizeof(WRONG[0]));
  unsigned a = ts[t], b = ts[o >= t ? o + 1 : o];
  if ((u == 2 || u == 3) && a != 3 && b != 3) { // a number or text is converted
    sx_done();
    return;
  }
  std::string s = WRONG[u];
  s = subst(s, "$O", std::string(TYPES[b].make) + "(y)");
  s = subst(s, "$U", TYPES[b].name);
  s = subst(s, "$K", generic ? std::string("Box<") + TYPES[b].name + ">" : std::string("WBox") + TYPES[b].name);
  s = spell(s, a, generic, "Box");
  std::string cls = generic ? generics(BOX, "Box") : spell(BOX, a, false, "Box") + spell(BOX, b, false, "Box");
  bool ok = loadHere(program(cls, s, ""));
  sx_reach("decided");
  sx_assert(!ok, "a wrong use of the class is rejected");
  sx_done();
}

// wrong bodies
static const char *BAD[] = {
    "public void bad($T x const) modify { x = v; }",
    "public void bad($T x const) modify { x = x; }",
    "public void bad($T x ref const) modify { x = v; }",
    "public void bad($T x) const { v = x; }",
    "public void bad($T x) const { this.v = x; }",
    "public void bad($T x) modify { fixed = x; }",
    "public void bad($G o const) modify { o.v = v; }",
    "public void bad($G o const) modify { o.change(v); }",
    "public void bad($T x) const { change(x); }",
    "public void bad($T x) const { x = gone; }",
    "public void bad($T x) const { x.gone(); }",
    "public $T bad($T x) const { return n; }",
    "public int bad($T x) const { return x; }",
    "public void bad($T x) const { $T x = v; }",
    "public void bad($T x) const { } public void bad($T y) const { }",
    "public void bad($T x) const { return x; }",
    "public $T v;",
    "public void bad($T x const) const { $T c const = x; c = v; }",
    "public void bad($G o) const { o.hide(); o.hidden = 2; o.nothing = 3; }",
};
SX_CASE_SETUP(wrong_bodies, empty) {
  static const unsigned ts[] = {0, 1, 3, 4};
  static const unsigned notype = (1u << 11) | (1u << 12); // the result is int: a different type is needed
  unsigned generic = sx_choose("generic", 2), a = ts[sx_choose("type", 4)], u = sx_choose("body", sizeof(BAD) / sizeof(BAD[0])), used = sx_choose("used", 2);
  if ((notype >> u & 1) && a == 0) {
    sx_done();
    return;
  }
  std::string c = "public object $G { public $T v; public int n; public $T fixed const; private int hidden; private void hide() const { } public void change($T x) modify { v = x; }\n" + std::string(BAD[u]) + "\n}\n";
  std::string body = "$G a = new $G(); ";
  if (used) body += "a.change($1);";
  bool ok = loadHere(program(generic ? generics(c.c_str(), "Box") : spell(c, a, false, "Box"), spell(body, a, generic, "Box"), ""));
  sx_reach("decided");
  sx_assert(!ok, "a wrong body is rejected");
  sx_done();
}

// a constraint on the type parameter: the type itself and everything derived from it, nothing else
SX_CASE_SETUP(constraints, empty) {
  static const char *names[] = {"Item", "Special", "Deep", "Deeper", "Strange", "StrangeDeep", "Counted", "Both", "int", "string", "bool"};
  static const unsigned fits[] = {0xf, 0xe, 0xc, 0x8}; // which of the names fit Item, Special, Deep, Deeper
  unsigned c = sx_choose("constraint", 6), t = sx_choose("type", 11), use = sx_choose("use", 4), order = sx_choose("order", 2);
  static const char *constraint[] = {"Item", "Special", "Deep", "Deeper", "Strange", "Counted"};
  bool want = c < 4 ? (fits[c] >> t & 1) || (c == 0 && t == 7) : c == 4 ? t == 4 || t == 5 : t == 6 || t == 7 || t == 5;
  std::string more = "public object Deep extends Special { }\npublic object Deeper extends Deep { }\npublic object Strange { }\n"
                     "public object StrangeDeep extends Strange implements Counted { public int count() const { return 1; } }\n"
                     "public object Both extends Item implements Counted { public int count() const { return 2; } }\n";
  std::string only = std::string("public object Only<T : ") + constraint[c] + "> { public T v; public int k = 3; public int two() const { return k + 2; } }\n";
  std::string n = names[t], body, cls = order ? only + more : more + only;
  switch (use) {
    case 0: body = "Only<" + n + "> o = new Only<" + n + ">(); emit(o.two());"; break;
    case 1: body = "Only<" + n + "> o; emit(5);"; break;
    case 2: cls += "public object Has { public Only<" + n + "> o; }\n"; body = "Has h = new Has(); emit(5);"; break;
    default: cls += "public object Is extends Only<" + n + "> { }\n"; body = "Is h = new Is(); emit(h.two());"; break;
  }
  bool ok = loadHere(program(cls, body, ""));
  sx_reach(ok ? "fits" : "rejected");
  sx_assert(ok == want, "a type is accepted exactly when it is or derives from the constraint");
  if (ok && want) {
    Result r = call("generic", ParameterList{arg(sx_i32("x")), arg(1)});
    sx_assert(r.out == Returned && trace.size() == 1, "the program runs");
    if (trace.size() == 1) sx_assert_eq(trace[0].val, 5, "the program reports its value");
  }
  sx_done();
}
