// Classes: members per object, inheritance, selection of methods, constructors, static members.
#include "vm.h"
using namespace H;

static void empty() {
  newVM();
  vm->init();
}
static bool loadHere(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  try {
    vm->createScriptFromString(src);
  } catch (std::exception &e) {
    if (getenv("DUMP")) fprintf(stderr, "rejected: %s\n", e.what());
    return false;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  return true;
}
static std::vector<int32_t> want;
static void expect(const char *what) {
  if (getenv("DUMP"))
    for (size_t i = 0; i < trace.size() || i < want.size(); ++i)
      fprintf(stderr, "%zu: %d %d\n", i, i < trace.size() ? (int)trace[i].val : -1, i < want.size() ? want[i] : -1);
  sx_assert(trace.size() == want.size(), what);
  for (size_t i = 0; i < want.size(); ++i) sx_assert_eq(trace[i].val, (uint64_t)(int64_t)want[i], what);
}

// ---------------------------------------------------------------- hierarchies
// Classes A, B extends A, C extends B. An object consists of one part per class; a method works on the
// part of the class that declares it, a name in it refers to that class or the nearest base.
static unsigned depth;             // 0..2: class of the objects
static unsigned hasF, hasSet, hasM; // which classes declare f, set and the member m
static bool finalF;
static unsigned ctor[3]; // 0 none, 1 without, 2 with a call of the base constructor
struct Obj {
  int32_t m[3] = {1, 10, 20};
  static int nearest(unsigned mask, int from) {
    while (from >= 0 && !(mask >> from & 1)) --from;
    return from;
  }
  int32_t &member(int level) { return m[nearest(hasM, level)]; }
  int32_t f(int from) {
    int k = finalF ? 0 : nearest(hasF, from);
    return (int32_t)((uint32_t)member(k) + 100 * (uint32_t)k);
  }
  int32_t g() { return (int32_t)((uint32_t)f(0) + 1000); }
  void set(int from, int32_t v) { member(nearest(hasSet, from)) = v; }
  void construct(int from, int32_t v) {
    while (from > 0 && !ctor[from]) --from;
    if (from > 0 && ctor[from] == 2) construct(from - 1, (int32_t)((uint32_t)v + 1));
    if (from == 0) member(0) = v;
    else member(from) = (int32_t)((uint32_t)member(from) + (uint32_t)v);
  }
};
static void hierarchy(unsigned d) {
  depth = d;
  hasF = hasSet = hasM = 1;
  finalF = sx_choose("final", 2);
  for (unsigned k = 0; k < 3; ++k) ctor[k] = 0;
  static const char *name[] = {"A", "B", "C"};
  std::string src;
  for (unsigned k = 0; k <= depth; ++k) {
    std::string n = std::to_string(k);
    if (k) {
      hasF |= sx_choose(("f" + n).c_str(), 2) << k;
      hasSet |= sx_choose(("set" + n).c_str(), 2) << k;
      hasM |= sx_choose(("m" + n).c_str(), 2) << k;
      ctor[k] = sx_choose(("constructor" + n).c_str(), 3);
    }
    src += std::string("public object ") + name[k] + (k ? std::string(" extends ") + name[k - 1] : "") + " {\n";
    if (hasM >> k & 1) src += "  protected int m = " + std::to_string(k ? 10 * k : 1) + ";\n";
    if (k == 0) src += "  public void Constructor(int v) { m = v; }\n";
    if (ctor[k] == 1) src += "  public void Constructor(int v) { m = m + v; }\n";
    if (ctor[k] == 2) src += "  public void Constructor(int v) { base.Constructor(v + 1); m = m + v; }\n";
    if (hasF >> k & 1) src += std::string("  public ") + (k == 0 && finalF ? "final " : "") + "int f() const { return m + " + std::to_string(100 * k) + "; }\n";
    if (hasF >> k & 1) src += std::string("  public ") + (k == 0 && finalF ? "final " : "") + "int f(int x) const { return m + x + " + std::to_string(100 * k) + "; }\n";
    if (hasSet >> k & 1) src += "  public void set(int v) modify { m = v; }\n";
    if (k == 0) src += "  public int g() const { return f() + 1000; }\n";
    src += "  public int own" + n + "() const { return m; }\n";
    if (k) src += "  public int up" + n + "() const { return base.f(); }\n  public int viaThis" + n + "() const { return this.m; }\n";
    src += "}\n";
  }
  std::string cls = name[depth], dump;
  auto dumpOf = [&](const std::string &v, unsigned as) {
    std::string r = "  emit(" + v + ".f()); emit(" + v + ".f(b)); emit(" + v + ".g());";
    for (unsigned k = 0; k <= as; ++k) {
      r += " emit(" + v + ".own" + std::to_string(k) + "());";
      if (k) r += " emit(" + v + ".up" + std::to_string(k) + "()); emit(" + v + ".viaThis" + std::to_string(k) + "());";
    }
    return r + "\n";
  };
  unsigned as = depth ? depth - 1 : 0; // the class of a variable that holds a derived object
  std::string all = dumpOf("o", depth) + dumpOf("p", depth) + dumpOf("q", as);
  src += "public void run(int a, int b, int c, int d) {\n  " + cls + " o = new " + cls + "(a);\n  " + cls + " p = new " + cls + "(b);\n  " + name[as] + " q = o;\n" + all +
         "  o.set(c);\n" + all + "  q.set(d);\n" + all + "  p.set(a);\n" + all + "}\n";
  int32_t v[4];
  for (int i = 0; i < 4; ++i) v[i] = sx_i32(("v" + std::to_string(i)).c_str());
  bool ok = loadHere(src);
  sx_assert(ok, "a class hierarchy is rejected");
  Obj o, p;
  o.construct((int)depth, v[0]);
  p.construct((int)depth, v[1]);
  want.clear();
  auto dumpRef = [&](Obj &x, unsigned to) {
    want.push_back(x.f((int)depth));
    want.push_back((int32_t)((uint32_t)x.f((int)depth) + (uint32_t)v[1]));
    want.push_back(x.g());
    for (unsigned k = 0; k <= to; ++k) {
      want.push_back(x.member((int)k));
      if (k) {
        want.push_back(x.f((int)k - 1));
        want.push_back(x.member((int)k));
      }
    }
  };
  auto allRef = [&] {
    dumpRef(o, depth);
    dumpRef(p, depth);
    dumpRef(o, as);
  };
  allRef();
  o.set((int)depth, v[2]);
  allRef();
  o.set((int)depth, v[3]);
  allRef();
  p.set((int)depth, v[0]);
  allRef();
  trace.clear();
  auto r = call("run", {arg(v[0]), arg(v[1]), arg(v[2]), arg(v[3])});
  sx_observe(r.out);
  sx_assert(r.out == Returned, "using objects of a class hierarchy fails");
  expect("value computed by a method of an object");
}
SX_CASE_SETUP(hierarchy_1, empty) { hierarchy(0); }
SX_CASE_SETUP(hierarchy_2, empty) { hierarchy(1); }
SX_CASE_SETUP(hierarchy_3, empty) { hierarchy(2); }

// ---------------------------------------------------------------- overloads across classes
static void overloads(bool viaBase) {
  static const char *name[] = {"A", "B", "C"};
  static const char *sig[] = {"", "int x", "string x", "int x, int y"};
  unsigned has[3] = {15, sx_choose("in_B", 16), sx_choose("in_C", 16)};
  std::string src;
  for (unsigned k = 0; k < 3; ++k) {
    src += std::string("public object ") + name[k] + (k ? std::string(" extends ") + name[k - 1] : "") + " {\n";
    for (unsigned s = 0; s < 4; ++s)
      if (has[k] >> s & 1) src += std::string("  public int f(") + sig[s] + ") const { return " + std::to_string(10 * k + s) + (s == 1 ? " + x" : s == 3 ? " + x + y" : "") + "; }\n";
    src += "}\n";
  }
  src += std::string("public void run(int a, int b) { C o = new C(); ") + (viaBase ? "B v = o; " : "C v = o; ") + "emit(v.f()); emit(v.f(a)); emit(v.f(\"t\")); emit(v.f(a, b)); }\n";
  int32_t a = sx_i32("a"), b = sx_i32("b");
  sx_assert(loadHere(src), "a class hierarchy is rejected");
  want.clear();
  for (unsigned s = 0; s < 4; ++s) {
    int k = 2;
    while (!(has[k] >> s & 1)) --k;
    int32_t v = 10 * k + (int)s;
    if (s == 1) v = (int32_t)((uint32_t)v + (uint32_t)a);
    if (s == 3) v = (int32_t)((uint32_t)v + (uint32_t)a + (uint32_t)b);
    want.push_back(v);
  }
  trace.clear();
  auto r = call("run", {arg(a), arg(b)});
  sx_assert(r.out == Returned, "calling an overloaded method fails");
  expect("the overload of the most derived class is called");
}
SX_CASE_SETUP(overloads_exact, empty) { overloads(false); }
SX_CASE_SETUP(overloads_base_variable, empty) { overloads(true); }

// ---------------------------------------------------------------- histories with static members and aliases
static const char *kHistory = R"(
public object P { public int n = 5; public void Constructor(int v) { n = v; } }
public object A {
  public static int s = 7;
  public int m = 3;
  protected P mP;
  public void Constructor(int v) { m = v; mP = new P(v); }
  public void Constructor(int v, int w) { m = v; mP = new P(w); }
  public static void put(int v) modify { s = v; }
  public static int get() { return s; }
  public void bump(int v) modify { s = s + v; }
  public int seen() const { return s; }
  public int m2() const { return m; }
  public int inner() const { return mP.n; }
  public void setInner(int v) modify { mP.n = v; }
  public void share(P p) modify { mP = p; }
  public P part() const { return mP; }
  public A Copy() const { A r = new A(m, mP.n); return r; }
}
public object B extends A {
  public int m = 4;
  public void Constructor(int v) { base.Constructor(v + 1); m = v; }
  public void deep(int v) modify { base.m = v; }
}
public object H {
  public A o; public A p; public A q; public B b;
  public void Constructor(int v) { o = new A(v); p = new A(v + 1); q = o; b = new B(v + 2); }
}
public void step(H h, int op, int v) modify {
  switch ( op ) {
    case 0: { h.o.m = v; break; }
    case 1: { h.p.m = v; break; }
    case 2: { h.q.m = v; break; }
    case 3: { h.q = h.p; break; }
    case 4: { h.q = h.o; break; }
    case 5: { A.s = v; break; }
    case 6: { A.put(v); break; }
    case 7: { h.o.bump(v); break; }
    case 8: { h.b.bump(v); break; }
    case 9: { h.o = new A(v); break; }
    case 10: { A t = copy h.o; h.p = t; break; }
    case 11: { h.q.setInner(v); break; }
    case 12: { h.p.share(h.o.part()); break; }
    case 13: { h.b.deep(v); break; }
    case 14: { h.b.m = v; break; }
    case 15: { h.p.s = v; break; }
    case 16: { h.b.setInner(v); break; }
    default: { break; }
  }
}
public void dump(H h) {
  emit(h.o.m); emit(h.p.m2()); emit(h.q.m); emit(h.o.inner()); emit(h.p.inner()); emit(h.q.inner());
  emit(A.s); emit(A.get()); emit(h.o.seen()); emit(h.b.seen()); emit(h.p.s);
  emit(h.b.m); emit(h.b.m2()); emit(h.b.inner());
}
public void run2(int a, int x, int v, int y, int w) modify { H h = new H(a); dump(h); step(h, x, v); dump(h); step(h, y, w); dump(h); }
public void run3(int a, int x, int v, int y, int w, int z, int u) modify { H h = new H(a); step(h, x, v); step(h, y, w); step(h, z, u); dump(h); }
)";
static void historySetup() { load(kHistory); }
struct PartRef {
  int32_t n;
};
struct ARef {
  int32_t m;
  PartRef *p;
};
static int32_t plus(int32_t a, int32_t b) { return (int32_t)((uint32_t)a + (uint32_t)b); }
template <unsigned N> static void history() {
  static const unsigned kOps = 17;
  int32_t a = sx_i32("a");
  std::vector<PartRef *> parts;
  auto newA = [&](int32_t v) { return new ARef{v, new PartRef{v}}; };
  ARef *o = newA(a), *p = newA(plus(a, 1)), *q = o, *bBase = newA(plus(plus(a, 2), 1));
  int32_t bm = plus(a, 2), s = 7;
  want.clear();
  auto dump = [&] {
    for (int32_t v : {o->m, p->m, q->m, o->p->n, p->p->n, q->p->n, s, s, s, s, s, bm, bBase->m, bBase->p->n}) want.push_back(v);
  };
  ParameterList params{arg(a)};
  if (N == 2) dump();
  for (unsigned i = 0; i < N; ++i) {
    unsigned op = sx_choose(("op" + std::to_string(i)).c_str(), kOps);
    int32_t v = sx_i32(("v" + std::to_string(i)).c_str());
    params.push_back(arg((int32_t)op));
    params.push_back(arg(v));
    switch (op) {
      case 0: o->m = v; break;
      case 1: p->m = v; break;
      case 2: q->m = v; break;
      case 3: q = p; break;
      case 4: q = o; break;
      case 5:
      case 6:
      case 15: s = v; break;
      case 7:
      case 8: s = plus(s, v); break;
      case 9: o = newA(v); break;
      case 10: {
        int32_t n = o->p->n;
        p = newA(o->m);
        p->p->n = n;
        break;
      }
      case 11: q->p->n = v; break;
      case 12: p->p = o->p; break;
      case 13: bBase->m = v; break;
      case 14: bm = v; break;
      case 16: bBase->p->n = v; break;
    }
    if (N == 2 || i + 1 == N) dump();
  }
  trace.clear();
  auto r = call(N == 2 ? "run2" : "run3", params);
  sx_observe(r.out);
  sx_assert(r.out == Returned, "a history of operations on objects fails");
  expect("members after a history of operations");
}
SX_CASE_SETUP(history_2, historySetup) { history<2>(); }
SX_CASE_SETUP(history_3, historySetup) { history<3>(); }

// ---------------------------------------------------------------- interfaces and abstract classes
static void interfaces() {
  // every class implements f itself or inherits it; the variable has the type of the interface
  unsigned cls = sx_choose("class", 4);
  unsigned var = sx_choose("variable", 3);
  int32_t v = sx_i32("v");
  static const char *name[] = {"X", "Y", "Z", "W"};
  std::string src = "public interface I { public int f(int v) const; public void put(int v) modify; public int got() const; }\n"
                    "public abstract object Base { protected int m = 2; public abstract int f(int v) const; public void put(int v) modify { m = v; } public int got() const { return m; } }\n"
                    "public object X implements I { private int m = 1; public int f(int v) const { return v + 1; } public void put(int v) modify { m = v; } public int got() const { return m; } }\n"
                    "public object Y implements I { private int m = 1; public int f(int v) const { return v + 2; } public void put(int v) modify { m = v + 5; } public int got() const { return m; } }\n"
                    "public object Z extends X implements I { public int f(int v) const { return v + 3; } }\n"
                    "public object W extends Base { public int f(int v) const { return v + 4; } }\n";
  static const char *types[] = {"", "I", "Base"};
  std::string type = var == 0 ? name[cls] : types[var];
  sx_assume(var == 0 || (var == 1) == (cls != 3));
  src += "public void run(int v) { " + type + " o = new " + name[cls] + "(); emit(o.f(v)); emit(o.got()); o.put(v); emit(o.got()); }\n";
  sx_assert(loadHere(src), "a class with an interface is rejected");
  want = {plus(v, (int32_t)cls + 1), cls == 3 ? 2 : 1, cls == 1 ? plus(v, 5) : v};
  trace.clear();
  auto r = call("run", {arg(v)});
  sx_assert(r.out == Returned, "calling a method through an interface fails");
  expect("method called through an interface or abstract class");
}
SX_CASE_SETUP(interface_variables, empty) { interfaces(); }

// a method of an abstract class that calls an abstract method
static void abstractSetup() {
  load("public abstract object A { public abstract int f(int v) const; public int g(int v) const { return f(v); } }\n"
       "public object B extends A { public int f(int v) const { return v; } }\n"
       "public int run(int v) throws { B b = new B(); return b.g(v); }\n");
}
SX_CASE_SETUP(abstract_from_base, abstractSetup) {
  int32_t v = sx_i32("v");
  auto r = call("run", {arg(v)});
  sx_assert(r.out == Returned, "a base class calls its abstract method");
  sx_assert_eq((uint64_t)(uint32_t)r.i(), (uint64_t)(uint32_t)v, "a base class calls its abstract method");
}

// ---------------------------------------------------------------- the object itself in inherited methods
// "this" in a method of class k, used for an object of class d: it is the whole object
static void itself(unsigned d) {
  static const char *name[] = {"A", "B", "C"};
  enum { Result, Argument, Stored, Compared, Thrown, Local, InConstructor, Member, ResultChain, InDestructor, Uses };
  unsigned k = sx_choose("level", d + 1), use = sx_choose("use", Uses), f = 1 | sx_choose("f", 1u << d) << 1, via = sx_choose("variable", 2);
  int32_t a = sx_i32("a");
  std::string K = name[k], D = name[d], V = via ? K : D, src;
  src = "public object R { public " + K + " kept; }\n";
  src += "public void take(" + K + " x) { emit(x.f()); }\n";
  for (unsigned l = 0; l <= d; ++l) {
    src += std::string("public object ") + name[l] + (l ? std::string(" extends ") + name[l - 1] : "") + " {\n";
    if (l == 0) src += "  public int m;\n";
    if (f >> l & 1) src += "  public int f() const { return m + " + std::to_string(100 * l) + "; }\n";
    std::string init = l ? "base.Constructor(v, r);" : "m = v;";
    if (l == k && use == InConstructor) init += " r.kept = this;";
    src += "  public void Constructor(int v, R r) modify { " + init + " }\n";
    if (l == k) {
      src += "  public " + K + " next;\n";
      src += "  public " + K + " me() const { return this; }\n";
      src += "  public void give() const { take(this); }\n";
      src += "  public void keep(R r) modify { r.kept = this; }\n";
      src += "  public bool same(" + K + " x) const { return this == x; }\n";
      src += "  public void fail() const throws { throw this; }\n";
      src += "  public int local() const { " + K + " t = this; return t.f(); }\n";
      src += "  public void link() modify { next = this; emit(next.f()); next = " + K + " null; }\n";
      if (use == InDestructor) src += "  public void Destructor() { take(this); }\n";
    }
    src += "}\n";
  }
  std::string run = "R r = new R(); " + D + " o = new " + D + "(a, r); " + D + " p = new " + D + "(a + 1, r); ";
  // variables of the classes in between: o1, o2, ...
  auto widen = [&](std::string from, const std::string &to, unsigned down) {
    for (unsigned l = d; l > down; --l) {
      std::string n = l - 1 == down ? to : to + std::to_string(l);
      run += std::string(name[l - 1]) + " " + n + " = " + from + "; ";
      from = n;
    }
    if (d == down) run += D + " " + to + " = " + from + "; ";
  };
  widen("o", "v", via ? k : d);
  if (use == Compared) { widen("o", "ov", k); widen("p", "pv", k); }
  int n = (int)d;
  while (!(f >> n & 1)) --n;
  int32_t value = (int32_t)((uint32_t)a + 100u * (uint32_t)n);
  want.clear();
  switch (use) {
    case Result: run += K + " x = v.me(); emit(x.f()); x.m = a + 5; emit(o.m); o.m = a; if ( x is " + D + " ) { emit(1); }"; want = {value, (int32_t)((uint32_t)a + 5), 1}; break;
    case Argument: run += "v.give();"; want = {value}; break;
    case Stored: run += "v.keep(r); emit(r.kept.f()); if ( r.kept is " + D + " ) { emit(1); }"; want = {value, 1}; break;
    case Compared: run += "if ( v.same(ov) ) { emit(1); } if ( v.same(pv) ) { emit(2); }"; want = {1}; break;
    case Thrown: {
      run += "try { v.fail(); }";
      for (int l = (int)d; l >= 0; --l) run += std::string(" catch ( ") + name[l] + " e ) { emit(" + std::to_string(l) + "); emit(e.f()); }";
      want = {(int32_t)d, value};
      break;
    }
    case Local: run += "emit(v.local());"; want = {value}; break;
    case InConstructor: // the last object that was created
      run += "emit(r.kept.f());";
      want = {(int32_t)((uint32_t)value + 1)};
      break;
    case Member: run += "v.link();"; want = {value}; break;
    case ResultChain: run += "emit(v.me().me().f()); emit(v.me().m);"; want = {value, a}; break;
    case InDestructor: run = "R r = new R(); if ( true ) { " + D + " o = new " + D + "(a, r); } emit(7);"; want = {value, 7}; break;
  }
  bool ok = loadHere(src + "public void run(int a) modify throws { " + run + " }\n");
  sx_assert(ok, "a class hierarchy is rejected");
  if (!ok) return;
  trace.clear();
  auto r = call("run", {arg(a)});
  sx_assert(r.out == Returned, "using the own object fails");
  expect("the own object is the whole object");
  sx_reach("itself");
}
SX_CASE_SETUP(itself_1, empty) { itself(0); }
SX_CASE_SETUP(itself_2, empty) { itself(1); }
SX_CASE_SETUP(itself_3, empty) { itself(2); }
