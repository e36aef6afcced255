// Static rules: constants, const methods, visibility, static methods, duplicates, returns.
#include "vm.h"
using namespace H;

static void empty() {
  newVM();
  vm->init();
}
static bool loadHere(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  try {
    vm->createScriptFromString(src);
  } catch (std::exception &e) {
    if (getenv("DUMP")) fprintf(stderr, "rejected: %s\n", e.what());
    return false;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  return true;
}
static void decided(bool accepted, bool ok, const char *tooMuch, const char *tooLittle) {
  sx_observe(accepted);
  sx_assert(accepted == ok, accepted ? tooMuch : tooLittle);
  sx_reach(accepted ? "accepted" : "rejected");
}
static std::string fill(std::string s, const std::string &with) {
  for (size_t p; (p = s.find('@')) != std::string::npos;) s.replace(p, 1, with);
  return s;
}

// ---------------------------------------------------------------- constants
struct Use {
  const char *text;
  bool modifies;
};
static const Use kInt[] = {{"@ = v;", true}, {"@ += v;", true}, {"@ -= v;", true}, {"@ *= v;", true}, {"@++;", true}, {"@--;", true}, {"int y = @;", false}, {"byValue(@);", false}, {"var y = @;", false}, {"int y = @ + v;", false}};
static const Use kObject[] = {{"@ = new O();", true}, {"@.n = v;", true}, {"@.n += v;", true}, {"@.n++;", true}, {"@.set(v);", true}, {"byRef(@);", true}, {"O y = @;", true}, {"var y = @;", true},
                              {"int y = @.get();", false}, {"int y = @.n;", false}, {"byConst(@);", false}, {"O y const = @;", false}, {"var y const = @;", false}};
enum Where { Local, ByParameter, ReferenceParameter, Global, StaticMember, InConstructor, InModifyMethod, InConstMethod, InDefaultMethod, DerivedModify, DerivedConst, Wheres };
static const char *kPrelude = "public object O { public int n = 1; public void set(int v) modify { n = v; } public int get() const { return n; } }\n"
                              "public void byRef(O o modify ref) { }\npublic void byConst(O o const ref) { }\npublic void byValue(int i) { }\n";
static void constants(bool object) {
  unsigned where = sx_choose("where", Wheres), mut = sx_choose("mutability", 3);
  unsigned prefix = sx_choose("prefix", 3); // members: plain, with this, with base
  const Use *uses = object ? kObject : kInt;
  unsigned n = object ? sizeof kObject / sizeof *kObject : sizeof kInt / sizeof *kInt;
  const Use &use = uses[sx_choose("use", n)];
  int32_t v = sx_i32("v");
  static const char *muts[] = {"", " const", " modify"};
  bool isConst = mut == 1, member = where >= InConstructor;
  sx_assume(!prefix || member);
  sx_assume(prefix != 2 || where >= DerivedModify);
  // a constant member of object type cannot be assigned, the object behind it is protected only in const methods
  bool constMember = member && isConst && (!object || &use == kObject);
  std::string type = object ? "O" : "int", m = muts[mut], text = fill(use.text, prefix == 2 ? "base.x" : prefix ? "this.x" : "x"), init = object ? "new O()" : "5", member0 = object ? "" : " = 5";
  std::string src = kPrelude;
  bool ok = true, inConst = where == InConstMethod || where == InDefaultMethod || where == DerivedConst;
  switch (where) {
    case Local: src += "public void f(int v) modify { " + type + " x" + m + " = " + init + "; " + text + " }\n"; break;
    case ByParameter: src += "public void g(" + type + " x" + m + ", int v) modify { " + text + " }\npublic void f(int v) modify { g(" + init + ", v); }\n"; break;
    case ReferenceParameter: src += "public void g(" + type + " x" + m + " ref, int v) modify { " + text + " }\npublic void f(int v) modify { " + type + " z = " + init + "; g(z, v); }\n"; break;
    case Global: src += "public " + type + " x" + m + member0 + ";\npublic void g(int v) modify { " + text + " }\npublic void f(int v) modify { }\n"; break;
    case StaticMember: src += "public object P { private static " + type + " x" + m + member0 + "; public static void g(int v) modify { " + text + " } }\npublic void f(int v) modify { }\n"; break;
    case InConstructor: src += "public object P { private " + type + " x" + m + member0 + "; public void Constructor(int v) { " + (object ? "x = new O(); " : "") + text + " } }\npublic void f(int v) modify { P p = new P(v); }\n"; break;
    case InModifyMethod:
    case InConstMethod:
    case InDefaultMethod:
      src += "public object P { private " + type + " x" + m + member0 + "; public void Constructor() { x = " + init + "; } public void g(int v)" + (where == InModifyMethod ? " modify" : where == InConstMethod ? " const" : "") + " { " + text + " } }\npublic void f(int v) modify { P p = new P(); p.g(v); }\n";
      break;
    case DerivedModify:
    case DerivedConst:
      src += "public object B { protected " + type + " x" + m + member0 + "; public void Constructor() { x = " + init + "; } }\npublic object P extends B { public void Constructor() { base.Constructor(); } public void g(int v)" + (where == DerivedModify ? " modify" : " const") + " { " + text + " } }\npublic void f(int v) modify { P p = new P(); p.g(v); }\n";
      break;
  }
  bool aliases = object && use.modifies && (std::string(use.text) == "O y = @;" || std::string(use.text) == "var y = @;");
  if (use.modifies) {
    if (!member && isConst) ok = false;
    if (constMember && where != InConstructor) ok = false;
    if (inConst && !aliases) ok = false; // a second name for a member is not tracked
  }
  bool accepted = loadHere(src);
  decided(accepted, ok, "a program that modifies a constant is accepted", "a program that modifies no constant is rejected");
  if (accepted) {
    auto r = call("f", {arg(v)});
    sx_assert(r.out == Returned, "a program that obeys the rules fails");
  }
}
SX_CASE_SETUP(constants_int, empty) { constants(false); }
SX_CASE_SETUP(constants_object, empty) { constants(true); }

// ---------------------------------------------------------------- visibility
enum What { Field, Method, ModifyMethod, StaticField, StaticFunction, Whats };
enum Site { Own, OtherOfClass, Derived, ViaBase, DerivedTwice, OtherFromDerived, Unrelated, Function, FromNamespace, Sites };
static void visibility(unsigned what) {
  static const char *vis[] = {"private", "protected", "public"};
  unsigned visible = sx_choose("visibility", 3), site = sx_choose("site", Sites), how = sx_choose("how", 2), use = sx_choose("use", 4);
  int32_t v = sx_i32("v");
  static const char *decl[] = {"int m = 7;", "int m() const { return 7; }", "int m() modify { return 7; }", "static int m = 7;", "static int m() { return 7; }"};
  bool field = what == Field || what == StaticField, isStatic = what == StaticField || what == StaticFunction;
  sx_assume(use < (field ? 4u : 2u));
  static const char *fieldUse[] = {"int y = @m; emit(y);", "@m = v; emit(@m);", "@m += v; emit(@m);", "@m++; emit(@m);"};
  static const char *callUse[] = {"int y = @m(); emit(y);", "emit(@m() + v);"};
  // how: plain or qualified by this; by the class for static members seen from elsewhere
  std::string q;
  bool inClass = site == Own || site == Derived || site == DerivedTwice;
  if (inClass) q = how ? "this." : "";
  else if (site == ViaBase) q = "base.";
  else q = "o.";
  if (how && !inClass) {
    sx_assume(isStatic && site != ViaBase && site != OtherOfClass && site != OtherFromDerived);
    q = "A.";
  }
  std::string text = fill(field ? fieldUse[use] : callUse[use], q), t = "public void t(A o, int v) modify { " + text + " } ";
  std::string a = std::string("public object A { ") + vis[visible] + " " + decl[what] + " " + (site == Own || site == OtherOfClass ? t : "") + "}\n";
  std::string src = a;
  switch (site) {
    case Own:
    case OtherOfClass: src += "public void f(int v) modify { A a = new A(); A b = new A(); a.t(b, v); }\n"; break;
    case Derived:
    case ViaBase:
    case OtherFromDerived: src += "public object D extends A { " + t + "}\npublic void f(int v) modify { D d = new D(); A b = new A(); d.t(b, v); }\n"; break;
    case DerivedTwice: src += "public object C extends A { }\npublic object D extends C { " + t + "}\npublic void f(int v) modify { D d = new D(); A b = new A(); d.t(b, v); }\n"; break;
    case Unrelated: src += "public object D { " + t + "}\npublic void f(int v) modify { D d = new D(); A b = new A(); d.t(b, v); }\n"; break;
    case Function: src += t + "\npublic void f(int v) modify { A b = new A(); t(b, v); }\n"; break;
    case FromNamespace: src += "public namespace N { " + t + "}\npublic void f(int v) modify { A b = new A(); N.t(b, v); }\n"; break;
  }
  bool ok = visible == 2 || site == Own || site == OtherOfClass || (visible == 1 && (site == Derived || site == ViaBase || site == DerivedTwice));
  bool accepted = loadHere(src);
  decided(accepted, ok, "a member that is not accessible can be used", "an accessible member cannot be used");
  if (accepted) {
    trace.clear();
    auto r = call("f", {arg(v)});
    sx_assert(r.out == Returned, "using an accessible member fails");
    sx_assert(trace.size() == 1, "number of values");
    int32_t want = 7;
    if (field && use == 1) want = v;
    if ((field && use == 2) || (!field && use == 1)) want = (int32_t)(7u + (uint32_t)v);
    if (field && use == 3) want = 8;
    sx_assert_eq(trace[0].val, (uint64_t)(int64_t)want, "value of an accessible member");
  }
}
SX_CASE_SETUP(visible_fields, empty) { visibility(Field); }
SX_CASE_SETUP(visible_methods, empty) { visibility(Method); }
SX_CASE_SETUP(visible_modifying_methods, empty) { visibility(ModifyMethod); }
SX_CASE_SETUP(visible_static_fields, empty) { visibility(StaticField); }
SX_CASE_SETUP(visible_static_functions, empty) { visibility(StaticFunction); }

// private and public declarations of a namespace, seen from inside and outside
SX_CASE_SETUP(namespaces, empty) {
  unsigned visible = sx_choose("visibility", 2), kind = sx_choose("kind", 3), from = sx_choose("from", 2);
  int32_t v = sx_i32("v");
  std::string vis = visible ? "public " : "private ", q = from ? "N." : "";
  std::string decl = vis + (kind == 0 ? "int x = 3;" : kind == 1 ? "int x() { return 3; }" : "object X { public int n = 3; }");
  std::string get = kind == 0 ? "return " + q + "x + v;" : kind == 1 ? "return " + q + "x() + v;" : q + "X o = new " + q + "X(); return o.n + v;";
  std::string t = "public int t(int v) { " + get + " }\n", src;
  if (from) src = "public namespace N { " + decl + " }\n" + t + "public int f(int v) { return t(v); }\n";
  else src = "public namespace N { " + decl + "\n" + t + "}\npublic int f(int v) { return N.t(v); }\n";
  bool accepted = loadHere(src);
  decided(accepted, visible || !from, "a private name of a namespace is accessible from outside", "a name of a namespace is not accessible");
  if (accepted) {
    auto r = call("f", {arg(v)});
    sx_assert(r.out == Returned, "using a name of a namespace fails");
    sx_assert_eq((uint64_t)(uint32_t)r.i(), (uint64_t)(3u + (uint32_t)v), "value of a name of a namespace");
  }
}

// ---------------------------------------------------------------- which methods call which
// Caller and callee are const, modify or static; the callee is in the same class or its base.
SX_CASE_SETUP(calls_between_methods, empty) {
  unsigned caller = sx_choose("caller", 3), callee = sx_choose("callee", 3), where = sx_choose("where", 2), how = sx_choose("how", 3);
  int32_t v = sx_i32("v");
  static const char *kinds[] = {"const", "modify", "static"};
  static const char *prefix[] = {"", "this.", "base."};
  sx_assume(how != 2 || where == 1);
  auto method = [&](const char *name, unsigned kind, const std::string &body) {
    return std::string("public ") + (kind == 2 ? "static " : "") + "int " + name + "(int v) " + (kind == 2 ? "" : kinds[kind]) + " { " + body + " } ";
  };
  std::string g = method("g", callee, "return v + 1;"), t = method("t", caller, std::string("return ") + prefix[how] + "g(v);");
  std::string src = where ? "public object B { " + g + "}\npublic object A extends B { " + t + "}\n" : "public object A { " + g + t + "}\n";
  src += "public int f(int v) modify { A a = new A(); return a.t(v); }\n";
  bool ok = true;
  if (caller == 0 && callee == 1) ok = false;              // const calls modify
  if (caller == 2 && callee != 2) ok = false;              // static calls non-static
  if (caller == 2 && how == 1) ok = false;                 // no this in static methods
  sx_assume(!(caller == 2 && how == 2));
  bool accepted = loadHere(src);
  decided(accepted, ok, "a forbidden call is accepted", "an allowed call is rejected");
  if (accepted) {
    auto r = call("f", {arg(v)});
    sx_assert(r.out == Returned, "an allowed call fails");
    sx_assert_eq((uint64_t)(uint32_t)r.i(), (uint64_t)(1u + (uint32_t)v), "result of an allowed call");
  }
}

// ---------------------------------------------------------------- further rules
struct Rule {
  const char *src;
  bool ok;
};
static const Rule kRules[] = {
    {"public object A { } public object A { }", false},
    {"public object A { int x; int x; }", false},
    {"public object A { int x; string x; }", false},
    {"public object A { public void f() { } public void f() { } }", false},
    {"public object A { public void f(int x) { } public void f(int y) { } }", false},
    {"public object A { public void f() { } public int f() { return 1; } }", false},
    {"public object A { public void f() { } public void f(int x) { } }", true},
    {"public void f() { } public void f() { }", false},
    {"public void f(int x) { } public void f(int y) { }", false},
    {"public void f(int x) { } public void f(string y) { }", true},
    {"public int x; public int x;", false},
    {"public int x; public namespace N { public int x; }", true},
    {"public void f(int x, int x) { }", false},
    {"public void f(int x, int y) { }", true},
    {"public namespace N { public void f() { } } public namespace N { public void f() { } }", false},
    {"public namespace N { public void f() { } } public namespace N { public void g() { } }", true},
    {"public enum E { A; } public enum E { B; }", false},
    {"public enum E { A, A; }", false},
    {"public object A { } public int A;", false},
    {"public void f() { throw 1; }", false},
    {"public void f() throws { throw 1; }", true},
    {"public void f() { try { throw 1; } catch ( int e ) { } }", true},
    {"public int f() { }", false},
    {"public void f() { }", true},
    {"public int f(bool b) { if ( b ) { return 1; } else { return 2; } }", true},
    {"public void f() { return 1; }", false},
    {"public int f() { return; }", false},
    {"public int f() { return \"x\"; }", false},
    {"public void f();", false},
    {"public void f() { break; }", false},
    {"public void f() { continue; }", false},
    {"public void f() { while ( true ) { break; } }", true},
    {"public void f() { while ( true ) { continue; } }", true},
    {"public void f() { this.x = 1; }", false},
    {"public object A { int x; public static void f() modify { this.x = 1; } }", false},
    {"public object A { int x; public static void f() modify { x = 1; } }", false},
    {"public object A { int x; public static int f() { return x; } }", false},
    {"public object A { static int x; public static int f() { return x; } }", true},
    {"public namespace A { public object X { public int a; } public namespace B { public object X { public int b; } } public int f() { B.X x = new B.X(); return x.b; } }", true},
    {"public namespace A { public object X { public int a; } public namespace B { public object X { public int b; } } public int f() { B.X x = new B.X(); return x.a; } }", false},
    {"public object A extends Z { }", false},
    {"public object A extends A { }", false},
    {"public object A extends B { } public object B extends A { }", false},
    {"public object A extends B { } public object B extends C { } public object C extends A { }", false},
    {"public object B { } public object A extends B { }", true},
    {"public interface I { public int f() const; } public void g() { I a = new I(); }", false},
    {"public void f() { Foo x; }", false},
    {"public Foo f() { }", false},
    {"public void f() { g(); }", false},
    {"public void f() { int y = z; }", false},
    {"public void g() { } public void f() { g = 1; }", false},
    {"public void f() { 1 = 2; }", false},
    {"public int g() { return 1; } public void f() { g() = 2; }", false},
    {"public enum E { A, B; } public void f() { E.A = E.B; }", false},
    {"public void g(int x modify ref) { } public void f() { int y const = 1; g(y); }", false},
    {"public void g(int x modify ref) { } public void f() { int y = 1; g(y); }", true},
    {"public object A { public void g() modify { } } public void f(A a const) { a.g(); }", false},
    {"public object A { public void g() const { } } public void f(A a const) { a.g(); }", true},
    {"public object O { public int n; } public object A { O o; public void f() const { o.n = 1; } }", false},
    {"public object O { public int n; } public object A { O o; public void f() modify { o.n = 1; } }", true},
};
SX_CASE_SETUP(rules, empty) {
  const Rule &r = kRules[sx_choose("rule", sizeof kRules / sizeof *kRules)];
  // the rule holds wherever the program stands in the script
  static const char *around[][2] = {{"", ""}, {"public namespace Outer {\n", "\n}\n"}, {"public int other(int v) { return v; }\n", "\npublic object Last { public int n; }\n"}};
  unsigned place = sx_choose("place", 3);
  bool accepted = loadHere(std::string(around[place][0]) + r.src + around[place][1]);
  decided(accepted, r.ok, "a program that breaks a rule is accepted", "a program that obeys the rules is rejected");
}

// abstract classes cannot be instantiated; detected at the latest when the object is created
SX_CASE_SETUP(abstract_instances, empty) {
  unsigned k = sx_choose("kind", 4);
  static const char *src[] = {"public abstract object A { public abstract int f() const; }", "public object A { public abstract int f() const; }",
                              "public abstract object A { public abstract int f() const; public int g() const { return 1; } }", "public object A { public int f() const { return 1; } }"};
  int32_t v = sx_i32("v");
  bool accepted = loadHere(std::string(src[k]) + "\npublic int h(int v) { A a = new A(); emit(v); return a.f(); }\n");
  sx_observe(accepted);
  if (k == 3) sx_assert(accepted, "a class without abstract methods is rejected");
  if (!accepted) return;
  trace.clear();
  auto r = call("h", {arg(v)});
  sx_assert((r.out == Returned) == (k == 3), "an abstract class is instantiated");
  if (k != 3) sx_assert(trace.empty(), "execution goes on behind the creation of an abstract object");
  sx_reach(k == 3 ? "created" : "refused");
}

// rules that are not enforced
static const struct {
  const char *src, *msg;
} kOpen[] = {
    {"public interface I { public int f() const; } public object B implements I { } public void g() { B a = new B(); }", "a class that lacks a method of its interface can be instantiated"},
    {"public abstract object A { public abstract int f() const; } public object B extends A { } public void g() { B a = new B(); }", "a class that lacks an abstract method of its base can be instantiated"},
    {"public int f(bool b) { if ( b ) { return 1; } } public void g() { int x = f(false); }", "a method can end without returning a value"},
    {"public object A { private void Constructor() { } } public void g() { A a = new A(); }", "a private constructor can be used from outside"},
    {"public object A { public int x() const { return 1; } } public void g() { int y = A.x(); }", "a non-static method can be called without an object"},
};
static void openRule(unsigned k) {
  int32_t v = sx_i32("v");
  bool accepted = loadHere(std::string(kOpen[k].src) + "\npublic int h(int v) { g(); return v; }\n");
  if (accepted) {
    auto r = call("h", {arg(v)});
    accepted = r.out == Returned;
  }
  sx_assert(!accepted, kOpen[k].msg);
}
SX_CASE_SETUP(open_interface, empty) { openRule(0); }
SX_CASE_SETUP(open_abstract, empty) { openRule(1); }
SX_CASE_SETUP(open_return, empty) { openRule(2); }
SX_CASE_SETUP(open_constructor, empty) { openRule(3); }
SX_CASE_SETUP(open_static, empty) { openRule(4); }

// ---------------------------------------------------------------- parameter lists
SX_CASE_SETUP(parameter_lists, empty) {
  static const char *between[] = {",", ";", "", ".", ":", "=", "+", "(", "const,", "ref,", "const ref,", "ref const,", "const const,", "x,", "5,", ",,", "modify,", "const ref ref,"};
  static const unsigned fine = 1u << 0 | 1u << 8 | 1u << 9 | 1u << 10 | 1u << 16;
  unsigned k = sx_choose("between", sizeof between / sizeof *between), last = sx_choose("last", 5), site = sx_choose("site", 3);
  int32_t v = sx_i32("v");
  static const char *end[] = {"", "const", "ref const", "y", ";"};
  std::string g = std::string("public int g(int a ") + between[k] + " int b " + end[last] + ") const { return a; }\n", src;
  if (site == 0) src = g + "public int f(int v) modify { int w = v; return g(w, w); }\n";
  else if (site == 1) src = "public object P { " + g + "}\npublic int f(int v) modify { int w = v; P p = new P(); return p.g(w, w); }\n";
  else src = "public namespace N { " + g + "}\npublic int f(int v) modify { int w = v; return N.g(w, w); }\n";
  bool ok = (fine >> k & 1) && last < 2;
  bool accepted = loadHere(src);
  decided(accepted, ok, "a wrong parameter list is accepted", "a right parameter list is rejected");
  if (accepted) {
    auto r = call("f", {arg(v)});
    sx_assert(r.out == Returned, "a program that obeys the rules fails");
    sx_assert_eq((uint64_t)(uint32_t)r.i(), (uint64_t)(uint32_t)v, "value of a parameter");
  }
}
