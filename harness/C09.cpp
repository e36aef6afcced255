// Scopes and name lookup: every small program over one name, against a table of nested scopes.
#include "vm.h"
using namespace H;

static void empty() {
  newVM();
  vm->init();
}
static bool loadHere(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  try {
    vm->createScriptFromString(src);
  } catch (std::exception &e) {
    if (getenv("DUMP")) fprintf(stderr, "rejected: %s\n", e.what());
    return false;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  return true;
}

// ---------------------------------------------------------------- programs over one name
enum Op { Declare, Assign, Read, Peek, Open, Close };
enum Kind { Plain, If, While, For, ForX, Switch, Try, TryThrow, Broken, Kinds };
struct Node {
  Op op;
  unsigned kind = 0, v = 0;
  std::vector<Node> body;
};
static unsigned used;      // values used so far
static unsigned steps, at; // statements left

static std::vector<Node> block(unsigned depth, unsigned kinds, bool peek) {
  std::vector<Node> r;
  while (at < steps) {
    std::string n = "op" + std::to_string(at++);
    static const Op order[] = {Declare, Assign, Read, Open, Peek, Close};
    static const Op noPeek[] = {Declare, Assign, Read, Open, Close};
    unsigned count = (peek ? 6 : 5) - (depth ? 0 : 1);
    unsigned k = sx_choose(n.c_str(), count);
    Node s;
    s.op = peek ? order[k] : noPeek[k];
    if (s.op == Close) return r;
    if (s.op == Declare || s.op == Assign) s.v = used++;
    if (s.op == Open) {
      s.kind = sx_choose((n + "_kind").c_str(), kinds);
      if (s.kind == ForX) s.v = used++;
      s.body = block(depth + 1, kinds, peek);
    }
    r.push_back(s);
  }
  return r;
}
static unsigned counter;
static std::string text(const std::vector<Node> &b) {
  std::string r;
  for (auto &s : b) {
    std::string v = "v" + std::to_string(s.v);
    if (s.op == Declare) r += "int x = " + v + "; ";
    if (s.op == Assign) r += "x = " + v + "; ";
    if (s.op == Read) r += "emit(x); ";
    if (s.op == Peek) r += "peek(); ";
    if (s.op == Open) {
      std::string k = "k" + std::to_string(counter++), body = text(s.body);
      switch (s.kind) {
        case Plain: r += "{ " + body + "}\n"; break;
        case If: r += "if ( c ) { " + body + "} else { int x = 5; emit(x); }\n"; break;
        case While: r += "int " + k + " = 0; while ( " + k + " < 2 ) { " + k + " = " + k + " + 1; " + body + "}\n"; break;
        case For: r += "for ( int " + k + " = 0; " + k + " < 2; " + k + "++ ) { " + body + "}\n"; break;
        case ForX: r += "int " + k + " = 0; for ( int x = " + v + "; " + k + " < 2; " + k + "++ ) { " + body + "}\n"; break;
        case Switch: r += "switch ( 1 ) { case 1: { " + body + "break; } default: { emit(1); break; } }\n"; break;
        case Try: r += "try { " + body + "} catch ( string e ) { emit(2); }\n"; break;
        case TryThrow: r += "try { " + body + "{ int x = 78; throw \"t\"; } } catch ( string e ) { emit(3); }\n"; break;
        case Broken: r += "while ( true ) { " + body + "{ int x = 77; break; } }\n"; break;
      }
    }
  }
  return r;
}

// the reference
struct Scopes {
  std::vector<std::map<char, int32_t *>> s; // innermost last; only one name
  int32_t *find() const {
    for (size_t i = s.size(); i--;)
      if (s[i].count('x')) return s[i].at('x');
    return nullptr;
  }
};
static std::vector<int32_t> values;
static bool cond;
static std::vector<Ev> want;
static void wanted(int32_t v) {
  Ev e;
  e.tag = 1;
  e.val = (uint64_t)(int64_t)v;
  want.push_back(e);
}
static int32_t slots[64];
static unsigned slot;

// whether every use has a declaration and no block declares twice
static bool valid(const std::vector<Node> &b, std::vector<bool> &declared, bool outer, bool peekable) {
  auto visible = [&] {
    for (bool d : declared)
      if (d) return true;
    return outer;
  };
  for (auto &s : b) {
    if (s.op == Declare) {
      if (declared.back()) return false;
      declared.back() = true;
    }
    if ((s.op == Assign || s.op == Read) && !visible()) return false;
    if (s.op == Open) {
      size_t n = declared.size();
      if (s.kind == ForX) declared.push_back(true);
      declared.push_back(false);
      bool ok = valid(s.body, declared, outer, peekable);
      declared.resize(n);
      if (!ok) return false;
    }
  }
  return true;
}
static void run(const std::vector<Node> &b, Scopes &sc, int32_t *outer) {
  for (auto &s : b) {
    int32_t *x = sc.find();
    if (!x) x = outer;
    switch (s.op) {
      case Declare:
        slots[slot] = values[s.v];
        sc.s.back()['x'] = &slots[slot++];
        break;
      case Assign: *x = values[s.v]; break;
      case Read: wanted(*x); break;
      case Peek: wanted(*outer); break;
      case Open: {
        size_t n = sc.s.size();
        if (s.kind == ForX) {
          slots[slot] = values[s.v];
          sc.s.push_back({{'x', &slots[slot++]}});
        }
        if (s.kind == If && !cond) wanted(5);
        else
          for (int i = 0; i < (s.kind == While || s.kind == For || s.kind == ForX ? 2 : 1); ++i) {
            sc.s.emplace_back();
            run(s.body, sc, outer);
            sc.s.pop_back();
          }
        if (s.kind == TryThrow) wanted(3);
        sc.s.resize(n);
        break;
      }
      case Close: break;
    }
  }
}

enum Context { Function, Global, Namespace, Param, Member, MemberParam, Inherited, Construct, StaticMethod };
static void program(unsigned n, Context ctx, unsigned kinds) {
  steps = n;
  at = used = counter = slot = 0;
  bool outer = ctx != Function, inObject = ctx >= Member && ctx != StaticMethod;
  bool param = ctx == Param || ctx == MemberParam;
  auto body = block(0, kinds, outer);
  cond = sx_bool("c");
  values.clear();
  std::string formal = "bool c", actual = "c";
  ParameterList params{arg(cond)};
  for (unsigned k = 0; k <= n; ++k) {
    values.push_back(sx_i32(("v" + std::to_string(k)).c_str()));
    formal += ", int v" + std::to_string(k);
    actual += ", v" + std::to_string(k);
    params.push_back(arg(values[k]));
  }
  std::string last = ", v" + std::to_string(n); // value of the parameter x
  std::string inner = formal + (param ? ", int x" : ""), pass = actual + (param ? last : "");
  std::vector<bool> declared{param};
  bool ok = valid(body, declared, outer, outer);
  bool end = declared.front() || outer;
  std::string f = text(body) + (end ? " emit(x); " : "");
  std::string src, peek = "void peek() { emit(x); }\n";
  if (outer && ctx != Function) src += "public int x = 1000;\n";
  switch (ctx) {
    case Function: src += "public void f(" + formal + ") throws {\n" + f + "}\n"; break;
    case Global: src += "public " + peek + "public void f(" + formal + ") throws {\n" + f + "}\npublic void probe() { emit(x); }\n"; break;
    case Param: src += "public " + peek + "public void g(" + inner + ") throws {\n" + f + "}\npublic void f(" + formal + ") throws { g(" + pass + "); }\npublic void probe() { emit(x); }\n"; break;
    case Namespace:
      src += "public namespace N {\nprivate int x = 2000;\npublic " + peek + "public void g(" + formal + ") throws {\n" + f + "}\n}\npublic void f(" + formal + ") throws { N.g(" + actual + "); }\npublic void probe() { N.peek(); emit(x); }\n";
      break;
    case Member:
    case MemberParam:
      src += "public object O {\nprivate int x = 3000;\npublic " + peek + "public void g(" + inner + ") modify throws {\n" + f + "}\n}\npublic void f(" + formal + ") throws { O o = new O(); o.g(" + pass + "); o.peek(); O p = new O(); p.peek(); }\npublic void probe() { emit(x); }\n";
      break;
    case Inherited:
      src += "public object B {\nprotected int x = 3000;\n}\npublic object O extends B {\npublic " + peek + "public void g(" + inner + ") modify throws {\n" + f + "}\n}\npublic void f(" + formal + ") throws { O o = new O(); o.g(" + pass + "); o.peek(); O p = new O(); p.peek(); }\npublic void probe() { emit(x); }\n";
      break;
    case Construct:
      src += "public object O {\nprivate int x = 3000;\npublic void Constructor() { }\npublic void Constructor(" + formal + ") throws {\n" + f + "}\npublic " + peek + "}\npublic void f(" + formal + ") throws { O o = new O(" + actual + "); o.peek(); O p = new O(); p.peek(); }\npublic void probe() { emit(x); }\n";
      break;
    case StaticMethod:
      src += "public object O {\npublic static " + peek + "public static void g(" + formal + ") throws {\n" + f + "}\n}\npublic void f(" + formal + ") throws { O.g(" + actual + "); }\npublic void probe() { emit(x); }\n";
      break;
  }
  bool accepted = loadHere(src);
  sx_observe(accepted);
  sx_assert(accepted == ok, accepted ? "a name without or with two declarations is accepted" : "a program with correct declarations is rejected");
  if (!accepted) {
    sx_reach("rejected");
    return;
  }
  want.clear();
  int32_t global = 1000, level = ctx == Namespace ? 2000 : 3000, own = values[n];
  int32_t *out = ctx == Function ? nullptr : inObject || ctx == Namespace ? &level : &global;
  Scopes sc;
  sc.s.emplace_back();
  if (param) sc.s.back()['x'] = &own;
  run(body, sc, out);
  if (end) wanted(sc.find() ? *sc.find() : *out);
  if (inObject) {
    wanted(level);
    wanted(3000);
  }
  trace.clear();
  auto r = call("f", params);
  sx_observe(r.out);
  sx_assert(r.out == Returned, "a program with correct declarations fails");
  if (outer) {
    if (ctx == Namespace) wanted(level);
    wanted(global);
    sx_assert(call("probe").out == Returned, "reading the outer variables");
  }
  sx_assert(trace.size() == want.size(), "number of values read");
  for (size_t i = 0; i < want.size(); ++i) sx_assert_eq(trace[i].val, want[i].val, "value of a name");
  sx_reach("run");
}
SX_CASE_SETUP(function, empty) { program(3, Function, Kinds); }
SX_CASE_SETUP(function_deep, empty) { program(4, Function, 4); }
SX_CASE_SETUP(global_variable, empty) { program(3, Global, Kinds); }
SX_CASE_SETUP(global_variable_deep, empty) { program(4, Global, 3); }
SX_CASE_SETUP(namespace_variable, empty) { program(3, Namespace, Kinds); }
SX_CASE_SETUP(parameter, empty) { program(3, Param, Kinds); }
SX_CASE_SETUP(member, empty) { program(3, Member, Kinds); }
SX_CASE_SETUP(member_and_parameter, empty) { program(3, MemberParam, Kinds); }
SX_CASE_SETUP(inherited_member, empty) { program(3, Inherited, Kinds); }
SX_CASE_SETUP(constructor, empty) { program(3, Construct, Kinds); }
SX_CASE_SETUP(static_method, empty) { program(3, StaticMethod, Kinds); }
SX_CASE_SETUP(T_function, empty) { program(4, Function, Kinds); }
SX_CASE_SETUP(T_function_deep, empty) { program(5, Function, 4); }
SX_CASE_SETUP(T_global_variable, empty) { program(4, Global, Kinds); }
SX_CASE_SETUP(T_namespace_variable, empty) { program(4, Namespace, Kinds); }
SX_CASE_SETUP(T_parameter, empty) { program(4, Param, Kinds); }
SX_CASE_SETUP(T_member, empty) { program(4, Member, Kinds); }
SX_CASE_SETUP(T_member_and_parameter, empty) { program(4, MemberParam, Kinds); }
SX_CASE_SETUP(T_inherited_member, empty) { program(4, Inherited, Kinds); }

// ---------------------------------------------------------------- levels of namespaces
// A variable and a function of one name, declared in any of three nested namespaces and at the top.
static void levels(bool method) {
  unsigned mask = sx_choose("declared", 16);
  unsigned from = sx_choose("from", 4); // the namespace of the reading function
  unsigned how = sx_choose("how", 4);   // plain, A.name, A.B.name, A.B.C.name
  int32_t v = sx_i32("v");
  static const char *ns[] = {"", "A", "B", "C"};
  static const char *prefix[] = {"", "A.", "A.B.", "A.B.C."};
  std::string src, close;
  for (unsigned k = 0; k < 4; ++k) {
    if (k) {
      src += std::string("public namespace ") + ns[k] + " {\n";
      close += "}\n";
    }
    if (mask >> k & 1)
      src += method ? "public int x(int v) { return v + " + std::to_string(k + 1) + "; }\n" : "public int x = " + std::to_string(k + 1) + ";\n";
    if (k == from) src += "public int f(int v) { return " + std::string(how ? prefix[how] : "") + (method ? "x(v)" : "x + v") + "; }\n";
  }
  src += close;
  int level = -1;
  if (how) level = mask >> how & 1 ? (int)how : -1;
  else
    for (unsigned k = 0; k <= from; ++k)
      if (mask >> k & 1) level = (int)k;
  bool accepted = loadHere(src);
  sx_observe(accepted);
  sx_assert(accepted == (level >= 0), accepted ? "a name without declaration is accepted" : "a declared name is rejected");
  if (!accepted) {
    sx_reach("rejected");
    return;
  }
  auto r = call(std::string(prefix[from]) + "f", {arg(v)});
  sx_assert(r.out == Returned, "name of a namespace");
  sx_assert_eq((uint64_t)(int32_t)r.i(), (uint64_t)(int32_t)(level + 1 + (int64_t)v), "the declaration in the innermost namespace is used");
  sx_reach("run");
}
SX_CASE_SETUP(namespace_variables, empty) { levels(false); }
SX_CASE_SETUP(namespace_functions, empty) { levels(true); }
