// Lifetime of script objects: the destructor runs exactly once, when the last reference goes away.
#include "vm.h"
#include <algorithm>
#include <map>
#include <set>
using namespace H;

static void empty() {
  newVM();
  vm->init();
}
static bool loadHere(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  try {
    vm->createScriptFromString(src);
  } catch (std::exception &e) {
    if (getenv("DUMP")) fprintf(stderr, "rejected: %s\n", e.what());
    return false;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  return true;
}

// own: the destructor uses its object
static std::string classes(bool own) {
  return std::string(
    "public object N { public int id; public int v; public N next; public void Constructor(int i, int x) { id = i; v = x; } public void Destructor() { ") + (own ? "N own = this; emit(1000 + own.me().id); ident(this);" : "emit(1000 + id);") + " emit(v); }\n"
    "  public N me() const { return this; } }\n"
    "public object D extends N { public void Constructor(int i, int x) { base.Constructor(i, x); } }\n"
    "public object H { public N x; public static N s; public void set(N n) modify { x = n; } public N get() const { return x; } }\n"
    "public namespace G { public N g; }\n"
    "public N make(int i, int v) { return new N(i, v); }\n"
    "public N ident(N n) { return n; }\n"
    "public N localCopy(N n) { N c = n; return c; }\n"
    "public void pass(N n) { emit(n.id); }\n"
    "public void passRef(N n ref) { emit(n.id); }\n"
    "public void replace(N n ref, int i, int v) modify { n = new N(i, v); }\n"
    "public void overwrite(N n, int i, int v) modify { n = new N(i, v); }\n"
    "public void fail(N n) throws { throw 1; }\n"
    "public N failing(N n) throws { N c = n; if ( c.id > 0 ) { throw 1; } return c; }\n";
}

// ---------------------------------------------------------------- model
struct Model {
  std::map<std::string, int> slots; // variable -> object, 0 is null
  std::map<int, int> next;          // object -> object it refers to
  std::set<int> alive;
  int fresh = 0;
  std::vector<std::vector<int>> died; // per statement
  std::vector<int> seen;              // ids reported by the program
  int create() {
    ++fresh;
    alive.insert(fresh);
    return fresh;
  }
  bool reachable(int o) const {
    for (auto &s : slots)
      if (s.second == o) return true;
    for (auto &n : next)
      if (alive.count(n.first) && n.second == o) return true;
    return false;
  }
  void collect(std::vector<int> &out) {
    for (bool more = true; more;) {
      more = false;
      for (int o : alive)
        if (!reachable(o)) {
          out.push_back(o);
          alive.erase(o);
          more = true;
          break;
        }
    }
  }
};
enum Op {
  NewA, NewB, AisB, BisA, AisA, DeleteA, DeleteB, NullA, MemberIsA, AisMember, DeleteMember, NewHolder, StaticIsA, AisStatic, DeleteStatic, GlobalIsA, AisGlobal, DeleteGlobal, PassA, PassRefA, PassNew, IdentB, IdentNew, MakeA, MakeUnused,
  LocalCopyB, ReplaceA, OverwriteA, BlockLocal, BlockBoth, Loop, Throwing, ThrowLocal, FailingA, SetMember, GetMember, NewDerived, LinkNext, UnlinkNext, MeB, Conditional, Ops
};
static std::string n(int i) { return std::to_string(i); }

static std::string step(Op op, Model &m, bool &valid) {
  auto &a = m.slots["a"];
  auto &b = m.slots["b"];
  auto &x = m.slots["h.x"];
  auto &s = m.slots["H.s"];
  auto &g = m.slots["G.g"];
  auto fresh = [&] {
    int o = m.create();
    return o;
  };
  std::string none;
  switch (op) {
    case NewA: a = fresh(); return "a = new N(" + n(a) + ", v);";
    case NewB: b = fresh(); return "b = new N(" + n(b) + ", v);";
    case AisB: a = b; return "a = b;";
    case BisA: b = a; return "b = a;";
    case AisA: return "a = a;";
    case DeleteA: a = 0; return "delete a;";
    case DeleteB: b = 0; return "delete b;";
    case NullA: a = 0; return "a = N null;";
    case MemberIsA: x = a; return "h.x = a;";
    case AisMember: a = x; return "a = h.x;";
    case DeleteMember: x = 0; return "delete h.x;";
    case NewHolder: x = 0; return "h = new H();";
    case StaticIsA: s = a; return "H.s = a;";
    case AisStatic: a = s; return "a = H.s;";
    case DeleteStatic: s = 0; return "delete H.s;";
    case GlobalIsA: g = a; return "G.g = a;";
    case AisGlobal: a = g; return "a = G.g;";
    case DeleteGlobal: g = 0; return "delete G.g;";
    case PassA: valid = a; m.seen.push_back(a); return "pass(a);";
    case PassRefA: valid = a; m.seen.push_back(a); return "passRef(a);";
    case PassNew: {
      int o = fresh();
      m.seen.push_back(o);
      return "pass(new N(" + n(o) + ", v));";
    }
    case IdentB: a = b; return "a = ident(b);";
    case IdentNew: a = fresh(); return "a = ident(new N(" + n(a) + ", v));";
    case MakeA: a = fresh(); return "a = make(" + n(a) + ", v);";
    case MakeUnused: {
      int o = fresh();
      return "make(" + n(o) + ", v);";
    }
    case LocalCopyB: a = b; return "a = localCopy(b);";
    case ReplaceA: { // the parameter is a second reference to the object
      int o = fresh();
      return "replace(a, " + n(o) + ", v);";
    }
    case OverwriteA: {
      int o = fresh();
      return "overwrite(a, " + n(o) + ", v);";
    }
    case BlockLocal: {
      int o = fresh();
      return "{ N c = new N(" + n(o) + ", v); N d = c; }";
    }
    case BlockBoth: b = a; return "{ N c = a; b = c; }";
    case Loop: {
      int o = fresh(), p = fresh();
      // two objects, one per round
      return "for ( int i = " + n(o) + "; i <= " + n(p) + "; i++ ) { N c = new N(i, v); }";
    }
    case Throwing: valid = a; return "try { fail(a); } catch ( int e ) { }";
    case ThrowLocal: {
      int o = fresh();
      return "try { N c = new N(" + n(o) + ", v); throw 1; } catch ( int e ) { }";
    }
    case FailingA: valid = a; return "try { b = failing(a); } catch ( int e ) { }";
    case SetMember: x = a; return "h.set(a);";
    case GetMember: a = x; return "a = h.get();";
    case NewDerived: a = fresh(); return "{ N d = new D(" + n(a) + ", v); a = d; }";
    case LinkNext:
      valid = a && b && a != b && !m.next[b]; // no cycles: those are never freed
      if (valid) m.next[a] = b;
      return "a.next = b;";
    case UnlinkNext:
      valid = a;
      if (valid) m.next[a] = 0;
      return "delete a.next;";
    case MeB:
      valid = b;
      a = b;
      return "a = b.me();";
    case Conditional: {
      int o = fresh();
      return "if ( v == v ) { N c = new N(" + n(o) + ", v); a = c; a = b; } ";
    }
    default: return none;
  }
}
static void after(Op op, Model &m) {
  if (op == Conditional) m.slots["a"] = m.slots["b"];
}

static void histories(const std::vector<Op> &ops, unsigned steps, unsigned fill, bool own = false) {
  int32_t v = sx_i32("v");
  Model m;
  m.slots["a"] = m.create();
  m.slots["b"] = fill ? m.create() : m.slots["a"];
  m.slots["h.x"] = m.slots["H.s"] = m.slots["G.g"] = 0;
  std::string body = "N a = new N(1, v); N b = " + std::string(fill ? "new N(2, v)" : "a") + "; H h = new H(); emit(0);\n";
  char name[8] = "op0";
  for (unsigned k = 0; k < steps; ++k) {
    name[2] = '0' + k;
    Op op = ops[sx_choose(name, ops.size())];
    bool valid = true;
    std::string text = step(op, m, valid);
    if (!valid) { // the statement needs an object
      sx_assume(false);
      return;
    }
    after(op, m);
    std::vector<int> died;
    m.collect(died);
    m.died.push_back(died);
    body += "  " + text + " emit(0);\n";
  }
  // the function ends: locals are gone
  m.slots["a"] = m.slots["b"] = m.slots["h.x"] = 0;
  std::vector<int> died;
  m.collect(died);
  m.died.push_back(died);
  bool ok = loadHere(classes(own) + "public void f(int v) modify {\n  " + body + "}\n");
  sx_assert(ok, "the program is accepted");
  if (!ok) return;
  trace.clear();
  auto r = call("f", {arg(v)});
  sx_assert(r.out == Returned, "the program runs to its end");
  // events: 0 separates statements, 1000 + id and the payload are destructions, other ids are reads
  size_t t = 0;
  std::vector<int> seen;
  auto next = [&]() -> int {
    if (t >= trace.size()) return -1;
    return (int)sx_pinned_u64(trace[t++].val);
  };
  sx_assert(next() == 0, "start");
  for (size_t k = 0; k < m.died.size(); ++k) {
    std::vector<int> got;
    for (;;) {
      if (t >= trace.size()) {
        sx_assert(k + 1 == m.died.size(), "all statements run");
        break;
      }
      int e = next();
      if (e == 0) break;
      if (e >= 1000) {
        got.push_back(e - 1000);
        sx_assert(t < trace.size(), "payload of a destroyed object");
        sx_assert_eq((uint64_t)(uint32_t)trace[t++].val, (uint64_t)(uint32_t)v, "payload of a destroyed object");
      } else seen.push_back(e);
    }
    std::vector<int> want = m.died[k];
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    for (int o : got) sx_assert(std::count(want.begin(), want.end(), o) == 1, "an object is destroyed too early or twice");
    for (int o : want) sx_assert(std::count(got.begin(), got.end(), o) == 1, "an object without references is not destroyed");
  }
  sx_assert(seen == m.seen, "objects seen by called functions");
  sx_reach("end");
}
static std::vector<Op> all() {
  std::vector<Op> v;
  for (int k = 0; k < Ops; ++k) v.push_back((Op)k);
  return v;
}
SX_CASE_SETUP(one_statement, empty) { histories(all(), 1, sx_choose("fill", 2), sx_choose("own", 2)); }
SX_CASE_SETUP(two_statements, empty) { histories(all(), 2, 1); }
SX_CASE_SETUP(two_statements_shared, empty) { histories(all(), 2, 0, true); }
SX_CASE_SETUP(three_variables, empty) { histories({NewA, AisB, BisA, DeleteA, DeleteB, MemberIsA, AisMember, NewHolder, DeleteMember, LinkNext, UnlinkNext}, 3, 1); }
SX_CASE_SETUP(three_static, empty) { histories({NewA, BisA, DeleteA, NullA, StaticIsA, AisStatic, DeleteStatic, GlobalIsA, AisGlobal, DeleteGlobal}, 3, 0); }
SX_CASE_SETUP(three_calls, empty) { histories({MakeA, IdentB, LocalCopyB, ReplaceA, OverwriteA, SetMember, GetMember, MeB, PassNew, FailingA, DeleteA}, 3, 1); }
SX_CASE_SETUP(T_four_variables, empty) { histories({NewA, AisB, BisA, DeleteA, MemberIsA, AisMember, NewHolder, LinkNext, UnlinkNext, IdentB, Throwing}, 4, 1); }

// ---------------------------------------------------------------- leaving nested statements
// every construct holds a local object; the innermost statement leaves one or more of them
enum Kind { Block, If, Else, While, For, TryBody, CatchBody, FinallyBody, GuardedTry, Switch, Kinds };
enum Exit { Fall, Break, Continue, Return, Throw, Exits };
static std::vector<int> wanted;
static std::string nested(const Kind *kinds, unsigned level, unsigned depth, Exit e) {
  std::string l = n(level), o = "N o" + l + " = new N(" + n(10 + level) + ", v); ";
  if (level == depth) {
    static const char *text[] = {"emit(77);", "break;", "continue;", "return;", "throw 1;"};
    return o + text[e];
  }
  std::string b = "{ " + nested(kinds, level + 1, depth, e) + " }", t;
  switch (kinds[level]) {
    case Block: t = b; break;
    case If: t = "if ( v == v ) " + b; break;
    case Else: t = "if ( v != v ) { emit(66); } else " + b; break;
    case While: t = "int k" + l + " = 0; while ( k" + l + " < 1 ) { k" + l + " = k" + l + " + 1; " + b + " }"; break;
    case For: t = "for ( int i" + l + " = 0; i" + l + " < 1; i" + l + "++ ) " + b; break;
    case TryBody: t = "try " + b + " catch ( int e" + l + " ) { emit(" + n(200 + level) + "); }"; break;
    case CatchBody: t = "try { throw 2; } catch ( int e" + l + " ) " + b; break;
    case FinallyBody: t = "try { emit(" + n(300 + level) + "); } finally " + b; break;
    case GuardedTry: t = "try " + b + " finally { emit(" + n(400 + level) + "); }"; break;
    case Switch: t = "switch ( 1 ) { case 1: { " + b + " break; } }"; break;
    default: break;
  }
  return o + t + " emit(" + n(100 + level) + ");";
}
// what has to happen; an object is destroyed when its statement is left
static Exit expect(const Kind *kinds, unsigned level, unsigned depth, Exit e) {
  Exit out = Fall;
  if (level == depth) {
    if (e == Fall) wanted.push_back(77);
    out = e;
  } else {
    if (kinds[level] == FinallyBody) wanted.push_back(300 + level);
    out = expect(kinds, level + 1, depth, e);
    switch (kinds[level]) {
      case While:
      case For:
        if (out == Break || out == Continue) out = Fall;
        break;
      case Switch:
        if (out == Break) out = Fall;
        break;
      case TryBody:
        if (out == Throw) {
          wanted.push_back(200 + level);
          out = Fall;
        }
        break;
      case GuardedTry: // without a catch block the exception ends here
        wanted.push_back(400 + level);
        if (out == Throw) out = Fall;
        break;
      default: break;
    }
    if (out == Fall) wanted.push_back(100 + level);
  }
  wanted.push_back(1000 + 10 + level);
  return out;
}
static void exits(unsigned depth) {
  int32_t v = sx_i32("v");
  Kind kinds[4];
  char name[8] = "kind0";
  bool loop = false, choice = false;
  for (unsigned k = 0; k < depth; ++k) {
    name[4] = '0' + k;
    kinds[k] = (Kind)sx_choose(name, Kinds);
    if (kinds[k] == While || kinds[k] == For) loop = true, choice = false;
    if (kinds[k] == Switch) choice = true;
  }
  Exit e = (Exit)sx_choose("exit", Exits);
  if ((e == Break && !loop && !choice) || (e == Continue && (!loop || choice))) { // nothing to leave, or the switch is started again
    sx_assume(false);
    return;
  }
  bool ok = loadHere(classes(depth == 1) + "public void g(int v) throws {\n  " + nested(kinds, 0, depth, e) + "\n}\npublic void f(int v) { try { g(v); } catch ( int e ) { emit(99); } emit(0); }\n");
  sx_assert(ok, "the program is accepted");
  if (!ok) return;
  wanted.clear();
  if (expect(kinds, 0, depth, e) == Throw) wanted.push_back(99);
  wanted.push_back(0);
  trace.clear();
  auto r = call("f", {arg(v)});
  sx_assert(r.out == Returned, "the program runs to its end");
  size_t t = 0;
  for (int w : wanted) {
    if (t >= trace.size()) {
      sx_assert(false, "an object is not destroyed or a statement does not run");
      return;
    }
    int got = (int)sx_pinned_u64(trace[t++].val);
    if (got != w && getenv("DUMP")) fprintf(stderr, "want %d got %d\n", w, got);
    sx_assert(got == w, "an object is destroyed when its statement is left");
    if (got != w) return;
    if (w >= 1000) {
      sx_assert(t < trace.size(), "payload of a destroyed object");
      sx_assert_eq((uint64_t)(uint32_t)trace[t++].val, (uint64_t)(uint32_t)v, "payload of a destroyed object");
    }
  }
  sx_assert(t == trace.size(), "nothing else happens");
  sx_reach("left");
}
SX_CASE_SETUP(leave_one, empty) { exits(1); }
SX_CASE_SETUP(leave_two, empty) { exits(2); }
SX_CASE_SETUP(leave_three, empty) { exits(3); }
