// Lifetime of script objects.
#include "prog.h"
#include <algorithm>
#include <array>
using namespace P;

// ---------------------------------------------------------------- histories
// A script method executes a sequence of operations on two variables, a member
// chain and helper methods. The model counts references.
static const char *kHistory = R"(
public object Node {
  private int mId;
  public Node mNext;
  public void Constructor(int i) { mId = i; emit(1000 + i); }
  public void Destructor() { emit(2000 + mId); }
  public int number() const { return mId; }
  public void link(Node n) modify { mNext = n; }
  public Node self() const { return this; }
}
public void take(Node n) { emit(3); }
public void takeAndReplace(Node n, int i) { n = new Node(i); emit(3); }
public Node same(Node n) { return n; }
public Node make(int i) { Node n = new Node(i); return n; }
public int show(Node n) { if ( n ) { return n.number(); } return 0; }
public void history(int o0, int o1, int o2, int o3) throws {
  Node u;
  Node v;
  Node none;
  for ( int k = 0; k < 4; k++ ) {
    int op = o0;
    if ( k == 1 ) { op = o1; }
    if ( k == 2 ) { op = o2; }
    if ( k == 3 ) { op = o3; }
    int i = k + 1;
    switch ( op ) {
      case 0: { u = new Node(i); break; }
      case 1: { v = new Node(i); break; }
      case 2: { u = v; break; }
      case 3: { v = u; break; }
      case 4: { u = none; break; }
      case 5: { v = none; break; }
      case 6: { { Node t = u; emit(4); } break; }
      case 7: { { Node t = new Node(i); u = t; emit(4); } break; }
      case 8: { take(u); break; }
      case 9: { take(new Node(i)); break; }
      case 10: { v = same(u); break; }
      case 11: { make(i); break; }
      case 12: { u = make(i); break; }
      case 13: { if ( u ) { u.mNext = v; } break; }
      case 14: { if ( u ) { u.link(new Node(i)); } break; }
      case 15: { if ( u ) { v = u.mNext; } break; }
      case 16: { if ( u ) { u.mNext = none; } break; }
      case 17: { u = u; break; }
      case 18: { try { Node t = new Node(i); u = t; throw "x"; } catch ( string e ) { emit(5); } break; }
      case 19: { { Node t = u; u = v; v = t; } break; }
      case 20: { takeAndReplace(u, i); break; }
      case 21: { if ( u ) { u = u.mNext; } break; }
      case 22: { if ( u ) { v = u.self(); } break; }
      case 23: { for ( int j = 0; j < 2; j++ ) { Node t = new Node(i + 10 * j); if ( j == 0 ) { continue; } v = t; break; } break; }
      default: { break; }
    }
    emit(-1);
    emit(show(u));
    emit(show(v));
    if ( u ) { emit(show(u.mNext)); } else { emit(0); }
    emit(-2);
  }
}
)";
static const int kOps = 24;
struct Model {
  struct O {
    int rc = 0, next = 0;
  };
  std::map<int, O> objs;
  std::vector<int64_t> out; // events of the current segment
  int u = 0, v = 0;
  void ref(int o) {
    if (o) objs[o].rc++;
  }
  void drop(int o) {
    if (!o || --objs[o].rc) return;
    out.push_back(2000 + o);
    int n = objs[o].next;
    objs.erase(o);
    drop(n);
  }
  int make(int i) {
    objs[i] = O();
    out.push_back(1000 + i);
    return i;
  }
  void set(int &slot, int o) {
    ref(o);
    int old = slot;
    slot = o;
    drop(old);
  }
  void setNext(int o, int n) {
    ref(n);
    int old = objs[o].next;
    objs[o].next = n;
    drop(old);
  }
  void temp(int o) { ref(o), drop(o); }
  void op(int op, int i) {
    switch (op) {
    case 0: set(u, make(i)); break;
    case 1: set(v, make(i)); break;
    case 2: set(u, v); break;
    case 3: set(v, u); break;
    case 4: set(u, 0); break;
    case 5: set(v, 0); break;
    case 6: out.push_back(4); break;
    case 7: set(u, make(i)), out.push_back(4); break;
    case 8: out.push_back(3); break;
    case 9: { int o = make(i); ref(o); out.push_back(3); drop(o); break; }
    case 10: set(v, u); break;
    case 11: temp(make(i)); break;
    case 12: set(u, make(i)); break;
    case 13: if (u) setNext(u, v); break;
    case 14: if (u) setNext(u, make(i)); break;
    case 15: if (u) set(v, objs[u].next); break;
    case 16: if (u) setNext(u, 0); break;
    case 17: break;
    case 18: set(u, make(i)), out.push_back(5); break;
    case 19: std::swap(u, v); break;
    case 20: { int o = make(i); ref(o); out.push_back(3); drop(o); break; }
    case 21: if (u) set(u, objs[u].next); break;
    case 22: if (u) set(v, u); break;
    case 23: temp(make(i)), set(v, make(i + 10)); break;
    }
  }
};
static void historySetup() {
  H::load(kHistory);
}
static void history(int length) {
  int ops[4];
  for (int k = 0; k < 4; ++k) ops[k] = k < length ? (int)sx_choose(("op" + std::to_string(k)).c_str(), kOps) : kOps;
  auto r = H::call("history", {H::arg(ops[0]), H::arg(ops[1]), H::arg(ops[2]), H::arg(ops[3])});
  std::string msg = "operations";
  for (int k = 0; k < length; ++k) msg += " " + std::to_string(ops[k]);
  for (auto &e : H::trace) sx_observe((uint64_t)e.val);
  sx_assert(r.out == H::Returned, (msg + ": normal return").c_str());
  Model m;
  size_t p = 0;
  auto segment = [&](int64_t end, const char *what) {
    std::vector<int64_t> got, want = m.out;
    while (p < H::trace.size() && (end == 0 || H::trace[p].val != end)) got.push_back(H::trace[p++].val);
    ++p;
    // the order of events within one statement is not prescribed
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    sx_assert(got == want, (msg + ": " + what).c_str());
    m.out.clear();
  };
  for (int k = 0; k < 4; ++k) {
    m.op(ops[k], k + 1);
    segment(-1, "objects created and destroyed by a statement");
    m.out = {m.u, m.v, m.u ? m.objs[m.u].next : 0};
    segment(-2, "objects reachable after a statement");
  }
  m.set(m.u, 0);
  m.set(m.v, 0);
  segment(0, "objects destroyed at the end of the method");
  sx_assert(true, "");
}
SX_CASE_SETUP(histories, historySetup) { history(3); }
SX_CASE_SETUP(T_long_histories, historySetup) { history(4); }

// ---------------------------------------------------------------- ways out of a block
static S construct(int kind, int id, Block inner) {
  switch (kind) {
  case 0: return loop(WHILE, id, Par(2), inner);
  case 1: return loop(FOR, id, Par(2), inner);
  case 2: return loop(FOREACH, id, Par(2), inner);
  case 3: {
    Block c0 = inner, d = {emit(200 + id), BREAK};
    c0.push_back(BREAK);
    return sw(id, Par(0), {0}, {c0, d}, true);
  }
  case 4: return iff({Par(1), '<', Par(0)}, inner, {obj(40 + id, 140 + id)});
  case 5: return tryy(inner, {0}, {{obj(50 + id, 150 + id), emit(8)}}, true, {obj(60 + id, 160 + id)});
  default: return scope(inner);
  }
}
static void exits(int depth) {
  for (int o = 0; o < 7; ++o)
    for (int i = 0; i < (depth > 1 ? 7 : 1); ++i)
      for (int j = 0; j < 5; ++j) {
        int inner = depth > 1 ? i : o;
        bool jumpy = inner < 4 || o < 4, inSwitch = inner == 3 || (inner > 3 && o == 3);
        if (j < 2 && !jumpy) continue;
        if (j == 1 && inSwitch) continue;
        C c{inner < 3 ? L(depth) : o < 3 ? L(1) : Par(0), '=', Par(1)};
        S jump = j == 0 ? S(BREAK) : j == 1 ? S(CONTINUE) : j == 2 ? ret(Par(0)) : j == 3 ? thr(0, Par(0)) : emit(9);
        Block b = {obj(3, 103), iff(c, {obj(4, 104), jump}), emit(7)};
        if (depth > 1) b = {obj(2, 102), construct(i, 2, b), emit(6)};
        add({obj(1, 101), construct(o, 1, b), emit(5)});
      }
  loadAll();
}
static void exits1() { exits(1); }
static void exits2() { exits(2); }
SX_CASE_SETUP(block_exits, exits1) { run(2); }
SX_CASE_SETUP(nested_block_exits, exits2) { run(2); }
static void callExits() {
  // objects of a callee that is left by return or exception
  for (int j = 0; j < 3; ++j)
    add({obj(1, 101), scope({obj(2, 102), iff({Par(0), '=', Par(1)}, {j == 0 ? ret(K(5)) : j == 1 ? thr(0, K(6)) : thr(3, K(0))}), emit(7)}), emit(8)});
  firstCase = methods.size();
  for (int j = 0; j < 3; ++j) {
    add({obj(3, 103), callp(j, Par(0)), emit(9)});
    add({obj(3, 103), tryy({obj(4, 104), calle(j, Par(0)), emit(9)}, {0, 3}, {{obj(5, 105)}, {emit(10)}}), emit(11)});
    add({obj(3, 103), loop(FOR, 7, Par(2), {obj(4, 104), tryy({callp(j, L(7))}, {0}, {{CONTINUE}}), emit(10)}), emit(11)});
    add({obj(3, 103), tryy({loop(FOREACH, 7, Par(2), {obj(4, 104), callp(j, L(7)), emit(10)})}, {4}, {{obj(6, 106), ret(K(3))}}, true, {obj(8, 108)}), emit(11)});
  }
  loadAll();
}
SX_CASE_SETUP(call_exits, callExits) { run(2); }

// ---------------------------------------------------------------- single situations
struct Situation {
  const char *text;                         // body of a method with parameters a (int) and c (bool)
  std::vector<std::vector<int>> yes, no;    // events between the marks for c and !c
};
static const char *kSituationPrelude = R"(
public object Item {
  private int mId;
  public Item mPeer;
  public void Constructor(int i) { mId = i; emit(1000 + i); }
  public void Destructor() { emit(2000 + mId); }
  public int number() const { return mId; }
  public Item peer() const { return mPeer; }
}
public object Keeper {
  private Item mItem;
  public void Constructor(int i) { mItem = new Item(i); }
  public void keep(Item i) modify { mItem = i; }
  public Item item() const { return mItem; }
  public void drop() modify { Item none; mItem = none; }
}
public object Failing {
  public Item mItem;
  public void Constructor(int i, bool fail) throws { mItem = new Item(i); if ( fail ) { throw "failed"; } }
}
public object Parent { protected Item mParentItem; public void Constructor(int i) { mParentItem = new Item(i); } }
public object Child extends Parent { private Item mChildItem; public void Constructor(int i) { base.Constructor(i); mChildItem = new Item(i + 1); } }
public object Grandchild extends Child { private Item mOwn; public void Constructor(int i) { base.Constructor(i); mOwn = new Item(i + 2); } public void Destructor() { emit(77); } }
public Item makeItem(int i) { return new Item(i); }
public Item pick(bool c, Item x, Item y) { if ( c ) { return x; } return y; }
public void consume(Item x, Item y) { emit(3); }
public Item early(bool c) { Item x = new Item(1); if ( c ) { return x; } Item y = new Item(2); return y; }
public Item nested(bool c) { for ( int i = 1; i < 3; i++ ) { Item x = new Item(i); { Item y = x; if ( c ) { return y; } } } Item z = new Item(9); return z; }
public int useTwo(Item x, Item y) { return x.number() * 10 + y.number(); }
public void throwIf(bool c, Item x) throws { Item own = x; if ( c ) { throw "no"; } }
public Item recurse(int n) { Item x = new Item(n); if ( n > 1 ) { return recurse(n - 1); } return x; }
)";
static const std::vector<Situation> kSituations = {
    {"Item x; { Item y = new Item(1); if ( c ) { x = y; } } mark(); emit(x ? x.number() : 0);", {{1001}, {1, 2001}}, {{1001, 2001}, {0}}},
    {"Item x = early(c); mark(); emit(x.number());", {{1001}, {1, 2001}}, {{1001, 1002, 2001}, {2, 2002}}},
    {"Item x = nested(c); mark(); emit(x.number());", {{1001}, {1, 2001}}, {{1001, 2001, 1002, 2002, 1009}, {9, 2009}}},
    {"Item x = new Item(1); Item y = new Item(2); Item z = pick(c, x, y); mark(); Item none; x = none; mark(); y = none; mark(); emit(z.number());", {{1001, 1002}, {}, {2002}, {1, 2001}}, {{1001, 1002}, {2001}, {}, {2, 2002}}},
    {"consume(new Item(1), makeItem(2)); mark();", {{1001, 1002, 3, 2001, 2002}, {}}, {{1001, 1002, 3, 2001, 2002}, {}}},
    {"int x = useTwo(makeItem(1), new Item(2)); mark(); emit(x);", {{1001, 1002, 2001, 2002}, {12}}, {{1001, 1002, 2001, 2002}, {12}}},
    {"int x = (new Item(4)).number(); mark(); emit(x);", {{1004, 2004}, {4}}, {{1004, 2004}, {4}}},
    {"if ( makeItem(1) ) { emit(5); } mark();", {{1001, 5, 2001}, {}}, {{1001, 5, 2001}, {}}},
    {"Item x = c ? new Item(1) : makeItem(2); mark();", {{1001}, {2001}}, {{1002}, {2002}}},
    {"Keeper k = new Keeper(1); mark(); if ( c ) { k.keep(new Item(2)); } else { k.drop(); } mark();", {{1001}, {1002, 2001}, {2002}}, {{1001}, {2001}, {}}},
    {"Item x; { Keeper k = new Keeper(1); x = k.item(); if ( c ) { k.keep(x); } } mark(); emit(x.number());", {{1001}, {1, 2001}}, {{1001}, {1, 2001}}},
    {"Item x; { Keeper k = new Keeper(1); Keeper l = k; if ( c ) { l.keep(new Item(2)); } x = k.item(); } mark(); emit(x.number());", {{1001, 1002, 2001}, {2, 2002}}, {{1001}, {1, 2001}}},
    {"Item x = new Item(1); x.mPeer = new Item(2); Item y = x.peer(); mark(); x = y; mark(); emit(x.number());", {{1001, 1002}, {2001}, {2, 2002}}, {{1001, 1002}, {2001}, {2, 2002}}},
    {"Item x = new Item(1); x.mPeer = new Item(2); x = x.mPeer; mark(); emit(x.number());", {{1001, 1002, 2001}, {2, 2002}}, {{1001, 1002, 2001}, {2, 2002}}},
    {"try { Failing f = new Failing(1, c); emit(5); } catch ( string e ) { emit(6); } mark();", {{1001, 2001, 6}, {}}, {{1001, 5, 2001}, {}}},
    {"Item x = new Item(1); try { throwIf(c, x); emit(5); } catch ( string e ) { emit(6); } mark(); emit(x.number());", {{1001, 6}, {1, 2001}}, {{1001, 5}, {1, 2001}}},
    {"try { throwIf(c, new Item(1)); emit(5); } catch ( string e ) { emit(6); } mark();", {{1001, 2001, 6}, {}}, {{1001, 5, 2001}, {}}},
    {"{ Child k = new Child(1); } mark();", {{1001, 1002, 2001, 2002}, {}}, {{1001, 1002, 2001, 2002}, {}}},
    {"{ Grandchild k = new Grandchild(1); } mark();", {{1001, 1002, 1003, 77, 2001, 2002, 2003}, {}}, {{1001, 1002, 1003, 77, 2001, 2002, 2003}, {}}},
    {"Child k = new Child(1); { Parent p = k; mark(); } mark();", {{1001, 1002}, {}, {2001, 2002}}, {{1001, 1002}, {}, {2001, 2002}}},
    {"{ Parent p = new Child(1); mark(); } mark();", {{1001, 1002}, {2001, 2002}, {}}, {{1001, 1002}, {2001, 2002}, {}}},
    {"Item x = recurse(3); mark(); emit(x.number());", {{1003, 1002, 1001, 2002, 2003}, {1, 2001}}, {{1003, 1002, 1001, 2002, 2003}, {1, 2001}}},
    {"Item x = new Item(1); if ( c ) { Item y = x; x = new Item(2); mark(); emit(y.number()); } else { mark(); } mark();", {{1001, 1002}, {1, 2001}, {2002}}, {{1001}, {}, {2001}}},
    {"int n = 0; while ( n < 2 ) { Item x = new Item(n + 1); n++; mark(); if ( c ) { break; } }", {{1001}, {2001}}, {{1001}, {2001, 1002}, {2002}}},
    {"{ Object x = new Item(1); mark(); } mark();", {{1001}, {2001}, {}}, {{1001}, {2001}, {}}},
    {"var x = new Item(1); mark(); if ( c ) { x = makeItem(2); } mark();", {{1001}, {1002, 2001}, {2002}}, {{1001}, {}, {2001}}},
    {"Item x = new Item(1); Item y const = x; mark(); emit(y.number());", {{1001}, {1, 2001}}, {{1001}, {1, 2001}}},
    {"switch ( c ? 1 : 2 ) { case 1: { Item x = new Item(1); break; } default: { Item x = new Item(2); break; } } mark();", {{1001, 2001}, {}}, {{1002, 2002}, {}}},
    {"globalItem = new Item(1); mark(); if ( c ) { globalItem = new Item(2); } mark(); Item none; globalItem = none;", {{1001}, {1002, 2001}, {2002}}, {{1001}, {}, {2001}}},
};
static void situationSetup() {
  source = std::string(kSituationPrelude) + "public Item globalItem;\npublic void mark() { emit(-1); }\npublic void keepOne() { globalItem = new Item(50); }\npublic void keepChain() { globalItem = new Item(51); globalItem.mPeer = new Item(52); }\npublic void makeCycle() { Item x = new Item(53); Item y = new Item(54); x.mPeer = y; y.mPeer = x; }\n";
  for (size_t i = 0; i < kSituations.size(); ++i) source += "public void s" + std::to_string(i) + "(int a, bool c) throws {\n" + kSituations[i].text + "\n}\n";
  if (getenv("DUMP")) fputs(source.c_str(), stderr);
  H::load(source);
}
static void checkSegments(const std::vector<std::vector<int>> &want, const std::string &msg) {
  std::vector<std::vector<int>> got(1);
  for (auto &e : H::trace)
    if (e.val == -1) got.emplace_back();
    else got.back().push_back((int)e.val);
  sx_assert(got.size() == want.size(), msg.c_str());
  for (size_t i = 0; i < want.size(); ++i) {
    auto g = got[i], w = want[i];
    std::sort(g.begin(), g.end());
    std::sort(w.begin(), w.end());
    sx_assert(g == w, (msg + " (segment " + std::to_string(i) + ")").c_str());
  }
}
SX_CASE_SETUP(situations, situationSetup) {
  unsigned i = sx_choose("situation", (unsigned)kSituations.size());
  bool c = sx_bool("c");
  auto r = H::call("s" + std::to_string(i), {H::arg(1), H::arg(c)});
  sx_assert(r.out == H::Returned, kSituations[i].text);
  checkSegments(c ? kSituations[i].yes : kSituations[i].no, kSituations[i].text);
}
// nothing is left when the machine ends; the globals are destroyed then
SX_CASE_SETUP(program_end, situationSetup) {
  unsigned i = sx_choose("situation", (unsigned)kSituations.size()), k = sx_choose("keep", 4);
  bool c = sx_bool("c");
  H::call("s" + std::to_string(i), {H::arg(1), H::arg(c)});
  if (k) {
    auto r = H::call(k == 1 ? "keepOne" : k == 2 ? "keepChain" : "makeCycle");
    sx_assert(r.out == H::Returned, "global variable");
  }
  delete H::vm;
  std::map<int64_t, int> alive;
  for (auto &e : H::trace) {
    if (e.val >= 1000 && e.val < 2000) alive[e.val - 1000]++;
    if (e.val >= 2000 && e.val < 3000) alive[e.val - 2000]--;
  }
  for (auto &a : alive) sx_assert(a.second == 0 || (a.second == 1 && a.first > 52), "objects destroyed as often as created when the program has ended");
}
// see known-findings.jsonl
static void thrownSetup() {
  source = std::string(kSituationPrelude) + "public void s(bool c) throws {\n try { if ( c ) { throw new Item(1); } } catch ( Item i ) { emit(i.number()); }\n}\n";
  H::load(source);
}
SX_CASE_SETUP(thrown_objects, thrownSetup) {
  bool c = sx_bool("c");
  auto r = H::call("s", {H::arg(c)});
  sx_assert(r.out == H::Returned, "thrown object");
  delete H::vm;
  if (c) checkSegments({{1001, 1, 2001}}, "a thrown object is destroyed when its handler has ended");
  else sx_assert(H::trace.empty(), "no object");
}
