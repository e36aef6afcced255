// Collections of the script library against a sequence model.
#include "vm.h"
#include <algorithm>
using namespace H;

typedef std::vector<int32_t> Model;
static const int32_t OutOfBounds = -777, Failed = -778;

// ---------------------------------------------------------------- the script
// Every operation is a method of Box, which reports results and exceptions.
static std::string guarded(const char *head, const std::string &body) {
  return std::string("  public void ") + head + " modify { try { " + body + " } catch ( OutOfBoundsException e ) { emit(-777); } catch ( Exception e ) { emit(-778); } }\n";
}
static std::string box(const std::string &type, const std::string &extra, bool copy = true, const char *make = "") {
  std::string s = "import System.Collections." + type.substr(0, type.find('<')) + ";\nimport System.Exception;\npublic object Box {\n  public " + type + " c;\n";
  s += "  public void Constructor() { c = new " + type + "(" + make + "); }\n";
  s += guarded("at(int i, int v)", "emit(c.at(i));") + guarded("index(int i, int v)", "emit(c[i]);") + guarded("clear(int i, int v)", "c.clear();");
  if (copy) s += guarded("dup(int i, int v)", type + " d = copy c; emit(d.size()); c.clear(); for ( int k = 0; k < d.size(); k++ ) { emit(d.at(k)); } c = d;");
  s += extra;
  s += "  public void dump() const { emit(c.size()); emitb(c.empty()); for ( int i = 0; i < c.size(); i++ ) { emit(c.at(i)); }\n"
       "    var it = c.getIterator(); while ( it.hasNext() ) { int n = it.next(); emit(n); }\n"
       "    foreach ( int x : c ) { emit(x); } }\n}\n"
       "private Box b;\npublic void fresh() modify { b = new Box(); }\npublic void dump() { b.dump(); }\n";
  return s;
}
static const char *kSearch[] = {"indexOf", "contains"};
static std::string search() { return guarded("indexOf(int i, int v)", "emit(c.indexOf(v));") + guarded("contains(int i, int v)", "emitb(c.contains(v));"); }
static std::string sequence() {
  return search() + guarded("erase(int i, int v)", "c.erase(i);") + guarded("first(int i, int v)", "emit(c.first());") + guarded("last(int i, int v)", "emit(c.last());") +
         guarded("push_back(int i, int v)", "c.push_back(v);") + guarded("push_front(int i, int v)", "c.push_front(v);") + guarded("pop_back(int i, int v)", "c.pop_back();") + guarded("pop_front(int i, int v)", "c.pop_front();");
}
static std::string forward(std::initializer_list<const char *> ops) {
  std::string s;
  for (auto *o : ops) s += std::string("public void ") + o + "(int i, int v) modify { b." + o + "(i, v); }\n";
  return s;
}
#define SEQ "at", "index", "clear", "dup", "indexOf", "contains", "erase", "first", "last", "push_back", "push_front", "pop_back", "pop_front"

static std::string library() {
  const char *repo = getenv("VERIF_REPO");
  return std::string(repo ? repo : "/repo") + "/Projects/Library";
}
static std::string lib;
static void start(const std::string &src) {
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  lib = library();
  load(src, false, lib.c_str());
  call("fresh", {});
}
static void list() { start(box("List<int>", sequence()) + forward({SEQ})); }
static void vector() { start(box("Vector<int>", sequence() + guarded("insert(int i, int v)", "c.insert(i, v);")) + forward({SEQ, "insert"})); }
static void doubleLinked() { start(box("DoubleLinkedList<int>", sequence()) + forward({SEQ})); }
static void stack() {
  start(box("Stack<int>", search() + guarded("erase(int i, int v)", "c.erase(i);") + guarded("push(int i, int v)", "c.push(v);") + guarded("pop(int i, int v)", "emit(c.pop());") + guarded("peek(int i, int v)", "emit(c.peek());")) +
        forward({"at", "index", "clear", "dup", "indexOf", "contains", "erase", "push", "pop", "peek"}));
}
static void queue() {
  start(box("Queue<int>", guarded("enqueue(int i, int v)", "c.enqueue(v);") + guarded("dequeue(int i, int v)", "emit(c.dequeue());") + guarded("peek(int i, int v)", "emit(c.peek());")) +
        forward({"at", "index", "clear", "dup", "enqueue", "dequeue", "peek"}));
}
static std::string setOps() { return search() + guarded("erase(int i, int v)", "c.erase(i);") + guarded("insert(int i, int v)", "c.insert(v);") + guarded("first(int i, int v)", "emit(c.first());") + guarded("last(int i, int v)", "emit(c.last());"); }
#define SET "at", "index", "clear", "dup", "indexOf", "contains", "erase", "insert", "first", "last"
static void set() { start(box("Set<int>", setOps()) + forward({SET})); }
static void multiset() { start(box("Set<int>", setOps(), true, "true") + forward({SET})); }

// ---------------------------------------------------------------- the model
static bool multi;
static void expect(const std::string &op, Model &m, int32_t i, int32_t v, std::vector<int32_t> &out) {
  int32_t n = (int32_t)m.size();
  auto find = [&] {
    for (int32_t k = 0; k < n; ++k)
      if (m[k] == v) return k;
    return -1;
  };
  auto bounded = [&](int32_t limit) {
    if (i >= 0 && i < limit) return true;
    out.push_back(OutOfBounds);
    return false;
  };
  auto filled = [&] {
    if (n) return true;
    out.push_back(OutOfBounds);
    return false;
  };
  auto pinned = [&](int32_t x) { return (int32_t)sx_pinned_u64((uint64_t)(int64_t)x); };
  if (op == "at" || op == "index") {
    if (bounded(n)) out.push_back(m[pinned(i)]);
  } else if (op == "clear") m.clear();
  else if (op == "dup") {
    out.push_back(n);
    out.insert(out.end(), m.begin(), m.end());
  } else if (op == "indexOf") out.push_back(find());
  else if (op == "contains") out.push_back(find() >= 0);
  else if (op == "erase") {
    if (bounded(n)) m.erase(m.begin() + pinned(i));
  } else if (op == "first") {
    if (filled()) out.push_back(m.front());
  } else if (op == "last" || op == "peek") {
    if (filled()) out.push_back(m.back());
  } else if (op == "peek_front") {
    if (filled()) out.push_back(m.front());
  } else if (op == "push_back" || op == "push" || op == "enqueue") m.push_back(v);
  else if (op == "push_front") m.insert(m.begin(), v);
  else if (op == "pop_back") {
    if (filled()) m.pop_back();
  } else if (op == "pop") {
    if (filled()) out.push_back(m.back()), m.pop_back();
  } else if (op == "pop_front") {
    if (filled()) m.erase(m.begin());
  } else if (op == "dequeue") {
    if (filled()) out.push_back(m.front()), m.erase(m.begin());
  } else if (op == "insert") {
    if (bounded(n + 1)) m.insert(m.begin() + pinned(i), v);
  } else if (op == "insert_sorted") {
    int32_t k = 0;
    while (k < n && !(v < m[k])) ++k;
    if (!multi && k > 0 && m[k - 1] == v) out.push_back(Failed);
    else m.insert(m.begin() + k, v);
  }
}
static void compare(const std::vector<int32_t> &out, const char *what, const char *values) {
  sx_assert(trace.size() == out.size(), what);
  for (size_t k = 0; k < out.size(); ++k) sx_assert_eq((uint64_t)(uint32_t)trace[k].val, (uint64_t)(uint32_t)out[k], values);
}
static void state(const Model &m) {
  std::vector<int32_t> out = {(int32_t)m.size(), m.empty()};
  for (int k = 0; k < 3; ++k) out.insert(out.end(), m.begin(), m.end());
  trace.clear();
  auto r = call("dump", {});
  sx_assert(r.out == Returned, "the content of the collection can be read");
  compare(out, "number of elements", "elements");
}
static void run(const char *op, const char *meaning, Model &m, int32_t i, int32_t v) {
  std::vector<int32_t> out;
  trace.clear();
  auto r = call(op, {arg(i), arg(v)});
  sx_assert(r.out == Returned, "the operation ends");
  expect(meaning, m, i, v, out);
  compare(out, "results of the operation", "result of the operation");
}
static void label(char *to, const char *text, unsigned n) {
  while (*text) *to++ = *text++;
  *to++ = '0' + n;
  *to = 0;
}
typedef std::vector<std::pair<const char *, const char *>> Ops;
static void history(const Ops &ops, const char *add, const char *addMeaning, unsigned most, unsigned steps, bool every = false) {
  Model m;
  unsigned n = sx_choose("size", most + 1);
  char name[8];
  for (unsigned k = 0; k < n; ++k) {
    label(name, "e", k);
    run(add, addMeaning, m, 0, sx_i32(name));
  }
  for (unsigned s = 0; s < steps; ++s) {
    label(name, "op", s);
    unsigned o = sx_choose(name, ops.size());
    label(name, "v", s);
    int32_t v = sx_i32(name);
    label(name, "i", s);
    int32_t i = sx_i32(name);
    sx_assume(i >= -2 && i <= 5);
    run(ops[o].first, ops[o].second, m, i, v);
    if (every || s + 1 == steps) state(m);
  }
  sx_reach("end");
}
static const Ops kSeq = {{"at", "at"}, {"index", "index"}, {"clear", "clear"}, {"dup", "dup"}, {"indexOf", "indexOf"}, {"contains", "contains"}, {"erase", "erase"}, {"first", "first"}, {"last", "last"}, {"push_back", "push_back"}, {"push_front", "push_front"}, {"pop_back", "pop_back"}, {"pop_front", "pop_front"}};
static const Ops kChange = {{"clear", "clear"}, {"dup", "dup"}, {"erase", "erase"}, {"push_back", "push_back"}, {"push_front", "push_front"}, {"pop_back", "pop_back"}, {"pop_front", "pop_front"}, {"first", "first"}, {"last", "last"}};
static Ops with(Ops o, const char *a, const char *b) {
  o.push_back({a, b});
  return o;
}
static const Ops kStack = {{"at", "at"}, {"index", "index"}, {"clear", "clear"}, {"dup", "dup"}, {"indexOf", "indexOf"}, {"contains", "contains"}, {"erase", "erase"}, {"push", "push"}, {"pop", "pop"}, {"peek", "peek"}};
static const Ops kQueue = {{"at", "at"}, {"index", "index"}, {"clear", "clear"}, {"dup", "dup"}, {"enqueue", "enqueue"}, {"dequeue", "dequeue"}, {"peek", "peek_front"}};
static const Ops kSet = {{"at", "at"}, {"index", "index"}, {"clear", "clear"}, {"dup", "dup"}, {"indexOf", "indexOf"}, {"contains", "contains"}, {"erase", "erase"}, {"insert", "insert_sorted"}, {"first", "first"}, {"last", "last"}};

SX_CASE_SETUP(list_one, list) { history(kSeq, "push_back", "push_back", 4, 1); }
SX_CASE_SETUP(list_two, list) { history(kChange, "push_back", "push_back", 3, 2); }
SX_CASE_SETUP(T_list_three, list) { history(kChange, "push_back", "push_back", 2, 3); }
SX_CASE_SETUP(list_from_front, list) { history(kChange, "push_front", "push_front", 3, 1); }
SX_CASE_SETUP(vector_one, vector) { history(with(kSeq, "insert", "insert"), "push_back", "push_back", 4, 1); }
SX_CASE_SETUP(vector_two, vector) { history(with(kChange, "insert", "insert"), "push_back", "push_back", 3, 2); }
SX_CASE_SETUP(T_vector_three, vector) { history(with(kChange, "insert", "insert"), "push_back", "push_back", 2, 3); }
SX_CASE_SETUP(double_linked_one, doubleLinked) { history(kSeq, "push_back", "push_back", 4, 1); }
SX_CASE_SETUP(double_linked_two, doubleLinked) { history(kChange, "push_back", "push_back", 3, 2); }
SX_CASE_SETUP(double_linked_from_front, doubleLinked) { history(kChange, "push_front", "push_front", 3, 1); }
SX_CASE_SETUP(stack_one, stack) { history(kStack, "push", "push", 4, 1); }
SX_CASE_SETUP(stack_two, stack) { history(kStack, "push", "push", 3, 2); }
SX_CASE_SETUP(queue_one, queue) { history(kQueue, "enqueue", "enqueue", 4, 1); }
SX_CASE_SETUP(queue_two, queue) { history(kQueue, "enqueue", "enqueue", 3, 2); }
SX_CASE_SETUP(set_one, set) { history(kSet, "insert", "insert_sorted", 3, 1); }
SX_CASE_SETUP(set_two, set) { history(kSet, "insert", "insert_sorted", 2, 2); }
SX_CASE_SETUP(multiset_one, multiset) {
  multi = true;
  history(kSet, "insert", "insert_sorted", 3, 1);
}

// ---------------------------------------------------------------- iterators
// Both directions, peek and reset, on lists after one change.
static void iterators() {
  start("import System.Collections.List;\nimport System.Collections.Queue;\nimport System.Exception;\n"
        "public object Box {\n  public List<int> c;\n  public Queue<int> q;\n  public void Constructor() { c = new List<int>(); q = new Queue<int>(); }\n" +
        sequence() +
        "  public void reverse() modify { var it = c.getReverseIterator(); while ( it.hasNext() ) { int n = it.next(); emit(n); int m = it.current(); emit(m); } }\n"
        "  public void peeks() modify { var it = c.getIterator(); while ( it.hasNext() ) { int n = it.next(); emit(n); if ( it.hasNext() ) { int m = it.peek(); emit(m); } } }\n"
        "  public void again() modify { var it = c.getIterator(); if ( it.hasNext() ) { int n = it.next(); emit(n); } it.reset(); if ( it.hasNext() ) { int n = it.next(); emit(n); } }\n"
        "  public void back() modify { var it = c.getIterator(); while ( it.hasNext() ) { int n = it.next(); } if ( c.size() > 0 ) { while ( it.hasPrevious() ) { int n = it.previous(); emit(n); } } }\n"
        "  public void beyond() modify { var it = c.getIterator(); while ( it.hasNext() ) { int n = it.next(); } try { int n = it.next(); emit(n); } catch ( OutOfBoundsException e ) { emit(-777); } }\n"
        "  public void queued() modify { foreach ( int x : c ) { q.enqueue(x); } var it = q.getReverseIterator(); while ( it.hasNext() ) { int n = it.next(); emit(n); } }\n}\n"
        "private Box b;\npublic void fresh() modify { b = new Box(); }\npublic void reverse() modify { b.reverse(); }\npublic void peeks() modify { b.peeks(); }\npublic void again() modify { b.again(); }\n"
        "public void back() modify { b.back(); }\npublic void beyond() modify { b.beyond(); }\npublic void queued() modify { b.queued(); }\n" +
        forward({"erase", "push_back", "push_front", "pop_back", "pop_front"}));
}
SX_CASE_SETUP(list_iterators, iterators) {
  static const char *ops[] = {"erase", "push_back", "push_front", "pop_back", "pop_front"};
  Model m;
  unsigned n = sx_choose("size", 4);
  char name[8];
  for (unsigned k = 0; k < n; ++k) {
    label(name, "e", k);
    run("push_back", "push_back", m, 0, sx_i32(name));
  }
  int32_t i = sx_i32("i"), v = sx_i32("v");
  sx_assume(i >= 0 && i <= 3);
  unsigned o = sx_choose("op", 5), how = sx_choose("how", 6);
  run(ops[o], ops[o], m, i, v);
  static const char *walks[] = {"reverse", "peeks", "again", "back", "beyond", "queued"};
  std::vector<int32_t> out;
  int32_t size = (int32_t)m.size();
  switch (how) {
    case 0:
      for (int32_t k = size; k--;) out.push_back(m[k]), out.push_back(m[k]);
      break;
    case 1:
      for (int32_t k = 0; k < size; ++k) {
        out.push_back(m[k]);
        if (k + 1 < size) out.push_back(m[k + 1]);
      }
      break;
    case 2:
      if (size) out = {m[0], m[0]};
      break;
    case 3:
      for (int32_t k = size - 1; k-- > 0;) out.push_back(m[k]);
      break;
    case 4: out = {OutOfBounds}; break;
    case 5: out.assign(m.rbegin(), m.rend()); break;
  }
  trace.clear();
  auto r = call(walks[how], {});
  sx_assert(r.out == Returned, "the iteration ends");
  compare(out, "number of iterated elements", "iterated element");
  sx_reach(walks[how]);
}

// ---------------------------------------------------------------- maps
static void map() {
  start("import System.Collections.Map;\nimport System.Exception;\npublic object Box {\n  public Map<int, int> c;\n  public void Constructor() { c = new Map<int, int>(); }\n" +
        guarded("insert(int i, int v)", "c.insert(i, v);") + guarded("put(int i, int v)", "c.put(i, v);") + guarded("get(int i, int v)", "emit(c.get(i));") + guarded("subscript(int i, int v)", "emit(c[i]);") +
        guarded("contains(int i, int v)", "emitb(c.contains(i));") + guarded("indexOf(int i, int v)", "emit(c.indexOf(i));") + guarded("remove(int i, int v)", "c.remove(i);") + guarded("first(int i, int v)", "emit(c.first());") +
        guarded("last(int i, int v)", "emit(c.last());") + guarded("clear(int i, int v)", "c.clear();") + guarded("dup(int i, int v)", "Map<int, int> d = copy c; c.clear(); emit(d.size()); c = d;") +
        "  public void dump() const { emit(c.size()); emitb(c.empty()); foreach ( Object o : c ) { var p = Pair<int, int> o; emit(p.first); emit(p.second); } }\n}\n"
        "private Box b;\npublic void fresh() modify { b = new Box(); }\npublic void dump() { b.dump(); }\n" +
        forward({"insert", "put", "get", "subscript", "contains", "indexOf", "remove", "first", "last", "clear", "dup"}));
}
typedef std::vector<std::pair<int32_t, int32_t>> Pairs;
static void mapStep(const char *op, Pairs &m, int32_t key, int32_t v) {
  std::vector<int32_t> out;
  trace.clear();
  auto r = call(op, {arg(key), arg(v)});
  sx_assert(r.out == Returned, "the operation ends");
  std::string o = op;
  int32_t at = -1;
  if (o != "insert" && o != "first" && o != "last" && o != "clear" && o != "dup")
    for (size_t k = 0; k < m.size() && at < 0; ++k)
      if (m[k].first == key) at = (int32_t)k;
  if (o == "insert") m.push_back({key, v});
  else if (o == "put") {
    if (at >= 0) m[at].second = v;
    else out.push_back(Failed);
  } else if (o == "get" || o == "subscript") out.push_back(at >= 0 ? m[at].second : Failed);
  else if (o == "contains") out.push_back(at >= 0);
  else if (o == "indexOf") out.push_back(at);
  else if (o == "remove") {
    if (at >= 0) m.erase(m.begin() + at);
  } else if (o == "first") out.push_back(m.empty() ? OutOfBounds : m.front().second);
  else if (o == "last") out.push_back(m.empty() ? OutOfBounds : m.back().second);
  else if (o == "clear") m.clear();
  else if (o == "dup") out.push_back((int32_t)m.size());
  compare(out, "results of the operation", "result of the operation");
}
static void maps(unsigned most, unsigned steps) {
  static const char *ops[] = {"insert", "put", "get", "subscript", "contains", "indexOf", "remove", "first", "last", "clear", "dup"};
  Pairs m;
  unsigned n = sx_choose("size", most + 1);
  char name[8];
  for (unsigned k = 0; k < n; ++k) {
    label(name, "k", k);
    int32_t key = sx_i32(name);
    label(name, "e", k);
    mapStep("insert", m, key, sx_i32(name));
  }
  for (unsigned s = 0; s < steps; ++s) {
    label(name, "op", s);
    unsigned o = sx_choose(name, 11);
    label(name, "key", s);
    int32_t key = sx_i32(name);
    label(name, "v", s);
    mapStep(ops[o], m, key, sx_i32(name));
  }
  std::vector<int32_t> out = {(int32_t)m.size(), m.empty()};
  for (auto &p : m) out.push_back(p.first), out.push_back(p.second);
  trace.clear();
  auto r = call("dump", {});
  sx_assert(r.out == Returned, "the content of the map can be read");
  compare(out, "number of entries", "entries");
  sx_reach("end");
}
SX_CASE_SETUP(map_one, map) { maps(3, 1); }
SX_CASE_SETUP(map_two, map) { maps(2, 2); }
