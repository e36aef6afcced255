// C25: the text objects of the script library (String and its iterators)
#include "vm.h"
using namespace H;

// Every operation is a method taking two texts and two numbers; what it returns is reported.
struct Op {
  const char *name, *body;
};
static const Op OPS[] = {
    {"length", "emit(s.Length());"},
    {"charAt", "emits(s.CharAt(i));"},
    {"index", "emits(s[i]);"},
    {"contains", "emitb(s.Contains(a));"},
    {"endsWith", "emitb(s.EndsWith(a));"},
    {"startsWith", "emitb(s.StartsWith(a));"},
    {"indexOf", "emit(s.IndexOf(a));"},
    {"indexFrom", "emit(s.IndexOf(a, i));"},
    {"lastIndexOf", "emit(s.LastIndexOf(a));"},
    {"replace", "emitb(s.Replace(a, b));"},
    {"replaceAll", "emitb(s.ReplaceAll(a, b));"},
    {"removeCharAt", "s.RemoveCharAt(i);"},
    {"subString", "emits(s.SubString(i));"},
    {"subString2", "emits(s.SubString(i, j));"},
    {"lower", "emits(s.ToLowerCase()); emits(cast<string>(s.ToLower()));"},
    {"upper", "emits(s.ToUpperCase()); emits(cast<string>(s.ToUpper()));"},
    {"trimLeft", "emits(s.TrimLeft());"},
    {"trimRight", "emits(s.TrimRight());"},
    {"trim", "emits(s.Trim());"},
    {"cutLeft", "emits(s.TrimLeft(i));"},
    {"cutRight", "emits(s.TrimRight(i));"},
    {"equals", "emitb(s == a); String o = new String(a); emitb(s == o);"},
    {"less", "emitb(s < a); String o = new String(a); emitb(s < o);"},
    {"assign", "s = a;"},
    {"plus", "String r = s + a; emits(cast<string>(r)); emit(r.Length()); String o = new String(b); r = s + o; emits(cast<string>(r)); emit(r.Length());"},
    {"append", "s.operator<<(a);"},
    {"appendObject", "String o = new String(a); s.operator<<(o);"},
    {"appendBool", "s.operator<<(i > 0);"},
    {"part", "emits(s[i, j]);"},
    {"duplicate", "String o = copy s; s.Replace(a, b); emits(cast<string>(o)); emit(o.Length()); String p = new String(o); emits(cast<string>(p)); emit(p.Length());"},
    {"iterate", "var it = s.getIterator(); while ( it.hasNext() ) { emits(it.next()); emits(it.current()); }"},
    {"each", "foreach ( string c : s ) { emits(c); }"},
    {"split", "var it = s.SplitBy(a); while ( it.hasNext() ) { emits(it.next()); emits(it.current()); }"},
    {"splitBlank", "var it = s.Split(); while ( it.hasNext() ) { emits(it.next()); }"},
    {"peeks", "var it = s.getIterator(); while ( it.hasNext() ) { emits(it.peek()); it.next(); }"},
};
static const unsigned NOPS = sizeof(OPS) / sizeof(OPS[0]);
enum { Length, CharAt, Index, Contains, EndsWith, StartsWith, IndexOf, IndexFrom, LastIndexOf, Replace, ReplaceAll, RemoveCharAt, Sub, Sub2, Lower, Upper, TrimL, TrimR, Trim, CutL, CutR, Equals, Less, Assign, Plus, Append, AppendObject, AppendBool, Part, Duplicate, Iterate, Each, Split, SplitBlank, Peeks };

static std::string library() {
  const char *repo = getenv("VERIF_REPO");
  return std::string(repo ? repo : "/repo") + "/Projects/Library";
}
static std::string lib;
static void setup() {
  std::string src = "import System.String;\nimport System.Exception;\npublic object Holder {\n  public String s;\n  public void Constructor(string v) { s = new String(v); }\n";
  for (auto &o : OPS) src += std::string("  public void ") + o.name + "(string a, string b, int i, int j) modify { try { " + o.body + " } catch ( OutOfBoundsException e ) { emit(-777); } }\n";
  src += "  public void dump() const { emits(cast<string>(s)); emit(s.Length()); }\n}\nprivate Holder h;\npublic void fresh(string v) modify { h = new Holder(v); }\npublic void dump() { h.dump(); }\n";
  for (auto &o : OPS) src += std::string("public void ") + o.name + "(string a, string b, int i, int j) modify { h." + o.name + "(a, b, i, j); }\n";
  if (getenv("DUMP")) fprintf(stderr, "%s\n", src.c_str());
  lib = library();
  load(src, true, lib.c_str());
}

// ---------------------------------------------------------------- model
static std::vector<Ev> want;
static void num(int64_t v) { want.push_back({0, v, ""}); }
static void yes(bool v) { want.push_back({3, v, ""}); }
static void txt(const std::string &v) { want.push_back({1, 0, v}); }
static int find(const std::string &a, const std::string &b, size_t from) {
  for (size_t i = from; i + b.size() <= a.size(); ++i) {
    bool hit = true;
    for (size_t k = 0; k < b.size(); ++k)
      if (a[i + k] != b[k]) {
        hit = false;
        break;
      }
    if (hit) return (int)i;
  }
  return -1;
}
static int order(const std::string &a, const std::string &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static bool blank(char c) { return c == ' '; }
static std::string mapped(const std::string &s, bool up) {
  std::string r = s;
  for (auto &c : r)
    if (up ? c >= 'a' && c <= 'z' : c >= 'A' && c <= 'Z') c ^= 32;
  return r;
}
static std::string trimmed(const std::string &s, bool left, bool right) {
  size_t f = 0, e = s.size();
  if (left)
    while (f < e && blank(s[f])) ++f;
  if (right)
    while (e > f && blank(s[e - 1])) --e;
  return s.substr(f, e - f);
}
static bool replaceFirst(std::string &s, const std::string &a, const std::string &b) {
  int p = find(s, a, 0);
  if (p < 0) return false;
  s = s.substr(0, p) + b + s.substr(p + a.size());
  return true;
}
static void pieces(const std::string &s, const std::string &sep, bool twice) {
  size_t from = 0;
  for (;;) {
    int p = find(s, sep, from);
    std::string part = p < 0 ? s.substr(from) : s.substr(from, p - from);
    txt(part);
    if (twice) txt(part);
    if (p < 0) return;
    from = p + sep.size();
  }
}
// false: outside of what is stated
static bool model(unsigned op, std::string &s, const std::string &a, const std::string &b, int32_t i, int32_t j) {
  int n = (int)s.size();
  switch (op) {
    case Length: num(n); break;
    case CharAt: case Index:
      if (i < 0 || i >= n) num(-777);
      else txt(s.substr(i, 1));
      break;
    case Contains: yes(find(s, a, 0) >= 0); break;
    case EndsWith: yes(a.size() <= s.size() && find(s, a, s.size() - a.size()) >= 0); break;
    case StartsWith: yes(a.size() <= s.size() && find(s.substr(0, a.size()), a, 0) == 0); break;
    case IndexOf: num(find(s, a, 0)); break;
    case IndexFrom:
      if (i < 0 || i > n) return false;
      num(find(s, a, i));
      break;
    case LastIndexOf: {
      if (a.empty()) return false;
      int last = -1, p = -1;
      while ((p = find(s, a, p + 1)) >= 0) last = p;
      num(last);
      break;
    }
    case Replace: yes(replaceFirst(s, a, b)); break;
    case ReplaceAll: {
      std::string r;
      bool any = false;
      size_t from = 0;
      int p;
      while (!a.empty() && (p = find(s, a, from)) >= 0) {
        r += s.substr(from, p - from) + b;
        from = p + a.size();
        any = true;
      }
      s = r + s.substr(from);
      yes(any);
      break;
    }
    case RemoveCharAt:
      if (i < 0 || i >= n) num(-777);
      else s = s.substr(0, i) + s.substr(i + 1);
      break;
    case Sub:
      if (i < 0 || i > n) return false;
      txt(s.substr(i));
      break;
    case Sub2:
      if (i < 0 || i > n || j < 0) return false;
      txt(s.substr(i, j));
      break;
    case Lower: txt(mapped(s, false)); txt(mapped(s, false)); break;
    case Upper: txt(mapped(s, true)); txt(mapped(s, true)); break;
    case TrimL: s = trimmed(s, true, false); txt(s); break;
    case TrimR: s = trimmed(s, false, true); txt(s); break;
    case Trim: s = trimmed(s, true, true); txt(s); break;
    case CutL:
      if (i < 0 || i >= n) num(-777);
      else { s = s.substr(i); txt(s); }
      break;
    case CutR:
      if (i < 0 || i > n) return false;
      s = s.substr(0, n - i);
      txt(s);
      break;
    case Equals: yes(order(s, a) == 0); yes(order(s, a) == 0); break;
    case Less: yes(order(s, a) < 0); yes(order(s, a) < 0); break;
    case Assign: s = a; break;
    case Plus: txt(s + a); num(s.size() + a.size()); txt(s + b); num(s.size() + b.size()); break;
    case Append: case AppendObject: s += a; break;
    case AppendBool: s += i > 0 ? "1" : "0"; break;
    case Part:
      if (i < 0 || j < i || j > n) txt("");
      else txt(s.substr(i, j - i));
      break;
    case Duplicate: {
      std::string o = s;
      replaceFirst(s, a, b);
      txt(o); num(o.size()); txt(o); num(o.size());
      break;
    }
    case Iterate: for (char c : s) { txt(std::string(1, c)); txt(std::string(1, c)); } break;
    case Each: case Peeks: for (char c : s) txt(std::string(1, c)); break;
    case Split:
      if (a.empty()) return false;
      pieces(s, a, true);
      break;
    case SplitBlank: pieces(s, " ", false); break;
  }
  return true;
}
static void compare(const char *msg) {
  sx_assert(trace.size() == want.size(), msg);
  bool ok = true;
  for (size_t k = 0; k < want.size() && k < trace.size(); ++k) {
    ok = ok & (trace[k].tag == want[k].tag) & (trace[k].val == want[k].val) & (trace[k].str.size() == want[k].str.size());
    for (size_t m = 0; m < want[k].str.size() && m < trace[k].str.size(); ++m) ok = ok & (trace[k].str[m] == want[k].str[m]);
  }
  if (getenv("DUMP"))
    for (size_t k = 0; k < trace.size(); ++k) fprintf(stderr, "%d %lld '%s'\n", (int)trace[k].tag, (long long)trace[k].val, trace[k].str.c_str());
  sx_assert(ok, msg);
}
static std::string text(const char *name, int max) {
  char b[16];
  unsigned n = sx_choose((std::string(name) + "size").c_str(), max + 1);
  sx_bytes(b, n, name);
  for (unsigned i = 0; i < n; ++i) sx_assume(b[i] != 0);
  return std::string(b, n);
}
static bool usesTexts(unsigned op) {
  return (op >= Contains && op <= IndexOf) || op == IndexFrom || op == LastIndexOf || op == Equals || op == Less || op == Assign || op == Append || op == AppendObject || op == Split;
}
static bool usesBoth(unsigned op) { return op == Replace || op == ReplaceAll || op == Plus || op == Duplicate; }
static bool usesNumber(unsigned op) { return op == CharAt || op == Index || op == IndexFrom || op == RemoveCharAt || op == Sub || op == CutL || op == CutR || op == AppendBool; }
static bool usesNumbers(unsigned op) { return op == Sub2 || op == Part; }
static void step(unsigned op, std::string &s, int k, int needle) {
  std::string t = std::to_string(k);
  std::string a, b;
  int32_t i = 0, j = 0;
  if (usesTexts(op) || usesBoth(op)) a = text(("a" + t).c_str(), needle);
  if (usesBoth(op)) b = text(("b" + t).c_str(), needle);
  if (usesNumber(op) || usesNumbers(op)) {
    i = sx_i32(("i" + t).c_str());
    sx_assume(i >= -2 && i <= 9);
  }
  if (usesNumbers(op)) {
    j = sx_i32(("j" + t).c_str());
    sx_assume(j >= -2 && j <= 9);
  }
  want.clear();
  trace.clear();
  bool known = model(op, s, a, b, i, j);
  sx_assume(known);
  Result r = call(OPS[op].name, ParameterList{arg(a), arg(b), arg(i), arg(j)});
  sx_assert(r.out == Returned, "the operation ends normally");
  compare("the operation reports what the model reports");
  want.clear();
  trace.clear();
  txt(s);
  num(s.size());
  call("dump", ParameterList());
  compare("the object holds the text of the model and knows its length");
}
static void single(int size, int needle) {
  unsigned op = sx_choose("op", NOPS);
  std::string s = text("s", size);
  call("fresh", ParameterList{arg(s)});
  step(op, s, 1, needle);
  sx_reach("single");
  sx_done();
}
SX_CASE_SETUP(single, setup) { single(3, 2); }
SX_CASE_SETUP(T_single, setup) { single(5, 2); }
// a history: every changing operation followed by every operation
static void history(int size) {
  static const unsigned changing[] = {Replace, ReplaceAll, RemoveCharAt, TrimL, TrimR, Trim, CutL, CutR, Assign, Append, AppendObject, AppendBool, Duplicate};
  static const unsigned looking[] = {CharAt, EndsWith, StartsWith, LastIndexOf, ReplaceAll, RemoveCharAt, CutL, CutR, Append, Part, Iterate, Split, Plus};
  unsigned op = changing[sx_choose("first", 13)], then = looking[sx_choose("second", 13)];
  std::string s = text("s", size);
  call("fresh", ParameterList{arg(s)});
  step(op, s, 1, 1);
  step(then, s, 2, 1);
  sx_reach("history");
  sx_done();
}
SX_CASE_SETUP(history, setup) { history(1); }
SX_CASE_SETUP(T_history, setup) { history(2); }
