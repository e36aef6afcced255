// C14: string values and the string functions scripts can call
#include "vm.h"
using namespace H;

static const char *SOURCE = R"(
public string add(string a, string b) { return a + b; }
public string append(string a, string b) { a += b; return a; }
public bool eq(string a, string b) { return a == b; }
public bool ne(string a, string b) { return a != b; }
public bool lt(string a, string b) { return a < b; }
public bool le(string a, string b) { return a <= b; }
public bool gt(string a, string b) { return a > b; }
public bool ge(string a, string b) { return a >= b; }
public int len(string a) { return strlen(a); }
public string sub2(string a, int i) { return substr(a, i); }
public string sub3(string a, int i, int n) { return substr(a, i, n); }
public int find2(string a, string b) { return strfind(a, b); }
public int find3(string a, string b, int i) { return strfind(a, b, i); }
public string pos(string a, int i) { return strpos(a, i); }
public string lower(string a) { return toLower(a); }
public string upper(string a) { return toUpper(a); }
public string trim(string a) { return strtrim(a); }
public string ltrim(string a) { return strltrim(a); }
public string rtrim(string a) { return strrtrim(a); }
public string lpad(string a, int n, string p) { return strlpad(a, n, p); }
public string rpad(string a, int n, string p) { return strrpad(a, n, p); }
public string cat(string a, string b) { return strcat(a, b); }
public string ncat(string a, string b, int n) { return strncat(a, b, n); }
public int cmp(string a, string b) { return strcmp(a, b); }
public int ncmp(string a, string b, int n) { return strncmp(a, b, n); }
public int span(string a, string b) { return strspn(a, b); }
public int cspan(string a, string b) { return strcspn(a, b); }
public string chr(string a, int c) { return strchr(a, c); }
public string rchr(string a, int c) { return strrchr(a, c); }
public string part(string a, string b) { return strstr(a, b); }
public string brk(string a, string b) { return strpbrk(a, b); }
public string code(int c) { return ascii(c); }
public string value(string a) { string b = a; string c = b; b += "x"; return c; }
)";

static void setup() { load(SOURCE, true); }

static std::string text(const char *name, int max) {
  char b[16];
  unsigned n = sx_choose((std::string(name) + "size").c_str(), max + 1);
  sx_bytes(b, n, name);
  return std::string(b, n);
}
static std::string textz(const char *name, int max) {
  std::string s = text(name, max);
  for (char c : s) sx_assume(c != 0);
  return s;
}
// an integer around the limits of a text of length n, or an extreme one
static int32_t around(const char *name, int n) {
  int32_t i = sx_i32(name);
  sx_assume((i >= -2 && i <= n + 2) || i == INT32_MIN || i == INT32_MAX);
  return i;
}
static ParameterList args(const Parameter &a) { return ParameterList{a}; }
static ParameterList args(const Parameter &a, const Parameter &b) { return ParameterList{a, b}; }
static ParameterList args(const Parameter &a, const Parameter &b, const Parameter &c) { return ParameterList{a, b, c}; }

static void same(const Result &r, const std::string &want, const char *msg) {
  sx_assert(r.out == Returned, msg);
  std::string got = r.s();
  sx_assert(got.size() == want.size(), msg);
  bool ok = true;
  for (size_t i = 0; i < want.size(); ++i) ok = ok & (got[i] == want[i]);
  sx_assert(ok, msg);
}
static int order(const std::string &a, const std::string &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static int sign(int64_t v) { return v < 0 ? -1 : v > 0; }
static int find(const std::string &a, const std::string &b, size_t from) {
  for (size_t i = from; i + b.size() <= a.size(); ++i) {
    bool hit = true;
    for (size_t k = 0; k < b.size(); ++k) if (a[i + k] != b[k]) { hit = false; break; }
    if (hit) return (int)i;
  }
  return -1;
}

// ---------------------------------------------------------------- operators
static void operators(int n) {
  std::string a = text("a", n), b = text("b", n);
  int o = order(a, b);
  switch (sx_choose("operator", 9)) {
    case 0: same(call("add", args(arg(a), arg(b))), a + b, "+ joins two texts"); break;
    case 1: same(call("append", args(arg(a), arg(b))), a + b, "+= appends a text"); break;
    case 2: sx_assert(call("eq", args(arg(a), arg(b))).b() == (o == 0), "== compares all characters"); break;
    case 3: sx_assert(call("ne", args(arg(a), arg(b))).b() == (o != 0), "!= compares all characters"); break;
    case 4: sx_assert(call("lt", args(arg(a), arg(b))).b() == (o < 0), "< is the lexicographic order"); break;
    case 5: sx_assert(call("le", args(arg(a), arg(b))).b() == (o <= 0), "<= is the lexicographic order"); break;
    case 6: sx_assert(call("gt", args(arg(a), arg(b))).b() == (o > 0), "> is the lexicographic order"); break;
    case 7: sx_assert(call("ge", args(arg(a), arg(b))).b() == (o >= 0), ">= is the lexicographic order"); break;
    case 8: same(call("value", args(arg(a))), a, "a copy of a text does not change with the original"); break;
  }
}
SX_CASE_SETUP(operators, setup) { operators(4); }
SX_CASE_SETUP(T_operators, setup) { operators(6); }

// ---------------------------------------------------------------- parts of a text
static void parts(int n) {
  std::string a = text("a", n);
  int size = (int)a.size();
  switch (sx_choose("function", 4)) {
    case 0: {
      Result r = call("len", args(arg(a)));
      sx_assert(r.out == Returned && r.i() == size, "the length of a text");
      break;
    }
    case 1: {
      int32_t i = around("start", size);
      Result r = call("sub2", args(arg(a), arg(i)));
      if (i >= 0 && i <= size) same(r, a.substr(i), "the rest of a text");
      else sx_assert(r.out == Native || r.out == Thrown, "a start outside of the text is reported");
      break;
    }
    case 2: {
      int32_t i = around("start", size), l = around("length", size);
      Result r = call("sub3", args(arg(a), arg(i), arg(l)));
      if (i < 0 || i > size) sx_assert(r.out == Native || r.out == Thrown, "a start outside of the text is reported");
      else if (l < 0 || l > size - i) same(r, a.substr(i), "the rest of a text");
      else same(r, a.substr(i, l), "a part of a text");
      break;
    }
    case 3: {
      int32_t i = around("index", size);
      Result r = call("pos", args(arg(a), arg(i)));
      if (i >= 0 && i < size) same(r, std::string(1, a[i]), "the character at a position");
      else if (i != size) sx_assert(r.out == Native || r.out == Thrown, "a position outside of the text is reported");
      break;
    }
  }
}
SX_CASE_SETUP(parts, setup) { parts(6); }
SX_CASE_SETUP(T_parts, setup) { parts(12); }

static void finding(int n, int m) {
  std::string a = text("a", n), b = text("b", m);
  if (sx_choose("from", 2)) {
    int32_t i = around("start", (int)a.size());
    Result r = call("find3", args(arg(a), arg(b), arg(i)));
    if (i >= 0) sx_assert(r.out == Returned && r.i() == find(a, b, i), "the first occurrence from a position on");
    else sx_assert(r.out != Returned || r.i() == -1 || r.i() == find(a, b, 0), "a negative start finds nothing that is not there");
  } else {
    Result r = call("find2", args(arg(a), arg(b)));
    sx_assert(r.out == Returned && r.i() == find(a, b, 0), "the first occurrence");
  }
}
SX_CASE_SETUP(finding, setup) { finding(4, 3); }
SX_CASE_SETUP(T_finding, setup) { finding(7, 4); }

// ---------------------------------------------------------------- changed texts
static void changing(int n) {
  std::string a = text("a", n), want = a;
  switch (sx_choose("function", 7)) {
    case 0:
      for (char &c : want) if (c >= 'A' && c <= 'Z') c += 32;
      same(call("lower", args(arg(a))), want, "lower case letters");
      break;
    case 1:
      for (char &c : want) if (c >= 'a' && c <= 'z') c -= 32;
      same(call("upper", args(arg(a))), want, "upper case letters");
      break;
    case 2: case 3: case 4: {
      unsigned which = sx_choose("side", 3);
      size_t f = 0, e = a.size();
      if (which != 2) while (f < e && a[f] == ' ') f++;
      if (which != 1) while (e > f && a[e - 1] == ' ') e--;
      static const char *names[] = {"trim", "ltrim", "rtrim"};
      same(call(names[which], args(arg(a))), a.substr(f, e - f), "blanks at the sides are removed");
      break;
    }
    case 5: case 6: {
      bool left = sx_choose("left", 2);
      int32_t l = sx_i32("length");
      sx_assume((l >= -2 && l <= n + 4) || l == INT32_MIN);
      std::string p = text("pattern", 2);
      Result r = call(left ? "lpad" : "rpad", args(arg(a), arg(l), arg(p)));
      if (p.size() != 1 || l < 0) sx_assert(r.out == Native || r.out == Thrown, "an invalid length or pattern is reported");
      else {
        std::string fill;
        for (int i = (int)a.size(); i < l; ++i) fill += p[0];
        same(r, left ? fill + a : a + fill, "a text is filled up to the length");
      }
      break;
    }
  }
}
SX_CASE_SETUP(changing, setup) { changing(5); }
SX_CASE_SETUP(T_changing, setup) { changing(8); }

SX_CASE_SETUP(codes, setup) {
  int32_t c = sx_i32("code");
  sx_assume(c >= 0 && c <= 255);
  same(call("code", args(arg(c))), std::string(1, (char)c), "the character of a code");
}

// ---------------------------------------------------------------- functions of the C library
static void libc(int n) {
  std::string a = textz("a", n), b = textz("b", n);
  switch (sx_choose("function", 6)) {
    case 0: same(call("cat", args(arg(a), arg(b))), a + b, "strcat joins two texts"); break;
    case 1: {
      int32_t k = around("count", (int)b.size());
      Result r = call("ncat", args(arg(a), arg(b), arg(k)));
      if (k >= 0) same(r, a + b.substr(0, k), "strncat appends at most the given number of characters");
      break;
    }
    case 2: {
      Result r = call("cmp", args(arg(a), arg(b)));
      sx_assert(r.out == Returned && sign(r.i()) == order(a, b), "strcmp is the lexicographic order");
      break;
    }
    case 3: {
      int32_t k = around("count", n);
      sx_assume(k >= 0);
      Result r = call("ncmp", args(arg(a), arg(b), arg(k)));
      sx_assert(r.out == Returned && sign(r.i()) == order(a.substr(0, k), b.substr(0, k)), "strncmp compares the first characters");
      break;
    }
    case 4: case 5: {
      bool in = sx_choose("in", 2);
      Result r = call(in ? "span" : "cspan", args(arg(a), arg(b)));
      size_t i = 0;
      for (; i < a.size(); ++i) {
        bool has = false;
        for (char c : b) if (c == a[i]) { has = true; break; }
        if (has != in) break;
      }
      sx_assert(r.out == Returned && r.i() == (int64_t)i, "strspn and strcspn count leading characters");
      break;
    }
  }
}
SX_CASE_SETUP(libc, setup) { libc(3); }
SX_CASE_SETUP(T_libc, setup) { libc(4); }

// the rest of a text from a found place on; without one an error or an empty text
static void rest(const Result &r, const std::string &a, int at, const char *msg) {
  if (at >= 0) same(r, a.substr(at), msg);
  else sx_assert(r.out == Native || r.out == Thrown || (r.out == Returned && r.s().empty()), msg);
}
static void searches(int n) {
  std::string a = textz("a", n);
  int at = -1;
  switch (sx_choose("function", 4)) {
    case 0: case 1: {
      bool last = sx_choose("last", 2);
      int32_t c = sx_i32("character");
      sx_assume(c > 0 && c < 128);
      for (size_t i = 0; i < a.size(); ++i) if (a[i] == (char)c && (last || at < 0)) at = (int)i;
      rest(call(last ? "rchr" : "chr", args(arg(a), arg(c))), a, at, "strchr and strrchr find a character");
      break;
    }
    case 2: {
      std::string b = textz("b", 2);
      rest(call("part", args(arg(a), arg(b))), a, find(a, b, 0), "strstr finds a text");
      break;
    }
    case 3: {
      std::string b = textz("b", 2);
      for (size_t i = 0; i < a.size() && at < 0; ++i) for (char c : b) if (a[i] == c) { at = (int)i; break; }
      rest(call("brk", args(arg(a), arg(b))), a, at, "strpbrk finds one of several characters");
      break;
    }
  }
}
SX_CASE_SETUP(searches, setup) { searches(3); }
SX_CASE_SETUP(T_searches, setup) { searches(5); }
