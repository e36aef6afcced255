// Text and path helpers and the line parser.
#include "sx.h"
#include <Parsers/LineParser.h>
#include <Parsers/Tokenizer.h>
#include <Parsers/Value.h>
#include <Parsers/Valueizer.h>
#include <Tools/Files.h>
#include <Tools/Strings.h>
#include <string>
#include <vector>
using namespace Utils;
using namespace Utils::Tools;

static std::string text(const std::string &name, size_t n) {
  char b[32];
  sx_bytes(b, n, name.c_str());
  return std::string(b, n);
}
static std::string anyText(const std::string &name, unsigned max) { return text(name, sx_choose((name + "size").c_str(), max + 1)); }
static void sameText(const std::string &got, const std::string &want, const char *msg) {
  sx_assert(got.size() == want.size(), msg);
  bool ok = true;
  for (size_t i = 0; i < want.size(); ++i) ok = ok & (got[i] == want[i]);
  sx_assert(ok, msg);
}

// ---------------------------------------------------------------- splitting
static void checkSplit(unsigned max) {
  std::string s = anyText("text", max), p = "junk", c = "junk";
  bool dot = sx_choose("dot", 2);
  char sep = dot ? '.' : (char)sx_u8("separator");
  if (dot) split(s, p, c);
  else splitBy(s, sep, p, c);
  size_t k = 0;
  while (k < s.size() && s[k] != sep) ++k;
  sameText(p, s.substr(0, k), "the first part ends before the first separator");
  if (k == s.size()) sameText(c, "", "without separator there is no second part");
  else {
    sameText(c, s.substr(k + 1), "the second part is everything after the first separator");
    sameText(p + sep + c, s, "joining the parts gives the text");
    sx_reach("separated");
  }
}
SX_CASE(splitting) { checkSplit(12); }
SX_CASE(T_splitting) { checkSplit(24); }
SX_CASE(split_in_place) {
  // the result may replace the source
  std::string s = anyText("text", 4), t = s, p, q, c;
  splitBy(t, '.', p, t);
  splitBy(s, '.', q, c);
  sameText(p, q, "first part");
  sameText(t, c, "second part");
}

// ---------------------------------------------------------------- trimming
static bool in(char c, const std::string &set) {
  bool r = false;
  for (char x : set) r = r | (x == c);
  return r;
}
static void checkTrim(unsigned max) {
  std::string s = anyText("text", max), set = " ";
  unsigned how = sx_choose("set", 3);
  if (how) set = text("characters", how);
  size_t b = 0, e = s.size();
  while (b < e && in(s[b], set)) ++b;
  sameText(how ? stringTrimLeft(s, set) : stringTrimLeft(s), s.substr(b), "leading characters are removed");
  size_t f = s.size();
  while (f > 0 && in(s[f - 1], set)) --f;
  sameText(how ? stringTrimRight(s, set) : stringTrimRight(s), s.substr(0, f), "trailing characters are removed");
  if (f < b) f = b;
  sameText(how ? stringTrim(s, set) : stringTrim(s), s.substr(b, f - b), "leading and trailing characters are removed");
  if (b == e && e > 0) sx_reach("all");
}
SX_CASE(trimming) { checkTrim(5); }
SX_CASE(T_trimming) { checkTrim(8); }

// ---------------------------------------------------------------- comparing
static char up(char c) { return (unsigned char)(c - 'a') < 26 ? c - 32 : c; }
static char low(char c) { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
SX_CASE(comparing) {
  std::string a = anyText("a", 3), b = anyText("b", 3);
  bool eq = a.size() == b.size(), eqi = eq;
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    eq = eq & (a[i] == b[i]);
    eqi = eqi & (up(a[i]) == up(b[i]));
  }
  sx_assert(StringCompare(a, b) == eq, "texts are equal when all their bytes are");
  sx_assert(StringCompareI(a, b) == eqi, "comparison without regard to case");
  std::string l = a;
  for (char &c : l) c = low(c);
  sameText(toLowerCase(a), l, "lower case");
  Value v("n", a, b);
  sx_assert(v.ofType(b) == eq, "the type of a value");
}
SX_CASE(truth) {
  static const char *kWords[] = {"false", "true"};
  unsigned how = sx_choose("kind", 3);
  std::string s = how < 2 ? kWords[how] : anyText("text", 4);
  if (how < 2) {
    // any spelling in upper and lower case, surrounded by blanks
    for (size_t i = 0; i < s.size(); ++i)
      if (sx_bool(("upper" + std::to_string(i)).c_str())) s[i] = up(s[i]);
    s = std::string(sx_choose("before", 2), ' ') + s + std::string(sx_choose("after", 2), ' ');
    sx_assert(stringToBool(s) == (how == 1), "true and false in any spelling");
  } else {
    size_t b = 0, e = s.size();
    while (b < e && s[b] == ' ') ++b;
    while (e > b && s[e - 1] == ' ') --e;
    bool empty = b == e || (e - b == 1 && s[b] == '\n');
    sx_assert(stringToBool(s) == !empty, "any other text that is not blank is true");
  }
}
SX_CASE(quotes) {
  std::string s = anyText("text", 4), want;
  if (s.size() > 1 && (s[0] == '"' || s[0] == '\'') && s[s.size() - 1] == s[0]) {
    want = s.substr(1, s.size() - 2);
    sx_reach("quoted");
  }
  sameText(extract(s), want, "the text between two equal quotation marks");
  unsigned n = sx_choose("level", 4);
  sameText(indent(n), std::string(n, '\t'), "indentation");
}

// ---------------------------------------------------------------- numbers
static void checkNumber(unsigned max) {
  unsigned n = sx_choose("digits", max) + 1;
  std::string d = text("number", n);
  uint64_t v = 0;
  for (char c : d) {
    sx_assume((unsigned char)(c - '0') < 10);
    v = v * 10 + (unsigned char)(c - '0');
  }
  unsigned sign = sx_choose("sign", 3);
  std::string rest = anyText("rest", 1);
  for (char c : rest) sx_assume((unsigned char)(c - '0') >= 10);
  std::string t = std::string(sign == 1 ? "-" : sign == 2 ? "+" : "") + d + rest;
  sx_assert_eq((uint64_t)stringToInt(t), sign == 1 ? 0 - v : v, "the integer written at the beginning of a text");
  sx_assert_eq((uint64_t)Value("", "", t).toInt(), sign == 1 ? 0 - v : v, "the integer of a value");
}
SX_CASE(integers) { checkNumber(6); }
SX_CASE(T_integers) { checkNumber(7); }
SX_CASE(no_number) {
  std::string s = anyText("text", 2);
  if (!s.empty()) {
    char c = s[0];
    sx_assume(((unsigned char)(c - '0') >= 10) & (c != '-') & (c != '+') & (c != ' ') & ((unsigned char)(c - '\t') >= 5));
  }
  sx_assert(stringToInt(s) == 0, "a text that is no number counts as zero");
}
SX_CASE(print_integers) {
  // up to 300 values of every magnitude
  static const int64_t kBase[] = {0, -128, 9990, -10050, 2147483640, -2147483650LL, 999999999990LL, -1000000000010LL};
  int64_t v = kBase[sx_choose("base", 8)] + sx_choose("offset", 16);
  sx_assert(stringToInt(toString(v)) == v, "printing a number and reading the text gives the number");
}

// ---------------------------------------------------------------- paths
static void checkPath(unsigned max) {
  std::string s = anyText("path", max);
  size_t k = s.size();
  while (k > 0 && s[k - 1] != '/' && s[k - 1] != '\\') --k;
  sameText(Files::ExtractFilename(s), s.substr(k), "the file name follows the last separator");
  sameText(Files::ExtractPathname(s), k ? s.substr(0, k) : s, "the path name ends with the last separator");
  if (k) {
    sameText(Files::ExtractPathname(s) + Files::ExtractFilename(s), s, "path name and file name make up the path");
    sx_reach("separator");
  }
}
SX_CASE(path_names) { checkPath(12); }
SX_CASE(T_path_names) { checkPath(24); }
static void checkExtension(unsigned max) {
  std::string s = anyText("file", max);
  bool separator = false;
  for (char c : s) separator = separator | (c == '/') | (c == '\\');
  sx_assume(!separator);
  size_t k = s.size();
  while (k > 0 && s[k - 1] != '.') --k;
  std::string ext = k ? s.substr(k) : "";
  sameText(Files::ExtractFileExt(s), ext, "the extension follows the last dot");
  std::string stem = Files::RemoveFileExt(s);
  if (ext.empty()) sameText(stem, s, "without extension nothing is removed");
  else {
    sameText(stem + "." + ext, s, "name and extension make up the file name");
    sx_reach("extension");
  }
}
SX_CASE(extensions) { checkExtension(12); }
SX_CASE(T_extensions) { checkExtension(24); }

// ---------------------------------------------------------------- line parser
static std::vector<std::string> words(const std::string &s, const std::string &delimiters) {
  std::vector<std::string> r;
  std::string w;
  for (char c : s)
    if (in(c, delimiters)) {
      if (!w.empty()) r.push_back(w);
      w.clear();
    } else
      w += c;
  if (!w.empty()) r.push_back(w);
  return r;
}
static void checkWords(unsigned max) {
  std::string s = anyText("line", max), set = sx_choose("set", 2) ? text("delimiters", 2) : "";
  std::vector<std::string> want = words(s, set.empty() ? " \t\n\r;" : set);
  Utils::Tokenizer t(s, set);
  for (unsigned round = 0; round < 2; ++round) {
    for (auto &w : want) {
      sx_assert(t.hasNext(), "every word is found");
      sameText(t.getToken(), w, "the words of a line in order");
    }
    sx_assert(!t.hasNext(), "no further word");
    t.reset();
  }
  sameText(t.getString(), s, "the text is kept");
}
SX_CASE(line_words) { checkWords(4); }
SX_CASE(T_line_words) { checkWords(5); }
SX_CASE(line_values) {
  std::string s = anyText("line", 5);
  std::vector<std::string> w = words(s, " \t\n\r;");
  Value v = LineParser::parse(s);
  if (w.size() < 2) {
    sx_assert(v.getName().empty() && v.getType().empty() && !v.isValid(), "a value needs a name and a type");
    return;
  }
  std::string rest;
  for (size_t i = 2; i < w.size(); ++i) rest += (i > 2 ? " " : "") + w[i];
  sameText(v.getName(), w[0], "the name comes first");
  sameText(v.getType(), w[1], "the type comes second");
  sameText(v.getValue(), rest, "the rest is the value");
  sx_assert(v.isValid() == !rest.empty() && v.is(w[0]) && v.ofValue(rest), "value attributes");
  sx_reach("value");
}
