// Conversions between the built-in types: by initialisation, assignment, cast and where an
// expression is converted on its own.
#include "atomic.h"
using namespace A;

static std::string source, what;
enum { Init, Assign, Cast, CStyle, Member, Self, Twice, Forms };

// which conversions are written without a cast
static bool implicit(T from, T to) {
  if (from == to) return true;
  if (to == B || to == S) return true;
  if (from == S) return false;
  if (to == I16) return isInt(from);
  return true;
}
static std::string id(unsigned form, unsigned from, unsigned to) { return "f" + std::to_string(form) + std::to_string(from) + std::to_string(to); }
static const char *literal(unsigned t) {
  static const char *l[] = {"true", "7", "7", "7", "7.5f", "7.5d", "\"seven\""};
  return l[t];
}
static void setup() {
  source += "public object Holder {\n";
  for (unsigned t = 0; t < Count; ++t) source += std::string("  public ") + kName[t] + " m" + kName[t] + ";\n";
  source += "  public void Constructor() { }\n";
  for (unsigned t = 0; t < Count; ++t)
    for (unsigned f = 0; f < Count; ++f)
      if (implicit((T)f, (T)t)) source += std::string("  public void set") + kName[t] + "(" + kName[f] + " x) modify { m" + kName[t] + " = x; }\n";
  source += "}\n";
  for (unsigned f = 0; f < Count; ++f)
    for (unsigned t = 0; t < Count; ++t) {
      std::string F = kName[f], T_ = kName[t], head = "public " + T_ + " ", par = "(" + F + " x) { ";
      if (implicit((T)f, (T)t)) {
        source += head + id(Init, f, t) + par + T_ + " v = x; return v; }\n";
        source += head + id(Assign, f, t) + par + T_ + " v; v = x; return v; }\n";
        source += head + id(Self, f, t) + par + T_ + " v = " + T_ + " " + literal(t) + "; v = x; return v; }\n";
        source += head + id(Member, f, t) + par + "Holder h = new Holder(); h.set" + T_ + "(x); return h.m" + T_ + "; }\n";
      }
      source += head + id(Cast, f, t) + par + "return cast<" + T_ + ">(x); }\n";
      source += head + id(CStyle, f, t) + par + "return " + T_ + " x; }\n";
      source += head + id(Twice, f, t) + par + F + " y = x; " + T_ + " v = " + T_ + " y; " + T_ + " w = v; return w; }\n";
    }
  if (getenv("DUMP")) puts(source.c_str());
  H::load(source);
}
static unsigned chooseForm(T f, T t) {
  unsigned form = sx_choose("form", Forms);
  sx_assume(form == Cast || form == CStyle || form == Twice || implicit(f, t));
  static const char *names[] = {" by initialisation", " by assignment", " by cast<>", " by cast", " by assignment to a member", " by assignment over a value", " by cast of a copy"};
  what = std::string(kName[f]) + " to " + kName[t] + names[form];
  return form;
}

// ---------------------------------------------------------------- numbers and bool
template <unsigned From> static void numbers() {
  T t = (T)sx_choose("to", S);
  unsigned form = chooseForm((T)From, t);
  V x = sym((T)From, "x");
  V want = conv(x, t);
  sx_reach("converted");
  same(H::call(id(form, From, t), {arg(x)}), want, what.c_str());
}
SX_CASE_SETUP(from_bool, setup) { numbers<B>(); }
SX_CASE_SETUP(from_int16, setup) { numbers<I16>(); }
SX_CASE_SETUP(from_int, setup) { numbers<I32>(); }
SX_CASE_SETUP(from_int64, setup) { numbers<I64>(); }
SX_CASE_SETUP(from_float, setup) { numbers<F>(); }
SX_CASE_SETUP(from_double, setup) { numbers<D>(); }

// ---------------------------------------------------------------- to text
SX_CASE_SETUP(listed_to_text, setup) {
  T f = (T)sx_choose("from", Count);
  auto all = texts(f);
  auto &e = all[sx_choose("value", all.size())];
  unsigned form = chooseForm(f, S);
  same(H::call(id(form, f, S), {arg(e.v)}), ofS(e.text), what.c_str());
}
static std::string decimal(int v) {
  std::string s;
  unsigned u = v < 0 ? 0u - v : v;
  if (v < 0) s += '-';
  if (u >= 10) s += (char)('0' + u / 10 % 10);
  s += (char)('0' + u % 10);
  return s;
}
SX_CASE_SETUP(ints_to_text, setup) {
  T f = (T)(I16 + sx_choose("from", 3));
  unsigned form = sx_choose("cast", 2) ? CStyle : Init;
  what = std::string(kName[f]) + " to string";
  V x = sym(f, "x");
  sx_assume(x.i >= -99 && x.i <= 99);
  same(H::call(id(form, f, S), {arg(x)}), ofS(decimal((int)x.i)), what.c_str());
}
SX_CASE_SETUP(text_to_text, setup) {
  unsigned form = sx_choose("form", Forms);
  V x = sym(S, "x");
  same(H::call(id(form, S, S), {arg(x)}), x, "string to string");
}

// ---------------------------------------------------------------- from text
// leading blanks, a sign and the digits up to the first other character
static int64_t number(const std::string &s) {
  size_t k = 0;
  while (k < s.size() && (s[k] == ' ' || (s[k] >= 9 && s[k] <= 13))) ++k;
  bool neg = false;
  if (k < s.size() && (s[k] == '-' || s[k] == '+')) neg = s[k++] == '-';
  int64_t v = 0;
  for (; k < s.size() && s[k] >= '0' && s[k] <= '9'; ++k) v = v * 10 + (s[k] - '0');
  return neg ? -v : v;
}
static std::string text(unsigned max) {
  unsigned len = sx_choose("len", max + 1);
  std::string s(len, 0);
  for (unsigned k = 0; k < len; ++k) {
    uint8_t c = sx_u8(("c" + std::to_string(k)).c_str());
    sx_assume((c >= 32 && c < 127) || c == 9 || c == 10);
    s[k] = (char)c;
  }
  return s;
}
template <unsigned Max> static void textToInt() {
  T t = (T)(I16 + sx_choose("to", 3));
  unsigned form = sx_choose("cast", 2) ? Cast : CStyle;
  std::string s = text(Max);
  what = std::string("string to ") + kName[t];
  same(H::call(id(form, S, t), {H::arg(s)}), ofI(t, number(s)), what.c_str());
}
SX_CASE_SETUP(text_to_int, setup) { textToInt<3>(); }
SX_CASE_SETUP(T_text_to_int_5, setup) { textToInt<5>(); }
// long texts: the digits of numbers around the ends of the integer types
SX_CASE_SETUP(long_text_to_int, setup) {
  static const struct { const char *s; int64_t v; } list[] = {
      {"32767", 32767}, {"32768", 32768}, {"-32768", -32768}, {"-32769", -32769}, {"65536", 65536},
      {"2147483647", INT32_MAX}, {"2147483648", 2147483648}, {"-2147483648", INT32_MIN}, {"4294967297", 4294967297},
      {"9223372036854775807", INT64_MAX}, {"-9223372036854775808", INT64_MIN}, {"007", 7}, {" 12 34", 12}, {"1e3", 1}, {"0x10", 0}, {"3.99", 3}};
  T t = (T)(I16 + sx_choose("to", 3));
  unsigned k = sx_choose("text", sizeof(list) / sizeof(*list)), form = sx_choose("cast", 2) ? Cast : CStyle;
  what = std::string("string to ") + kName[t] + ": " + list[k].s;
  same(H::call(id(form, S, t), {H::arg(std::string(list[k].s))}), ofI(t, list[k].v), what.c_str());
}
SX_CASE_SETUP(text_to_fp, setup) {
  static const struct { const char *s; double v; } list[] = {{"", 0}, {"0.5", 0.5}, {"-2.25", -2.25}, {"1e3", 1000}, {" 7", 7}, {"x", 0}, {"3.5x", 3.5}, {"65536.125", 65536.125}, {"-0.03125", -0.03125}};
  T t = sx_choose("double", 2) ? D : F;
  unsigned k = sx_choose("text", 9), form = sx_choose("cast", 2) ? Cast : CStyle;
  what = std::string("string to ") + kName[t] + ": " + list[k].s;
  same(H::call(id(form, S, t), {H::arg(std::string(list[k].s))}), t == D ? ofD(list[k].v) : ofF((float)list[k].v), what.c_str());
}
// blank text, a line end and "false" in any case are false
static bool truth(const std::string &s) {
  size_t a = 0, b = s.size();
  while (a < b && s[a] == ' ') ++a;
  while (b > a && s[b - 1] == ' ') --b;
  if (a == b || (b - a == 1 && s[a] == '\n')) return false;
  if (b - a != 5) return true;
  static const char *word = "false";
  for (int k = 0; k < 5; ++k)
    if (s[a + k] != word[k] && s[a + k] != word[k] - 32) return true;
  return false;
}
SX_CASE_SETUP(text_to_bool, setup) {
  unsigned form = chooseForm(S, B);
  std::string s = text(2);
  same(H::call(id(form, S, B), {H::arg(s)}), ofB(truth(s)), what.c_str());
}
SX_CASE_SETUP(word_to_bool, setup) {
  unsigned form = sx_choose("cast", 2) ? Cast : Init;
  std::string s = sx_choose("word", 2) ? "false" : " False ";
  unsigned at = sx_choose("at", s.size());
  uint8_t c = sx_u8("c");
  sx_assume(c >= 32 && c < 127);
  s[at] = (char)c;
  same(H::call(id(form, S, B), {H::arg(s)}), ofB(truth(s)), "text to bool");
}

// ---------------------------------------------------------------- what needs a cast
SX_CASE(needs_cast) {
  T f = (T)sx_choose("from", Count), t = (T)sx_choose("to", Count);
  unsigned form = sx_choose("form", 2);
  std::string T_ = kName[t];
  bool ok = H::accepts("public void f(" + std::string(kName[f]) + " x) { " + (form ? T_ + " v; v = x;" : T_ + " v = x;") + " }\npublic void Main(int argc, string argv) { }\n");
  sx_observe(ok);
  sx_assert(ok == implicit(f, t), (std::string(kName[f]) + " to " + T_ + (ok ? " accepted" : " rejected") + " without a cast").c_str());
}
