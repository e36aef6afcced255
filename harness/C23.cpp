// C23: every text is accepted or rejected, whatever is wrong with it
#include "vm.h"
using namespace H;

// correct programs; the part between the bars is changed
static const char *PROGRAMS[] = {
  "public void f(int a) { |int x = a + 3;| }",
  "public void f(int a) { |a = (a * 2) - 1;| }",
  "public void f(int a) { |a += 2; a++; a--; a = -a;| }",
  "public bool f(int a) { |return a > 1 && !(a == 3);| }",
  "public int f(int a) { |return a ? 2 : 3;| }",
  "public void f(int a) { |if ( a > 1 ) { a = 2; } else { a = 3; }| }",
  "public void f(int a) { |while ( a < 9 ) { a = a + 1; break; }| }",
  "public void f(int a) { |for ( int i = 0; i < 3; i++ ) { continue; }| }",
  "public void f(int a) { |switch ( a ) { case 1: { a = 2; break; } default: { a = 3; break; } }| }",
  "public void f(int a) { |try { throw a; } catch ( int e ) { a = e; } finally { a = 1; }| }",
  "public int f(int a) { return a; } public void g() { |int b = f(f(1));| }",
  "|public int f(int a, string b = \"x\") const { return a; }|",
  "|public object A { private int m; public void Constructor(int p) { m = p; } }|",
  "public object A { public void Constructor() { } } public void f() { |A a = new A(); delete a;| }",
  "public object A { public int m; public int get() const { return m; } } public void f() { |A a = new A(); a.m = 2; int b = a.get();| }",
  "public object A { public void h() { } } |public object B extends A { public void g() { base.h(); this.g(); } }|",
  "|public abstract object A { public abstract void f(); } public object B extends A { public void f() { } }|",
  "|public interface I { public void f(); } public object C implements I { public void f() { } }|",
  "|public namespace N { public void f() { } private namespace M { } }|",
  "|public enum E { A = 1, B, C = 7; } public void f() { E e = E.B; }|",
  "|public object G<T> { public T m; public T get() { return m; } }| public void f() { G<int> g = new G<int>(); }",
  "public object G<T> { public T m; public T get() const { return m; } } public void f() { |G<int> g = new G<int>(); int i = g.get();| }",
  "|public int x = 3; private string s const = \"t\"; public bool b;|",
  "public void f() { |string s = \"a\\n\" + 1.5f; double d = 2.5d; float e = 1.5f;| }",
  "public void f(int a) { |bool b = a is int; string t = typeid(a); int c = cast<int>(\"4\");| }",
  "public void f(int a) { |print(\"x\" + a); assert( a == 1 );| }",
  "public object A { public A operator+(A o) const { return o; } public A Copy() const { return new A(); } } public void f(A a) { |A b = a + a; A c = copy b;| }",
  "public object A { public bool operator==(A o) const { return true; } } public void f(A a, A b) { |bool c = a == b; bool d = a != b; bool e = a === b;| }",
  "public void f() { |var x = 3; int y const = x; { int x = 2; }| }",
  "public object A { |public static int s; public static void f() { } protected string t modify; public void Destructor() { }| }",
};
static const unsigned N = sizeof(PROGRAMS) / sizeof(*PROGRAMS);
struct Parts { std::string before, part, after; };
static Parts split(unsigned i) {
  std::string s = PROGRAMS[i];
  size_t a = s.find('|'), b = s.rfind('|');
  // conditions contain no single bar
  return {s.substr(0, a), s.substr(a + 1, b - a - 1), s.substr(b + 1)};
}
static void machine() { newVM(); vm->init(); }
static void decide(const Parts &p, const std::string &changed) {
  std::string why = "none";
  bool accepted = false;
  try {
    vm->createScriptFromString(p.before + changed + p.after);
    accepted = true;
  } catch (std::exception &e) {
    why = e.what();
  }
  sx_assert(!why.empty(), "a rejected program is reported with a reason");
  sx_reach(accepted ? "accepted" : "rejected");
}

SX_CASE(correct) {
  Parts p = split(sx_choose("program", N));
  sx_assert(accepts(p.before + p.part + p.after), "a correct program is accepted");
}
// one byte replaced by any other
static void replaced(unsigned share) {
  Parts p = split(share + 3 * sx_choose("program", (N + 2 - share) / 3));
  unsigned at = sx_choose("position", p.part.size());
  std::string s = p.part;
  s[at] = (char)sx_u8("byte");
  decide(p, s);
}
SX_CASE_SETUP(replaced_0, machine) { replaced(0); }
SX_CASE_SETUP(replaced_1, machine) { replaced(1); }
SX_CASE_SETUP(replaced_2, machine) { replaced(2); }
// part of the text missing
SX_CASE_SETUP(missing, machine) {
  Parts p = split(sx_choose("program", N));
  unsigned at = sx_choose("position", p.part.size());
  unsigned n = 1 + sx_choose("length", 6);
  std::string s = p.part;
  s.erase(at, n);
  decide(p, s);
}
SX_CASE_SETUP(truncated, machine) {
  Parts p = split(sx_choose("program", N));
  unsigned at = sx_choose("position", p.part.size() + 1);
  p.after.clear();
  decide(p, p.part.substr(0, at));
}

// an additional token in front of another one
static const char *TOKENS[] = {
  "(", ")", "]", "{", "}", ";", ",", ".", ":", "=", "-", "!", "<", ">", "a", "A", "int", "1", "\"t\"", "if", "else", "for", "case", "return", "try", "new", "copy", "public", "object", "operator", // quick
  "[", "+", "*", "%", "?", "==", "&&", "..", "++", "+=", "=>", "string", "void", "N.x", "1.5", "true", "null", "^",
  "while", "foreach", "switch", "default", "break", "throw", "catch", "finally", "delete", "cast", "is", "typeid", "print", "assert", "var", "exit",
  "private", "static", "abstract", "const", "modify", "interface", "namespace", "enum", "extends", "implements", "using", "import", "this", "base", "throws", "ref",
};
static const unsigned QUICK = 30, ALL = sizeof(TOKENS) / sizeof(*TOKENS);
static std::vector<size_t> boundaries(const std::string &s) {
  std::vector<size_t> r{0};
  for (size_t i = 1; i < s.size(); ++i) {
    bool a = isalnum((unsigned char)s[i - 1]), b = isalnum((unsigned char)s[i]);
    if (s[i] != ' ' && !(a && b)) r.push_back(i);
  }
  r.push_back(s.size());
  return r;
}
static void inserted(unsigned tokens, bool replace) {
  Parts p = split(sx_choose("program", N));
  std::vector<size_t> b = boundaries(p.part);
  unsigned at = sx_choose("position", b.size() - replace);
  std::string t = TOKENS[sx_choose("token", tokens)];
  std::string s = p.part;
  s.replace(b[at], replace ? b[at + 1] - b[at] : 0, " " + t + " ");
  decide(p, s);
}
SX_CASE_SETUP(token_inserted, machine) { inserted(QUICK, false); }
SX_CASE_SETUP(T_token_inserted, machine) { inserted(ALL, false); }
SX_CASE_SETUP(T_token_replaced, machine) { inserted(ALL, true); }
