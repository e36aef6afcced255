// C10: calls and parameters
#include "vm.h"
using namespace H;

static const char *TYPES[] = {"bool", "int16", "int", "int64", "float", "double", "string", "Item"};
static const unsigned NT = 8;
static std::string S(int64_t v) { return std::to_string(v); }

// the value of type t a script makes from the number n
static std::string make(unsigned t, const std::string &n) {
  switch (t) {
    case 0: return "mkb(" + n + ")";
    case 1: return "mk16(" + n + ")";
    case 2: return n;
    case 3: return "mk64(" + n + ")";
    case 4: return "mkf(" + n + ")";
    case 5: return "mkd(" + n + ")";
    case 6: return "mks(" + n + ")";
    default: return "mko(" + n + ")";
  }
}
// reports a value of type t, see shown()
static std::string show(unsigned t, const std::string &v) {
  switch (t) {
    case 0: return "emitb(" + v + ");";
    case 1: return "emit16(" + v + ");";
    case 2: return "emit(" + v + ");";
    case 3: return "emit64(" + v + ");";
    case 4: return "emitd(double " + v + ");";
    case 5: return "emitd(" + v + ");";
    case 6: return "emits(" + v + ");";
    default: return "emit(" + v + ".value);";
  }
}
static Ev shown(unsigned t, int32_t n) {
  double d = n;
  int64_t b;
  memcpy(&b, &d, 8);
  switch (t) {
    case 0: return {3, n != 0, ""};
    case 4: case 5: return {2, b, ""};
    case 6: return {1, 0, n == 0 ? "zero" : n == 1 ? "one" : "many"};
    default: return {0, n, ""};
  }
}
static const char *COMMON = R"(
public object Item {
	public int value;
	public void Constructor(int v) { value = v; }
	public void set(int v) modify { value = v; }
}
public bool mkb(int n) { return n != 0; }
public int16 mk16(int n) { int16 r = cast<int16>(n); return r; }
public int64 mk64(int n) { int64 r = n; return r; }
public float mkf(int n) { float r = cast<float>(n); return r; }
public double mkd(int n) { double r = cast<double>(n); return r; }
public string mks(int n) { if ( n == 0 ) { return "zero"; } if ( n == 1 ) { return "one"; } return "many"; }
public Item mko(int n) { Item r = new Item(n); return r; }
)";

static std::vector<Ev> want;
static void check(const char *msg) {
  sx_assert(trace.size() == want.size(), msg);
  bool ok = true;
  for (size_t i = 0; i < want.size(); ++i) {
    sx_assert(trace[i].tag == want[i].tag, msg);
    if (trace[i].tag == 1) ok = ok & (trace[i].str == want[i].str);
    else ok = ok & (trace[i].val == want[i].val);
  }
  sx_assert(ok, msg);
}
static int32_t small(const char *name) {
  int32_t v = sx_i32(name);
  sx_assume(v >= -1000 && v <= 1000);
  return v;
}
static void ran(const Result &r) { if (r.out != Returned) sx_fail(("the call ended with an error: " + r.what).c_str()); }

// ---------------------------------------------------------------- overloads
static void overloadSource(std::string &src) {
  // one and two parameters of every type
  for (unsigned a = 0; a < NT; ++a) {
    src += std::string("public void f(") + TYPES[a] + " x) { emit(" + S(100 + a) + "); " + show(a, "x") + " }\n";
    for (unsigned b = 0; b < NT; ++b)
      src += std::string("public void f(") + TYPES[a] + " x, " + TYPES[b] + " y) { emit(" + S(1000 + 10 * a + b) + "); " + show(a, "x") + " " + show(b, "y") + " }\n";
  }
  src += "public void f() { emit(1); }\n";
  src += "public void none() { f(); }\n";
  for (unsigned a = 0; a < NT; ++a) {
    std::string x = std::string(TYPES[a]) + " x = " + make(a, "n") + "; ";
    src += "public void v" + S(a) + "(int n, int m) { " + x + "f(x); }\n";
    src += "public void d" + S(a) + "(int n, int m) { f(" + make(a, "n") + "); }\n";
    for (unsigned b = 0; b < NT; ++b) {
      src += "public void v" + S(a) + S(b) + "(int n, int m) { " + x + TYPES[b] + " y = " + make(b, "m") + "; f(x, y); }\n";
      src += "public void d" + S(a) + S(b) + "(int n, int m) { f(" + make(a, "n") + ", " + make(b, "m") + "); }\n";
    }
  }
}
static void overloadSetup() {
  std::string src = COMMON;
  overloadSource(src);
  if (getenv("DUMP")) fputs(src.c_str(), stderr);
  load(src);
}
SX_CASE_SETUP(overloads, overloadSetup) {
  int32_t n = small("n"), m = small("m");
  unsigned count = sx_choose("parameters", 3);
  if (count == 0) {
    ran(call("none"));
    want = {{0, 1, ""}};
  } else {
    unsigned a = sx_choose("first", NT), b = count == 2 ? sx_choose("second", NT) : 0;
    std::string name = (sx_choose("direct", 2) ? "d" : "v") + S(a) + (count == 2 ? S(b) : "");
    ran(call(name, ParameterList{arg(n), arg(m)}));
    want = {{0, count == 1 ? 100 + a : 1000 + 10 * a + b, ""}, shown(a, n)};
    if (count == 2) want.push_back(shown(b, m));
  }
  check("the overload with exactly the types of the arguments is executed");
}

// the same for methods of an object, for static methods and for methods of a namespace
static void placeSetup() {
  std::string src = COMMON, body, calls;
  for (unsigned a = 0; a < NT; ++a) body += std::string("public void f(") + TYPES[a] + " x) { emit(" + S(100 + a) + "); " + show(a, "x") + " }\n";
  src += "public object Place {\n" + body + "}\n";
  std::string st = body;
  for (size_t p = 0; (p = st.find("public void f", p)) != std::string::npos; p += 5) st.replace(p, 11, "public static void");
  src += "public object Static {\n" + st + "}\n";
  src += "public namespace Names {\n" + body + "}\n";
  for (unsigned a = 0; a < NT; ++a) {
    src += "public void o" + S(a) + "(int n) { Place p = new Place(); p.f(" + make(a, "n") + "); }\n";
    src += "public void s" + S(a) + "(int n) { Static.f(" + make(a, "n") + "); }\n";
    src += "public void n" + S(a) + "(int n) { Names.f(" + make(a, "n") + "); }\n";
  }
  if (getenv("DUMP")) fputs(src.c_str(), stderr);
  load(src);
}
SX_CASE_SETUP(places, placeSetup) {
  int32_t n = small("n");
  unsigned a = sx_choose("type", NT);
  static const char *kind[] = {"o", "s", "n"};
  ran(call(kind[sx_choose("place", 3)] + S(a), ParameterList{arg(n)}));
  want = {{0, 100 + a, ""}, shown(a, n)};
  check("the overload with exactly the type of the argument is executed");
}

// ---------------------------------------------------------------- order and defaults
static void defaultSetup() {
  std::string src = COMMON;
  // f<k>_<d>: k parameters, the last d with defaults 11, 22, 33, 44
  for (int k = 1; k <= 4; ++k)
    for (int d = 0; d <= k; ++d) {
      src += "public int f" + S(k) + S(d) + "(";
      for (int i = 0; i < k; ++i) src += std::string(i ? ", " : "") + "int p" + S(i) + (i >= k - d ? " = " + S(11 * (i + 1)) : "");
      src += ") {";
      for (int i = 0; i < k; ++i) src += " emit(p" + S(i) + ");";
      src += " return p0; }\n";
      for (int n = k - d; n <= k; ++n) {
        src += "public int c" + S(k) + S(d) + S(n) + "(int a, int b, int c, int d) { return f" + S(k) + S(d) + "(";
        for (int i = 0; i < n; ++i) src += std::string(i ? ", " : "") + (char)('a' + i);
        src += "); }\n";
      }
    }
  // a default behind parameters of every type
  for (unsigned t = 0; t < NT; ++t) {
    src += std::string("public void g") + S(t) + "(" + TYPES[t] + " x, int y = 7, string z = \"text\", bool w = true, int64 v = 9) { " + show(t, "x") + " emit(y); emits(z); emitb(w); emit64(v); }\n";
    src += "public void h" + S(t) + "0(int n, int m) { " + TYPES[t] + " x = " + make(t, "n") + "; g" + S(t) + "(x); }\n";
    src += "public void h" + S(t) + "1(int n, int m) { " + TYPES[t] + " x = " + make(t, "n") + "; g" + S(t) + "(x, m); }\n";
    src += "public void h" + S(t) + "2(int n, int m) { " + TYPES[t] + " x = " + make(t, "n") + "; g" + S(t) + "(x, m, \"t\"); }\n";
    src += "public void h" + S(t) + "3(int n, int m) { " + TYPES[t] + " x = " + make(t, "n") + "; g" + S(t) + "(x, m, \"t\", false); }\n";
  }
  if (getenv("DUMP")) fputs(src.c_str(), stderr);
  load(src);
}
SX_CASE_SETUP(defaults, defaultSetup) {
  int32_t v[4] = {sx_i32("a"), sx_i32("b"), sx_i32("c"), sx_i32("d")};
  int k = 1 + sx_choose("parameters", 4);
  int d = sx_choose("defaults", k + 1);
  int n = k - d + sx_choose("given", d + 1);
  Result r = call("c" + S(k) + S(d) + S(n), ParameterList{arg(v[0]), arg(v[1]), arg(v[2]), arg(v[3])});
  ran(r);
  for (int i = 0; i < k; ++i) want.push_back({0, i < n ? v[i] : 11 * (i + 1), ""});
  check("parameters get the arguments in their order and the defaults otherwise");
  sx_assert(r.i() == want[0].val, "a call yields the returned value");
}
SX_CASE_SETUP(defaults_of_types, defaultSetup) {
  int32_t n = small("n"), m = sx_i32("m");
  unsigned t = sx_choose("type", NT), given = sx_choose("given", 4);
  ran(call("h" + S(t) + S(given), ParameterList{arg(n), arg(m)}));
  want = {shown(t, n), {0, given > 0 ? m : 7, ""}, {1, 0, given > 1 ? "t" : "text"}, {3, given > 2 ? 0 : 1, ""}, {0, 9, ""}};
  check("omitted arguments take their defaults");
}

// ---------------------------------------------------------------- values and references
static void referenceSetup() {
  std::string src = COMMON;
  for (unsigned t = 0; t < NT; ++t) {
    std::string T = TYPES[t];
    src += "public void val" + S(t) + "(" + T + " x val, int m) { x = " + make(t, "m") + "; " + show(t, "x") + " }\n";
    src += "public void ref" + S(t) + "(" + T + " x ref, int m) { x = " + make(t, "m") + "; " + show(t, "x") + " }\n";
    src += "public void dft" + S(t) + "(" + T + " x, int m) { x = " + make(t, "m") + "; " + show(t, "x") + " }\n";
    src += "public void ref2" + S(t) + "(" + T + " x ref, int m) { ref" + S(t) + "(x, m); " + show(t, "x") + " }\n";
    src += "public void two" + S(t) + "(" + T + " x ref, " + T + " y ref, int m) { x = " + make(t, "m") + "; " + show(t, "y") + " }\n";
    // a variable of a basic type is passed by reference if it is a reference itself
    auto var = [&](const char *v, bool isRef) { return t == 7 || !isRef ? T + " " + v + " = " + make(t, "n") + "; " : T + " " + v + " ref = new " + T + "(" + make(t, "n") + "); "; };
    for (const char *k : {"val", "ref", "dft", "ref2"}) {
      for (int isRef = 0; isRef < 2; ++isRef)
        src += "public void " + std::string(k) + "c" + S(t) + S(isRef) + "(int n, int m) { " + var("x", isRef) + var("y", isRef) + k + S(t) + "(x, m); " + show(t, "x") + " " + show(t, "y") + " }\n";
    }
    src += "public void twoc" + S(t) + "1(int n, int m) { " + var("x", true) + var("y", true) + "two" + S(t) + "(x, y, m); " + show(t, "x") + " " + show(t, "y") + " }\n";
    src += "public void samec" + S(t) + "1(int n, int m) { " + var("x", true) + var("y", true) + "two" + S(t) + "(x, x, m); " + show(t, "x") + " " + show(t, "y") + " }\n";
  }
  // members of objects
  src += "public void inner(Item i, int m) { i.set(m); }\n";
  src += "public void member(int n, int m) { Item i = new Item(n); Item j = new Item(n); inner(i, m); emit(i.value); emit(j.value); }\n";
  if (getenv("DUMP")) fputs(src.c_str(), stderr);
  load(src);
}
SX_CASE_SETUP(references, referenceSetup) {
  int32_t n = small("n"), m = small("m");
  unsigned t = sx_choose("type", NT - 1), k = sx_choose("kind", 8);
  static const char *names[] = {"val", "ref", "dft", "ref2", "two", "same", "val", "dft"};
  ran(call(names[k] + std::string("c") + S(t) + (k < 6 ? "1" : "0"), ParameterList{arg(n), arg(m)}));
  Ev a = shown(t, n), b = shown(t, m);
  switch (k) {
    case 0: case 2: case 6: case 7: want = {b, a, a}; break;
    case 1: want = {b, b, a}; break;
    case 3: want = {b, b, b, a}; break;
    case 4: want = {a, b, a}; break;
    case 5: want = {b, b, a}; break;
  }
  check("a parameter by reference changes the variable of the caller, one by value does not");
}
SX_CASE_SETUP(members, referenceSetup) {
  int32_t n = sx_i32("n"), m = sx_i32("m");
  ran(call("member", ParameterList{arg(n), arg(m)}));
  want = {{0, m, ""}, {0, n, ""}};
  check("a method changes exactly the object it was given");
}

// ---------------------------------------------------------------- results
static void resultSetup() {
  std::string src = COMMON;
  for (unsigned t = 0; t < NT; ++t) {
    std::string T = TYPES[t];
    src += "public " + T + " r" + S(t) + "(int n) { " + T + " x = " + make(t, "n") + "; return x; }\n";
    src += "public " + T + " rr" + S(t) + "(int n) { if ( n > 5 ) { return r" + S(t) + "(n); } return " + make(t, "n") + "; }\n";
    src += "public " + T + " p" + S(t) + "(" + T + " x) { return x; }\n";
    src += "public void t" + S(t) + "0(int n) { " + T + " x = r" + S(t) + "(n); " + show(t, "x") + " }\n";
    src += "public void t" + S(t) + "1(int n) { " + T + " x = " + make(t, "3") + "; x = rr" + S(t) + "(n); " + show(t, "x") + " }\n";
    src += "public void t" + S(t) + "2(int n) { " + T + " x = p" + S(t) + "(p" + S(t) + "(r" + S(t) + "(n))); " + show(t, "x") + " }\n";
    src += "public void t" + S(t) + "3(int n) { r" + S(t) + "(n + 1); " + T + " x = " + make(t, "n") + "; r" + S(t) + "(n + 2); " + show(t, "x") + " }\n";
  }
  if (getenv("DUMP")) fputs(src.c_str(), stderr);
  load(src);
}
SX_CASE_SETUP(results, resultSetup) {
  int32_t n = small("n");
  unsigned t = sx_choose("type", NT), k = sx_choose("kind", 4);
  ran(call("t" + S(t) + S(k), ParameterList{arg(n)}));
  want = {shown(t, n)};
  check("a call yields the returned value");
}

// ---------------------------------------------------------------- recursion
static void recursionSetup() {
  load(R"(
public int depth(int n, int a) {
	int local = a + n;
	if ( n > 0 ) {
		int inner = depth(n - 1, a + local);
		emit(inner);
	}
	emit(local);
	emit(n);
	return local;
}
public int even(int n) { if ( n == 0 ) { return 1; } return odd(n - 1); }
public int odd(int n) { if ( n == 0 ) { return 0; } return even(n - 1); }
public int fib(int n, int a, int b) { if ( n == 0 ) { return a; } if ( n == 1 ) { return b; } return fib(n - 1, a, b) + fib(n - 2, a, b); }
public int order(int x, int y, int z) { emit(x); emit(y); emit(z); return x - y - z; }
public int nested(int a, int b, int c) { return order(order(a, b, c), order(b, c, a), order(c, a, b)); }
public int note(int v) { emit(v); return v; }
public int sequence(int a, int b, int c) { return order(note(a), note(b), note(c)); }
public void twice(int a) { int x = 1; for ( int i = 0; i < 2; i++ ) { int y = x; x = a; once(x); emit(y); } emit(x); }
public void once(int x) { int y = x + 1; x = 77; emit(y); }
)");
}
static int32_t depthModel(int n, int32_t a) {
  int32_t local = (int32_t)((uint32_t)a + n);
  if (n > 0) {
    int32_t inner = depthModel(n - 1, (int32_t)((uint32_t)a + local));
    want.push_back({0, inner, ""});
  }
  want.push_back({0, local, ""});
  want.push_back({0, n, ""});
  return local;
}
static int32_t orderModel(int32_t x, int32_t y, int32_t z) {
  for (int32_t v : {x, y, z}) want.push_back({0, v, ""});
  return (int32_t)((uint32_t)x - (uint32_t)y - (uint32_t)z);
}
SX_CASE_SETUP(recursion, recursionSetup) {
  int32_t a = sx_i32("a"), b = sx_i32("b"), c = sx_i32("c");
  switch (sx_choose("program", 6)) {
    case 0: {
      int n = sx_choose("depth", 5);
      Result r = call("depth", ParameterList{arg(n), arg(a)});
      ran(r);
      sx_assert(r.i() == depthModel(n, a), "every call has its own variables");
      break;
    }
    case 1: {
      int n = sx_choose("depth", 5);
      Result r = call(sx_choose("odd", 2) ? "odd" : "even", ParameterList{arg(n)});
      ran(r);
      sx_observe(r.i());
      Result e = call("even", ParameterList{arg(n)}), o = call("odd", ParameterList{arg(n)});
      sx_assert(e.i() == (n % 2 == 0) && o.i() == (n % 2 == 1), "methods can call each other");
      return;
    }
    case 2: {
      int n = sx_choose("depth", 6);
      Result r = call("fib", ParameterList{arg(n), arg(a), arg(b)});
      ran(r);
      uint32_t x = a, y = b;
      for (int i = 0; i < n; ++i) { uint32_t t = x + y; x = y; y = t; }
      sx_assert(r.i() == (int32_t)x, "every call has its own parameters");
      return;
    }
    case 3: {
      Result r = call("nested", ParameterList{arg(a), arg(b), arg(c)});
      ran(r);
      int32_t x = orderModel(a, b, c), y = orderModel(b, c, a), z = orderModel(c, a, b);
      sx_assert(r.i() == orderModel(x, y, z), "arguments are evaluated before the call, in their order");
      break;
    }
    case 4: {
      Result r = call("sequence", ParameterList{arg(a), arg(b), arg(c)});
      ran(r);
      for (int32_t v : {a, b, c}) want.push_back({0, v, ""});
      sx_assert(r.i() == orderModel(a, b, c), "arguments are evaluated before the call, in their order");
      break;
    }
    case 5: {
      ran(call("twice", ParameterList{arg(a)}));
      int32_t p = (int32_t)((uint32_t)a + 1);
      want = {{0, p, ""}, {0, 1, ""}, {0, p, ""}, {0, a, ""}, {0, a, ""}};
      break;
    }
  }
  check("calls do not change variables of other calls");
}
SX_CASE_SETUP(T_deep_recursion, recursionSetup) {
  int32_t a = sx_i32("a");
  int n = sx_choose("depth", 40);
  Result r = call("depth", ParameterList{arg(n), arg(a)});
  ran(r);
  sx_assert(r.i() == depthModel(n, a), "every call has its own variables");
  check("calls do not change variables of other calls");
}

// ---------------------------------------------------------------- calls that match no overload are rejected
SX_CASE(rejected) {
  static const char *values[] = {"b", "s", "i", "l", "f", "d", "t", "o"};
  static const char *declared = "	bool b = true; int16 s = mk16(1); int i = 1; int64 l = mk64(1); float f = mkf(1); double d = mkd(1); string t = \"t\"; Item o = new Item(1);\n";
  unsigned t = sx_choose("parameter", NT), v = sx_choose("argument", NT), more = sx_choose("count", 3);
  std::string src = COMMON;
  src += std::string("public void g(") + TYPES[t] + " x) { }\n";
  src += std::string("public void Main(int argc, string args) {\n") + declared + "	g(" + (more == 0 ? "" : values[v]) + (more == 2 ? std::string(", ") + values[v] : "") + ");\n}\n";
  bool ok = accepts(src);
  if (more != 1) sx_assert(!ok, "a call with a wrong number of arguments is rejected");
  else if (t == v) sx_assert(ok, "a call with the declared type is accepted");
  else sx_assert(!ok, "a call with an argument of another type is rejected");
}
