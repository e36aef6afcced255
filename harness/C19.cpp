// Enumerations: values of the members, comparison, conversion and variables of enumeration type.
#include "vm.h"
using namespace H;

// ---------------------------------------------------------------- declaration
static void empty() {
  newVM();
  vm->init();
}
// Members with an optional explicit value of one or two (symbolic) digits each.
template <unsigned N> static void declared() {
  std::string src = std::string(sx_choose("visibility", 2) ? "public " : "") + "enum E { ";
  std::vector<int> want;
  int next = 0;
  bool ok = true;
  for (unsigned k = 0; k < N; ++k) {
    std::string name(1, (char)('A' + k));
    src += (k ? ", " : "") + name;
    int value = next;
    unsigned digits = sx_choose(("digits_" + name).c_str(), 3);
    if (digits) {
      src += " = ";
      value = 0;
      for (unsigned d = 0; d < digits; ++d) {
        uint8_t c = sx_u8(("d" + name + std::to_string(d)).c_str());
        sx_assume(c >= '0' && c <= '9');
        src += (char)c;
        value = value * 10 + (c - '0');
      }
    }
    if (value < next) ok = false;
    want.push_back(value);
    next = value + 1;
  }
  src += sx_choose("semicolon", 2) ? "; }\n" : " }\n";
  for (unsigned k = 0; k < N; ++k) src += "public int v" + std::to_string(k) + "() { return int E." + std::string(1, (char)('A' + k)) + "; }\n";
  bool accepted = false;
  try {
    vm->createScriptFromString(src);
    accepted = true;
  } catch (std::exception &) {
  }
  sx_observe(accepted);
  sx_assert(accepted == ok, accepted ? "members that are not ascending are accepted" : "ascending members are rejected");
  if (!accepted) {
    sx_reach("rejected");
    return;
  }
  Controller::Instance().phase(Controller::Phase::Execution);
  thread = Controller::Instance().threads()->createThread();
  for (unsigned k = 0; k < N; ++k) {
    auto r = call("v" + std::to_string(k));
    sx_assert(r.out == Returned, "value of a member");
    sx_assert_eq((uint64_t)r.i(), (uint64_t)(int64_t)want[k], "value of a member");
  }
  sx_reach("accepted");
}
SX_CASE_SETUP(declared_1, empty) { declared<1>(); }
SX_CASE_SETUP(declared_2, empty) { declared<2>(); }
SX_CASE_SETUP(declared_3, empty) { declared<3>(); }
SX_CASE_SETUP(T_declared_4, empty) { declared<4>(); }

// ---------------------------------------------------------------- use
static const int kValue[] = {0, 3, 4, 100};
static const char *kMember[] = {"None", "Red", "Green", "Blue"};
static const char *kCmp[] = {"<", "<=", ">", ">=", "==", "!="};
static std::string source;
static void useSetup() {
  source = R"(
public enum Color { None, Red = 3, Green, Blue = 100; }
public enum Other { X, Y = 3; }
public namespace Space { public enum Color { Far = 9; } }
public Color pick(int k) { if ( k == 0 ) { return Color.None; } if ( k == 1 ) { return Color.Red; } if ( k == 2 ) { return Color.Green; } return Color.Blue; }
public Color same(Color c) { return c; }
public Color over(Color c, Color d) { c = d; return c; }
public object Holder {
  public Color mColor;
  public Color mSecond;
  public void Constructor(Color c) { mColor = c; mSecond = Color.Green; }
  public Color get() const { return mColor; }
  public void set(Color c) modify { mColor = c; }
  public void swap() modify { Color t = mColor; mColor = mSecond; mSecond = t; }
  public Color second() const { return mSecond; }
}
public void members() { emit(int Color.None); emit(int Color.Red); emit(int Color.Green); emit(int Color.Blue); emit(int Other.X); emit(int Other.Y); emit(int Space.Color.Far); }
public int convert(int k, int form) {
  Color c = pick(k);
  int i = 77;
  if ( form == 0 ) { i = c; }
  if ( form == 1 ) { i = int c; }
  if ( form == 2 ) { i = cast<int>(c); }
  if ( form == 3 ) { int j = c; i = j; }
  if ( form == 4 ) { i = pick(k); }
  if ( form == 5 ) { i = int same(c); }
  return i;
}
public string text(int k, int form) {
  Color c = pick(k);
  if ( form == 0 ) { string s = c; return s; }
  if ( form == 1 ) { return string c; }
  return cast<string>(c);
}
public bool truth(int k) { Color c = pick(k); if ( c ) { return true; } return false; }
public int select(int k) {
  Color c = pick(k);
  int r = 0;
  switch ( c ) {
    case Color.Red: { r = 10; break; }
    case Color.Blue: { r = 20; break; }
    case Color.None: { r = 30; break; }
    default: { r = 40; break; }
  }
  return r;
}
)";
  for (int op = 0; op < 6; ++op) {
    std::string n = std::to_string(op);
    source += "public bool ee" + n + "(int k, int j) { Color c = pick(k); Color d = pick(j); return c " + kCmp[op] + " d; }\n";
    source += "public bool ei" + n + "(int k, int i) { Color c = pick(k); return c " + kCmp[op] + " i; }\n";
    source += "public bool ie" + n + "(int i, int k) { Color c = pick(k); return i " + kCmp[op] + " c; }\n";
    for (int m = 0; m < 4; ++m) {
      source += "public bool em" + n + std::to_string(m) + "(int k) { Color c = pick(k); return c " + kCmp[op] + " Color." + kMember[m] + "; }\n";
      source += "public bool me" + n + std::to_string(m) + "(int i) { return Color." + kMember[m] + " " + kCmp[op] + " i; }\n";
    }
  }
  // what a variable holds after a history of assignments
  source += R"(
public void step(Holder h, int k, int what) {
  if ( what == 0 ) { h.set(pick(k)); }
  if ( what == 1 ) { h.mColor = pick(k); }
  if ( what == 2 ) { h.swap(); }
  if ( what == 3 ) { Color t = h.get(); t = pick(k); emit(int t); }
  if ( what == 4 ) { h.mColor = over(h.mColor, pick(k)); }
  if ( what == 5 ) { Color t = same(h.mSecond); h.mSecond = h.mColor; t = h.mSecond; emit(int t); }
  if ( what == 6 ) { Color r = over(h.mColor, pick(k)); emit(int r); }
  emit(int h.mColor); emit(int h.mSecond); emit(int h.get()); emit(int h.second());
}
public void history(int k0, int k1, int w1, int k2, int w2, int k3, int w3) {
  Holder h = new Holder(pick(k0));
  emit(int h.mColor); emit(int h.mSecond);
  step(h, k1, w1);
  if ( w2 < 7 ) { step(h, k2, w2); }
  if ( w3 < 7 ) { step(h, k3, w3); }
  members();
}
public void locals(int k1, int k2, int k3) {
  Color a = pick(k1);
  Color b = a;
  Color c;
  emit(int c);
  a = pick(k2);
  emit(int a); emit(int b);
  c = b;
  b = pick(k3);
  emit(int a); emit(int b); emit(int c);
  a = b = Color.Red;
  emit(int a); emit(int b); emit(int c);
  members();
}
)";
  if (getenv("DUMP")) puts(source.c_str());
  load(source);
}
static bool cmp(unsigned op, int64_t a, int64_t b) {
  switch (op) {
  case 0: return a < b;
  case 1: return a <= b;
  case 2: return a > b;
  case 3: return a >= b;
  case 4: return a == b;
  default: return a != b;
  }
}
static void returned(const Result &r, bool want, const char *what) {
  sx_assert(r.out == Returned, what);
  bool g = r.b();
  sx_observe(g);
  sx_assert(g == want, what);
}
SX_CASE_SETUP(compare_members, useSetup) {
  unsigned op = sx_choose("op", 6), k = sx_choose("left", 4), j = sx_choose("right", 4);
  if (sx_choose("form", 2)) returned(call("ee" + std::to_string(op), {arg((int32_t)k), arg((int32_t)j)}), cmp(op, kValue[k], kValue[j]), "comparison of two variables");
  else returned(call("em" + std::to_string(op) + std::to_string(j), {arg((int32_t)k)}), cmp(op, kValue[k], kValue[j]), "comparison with a member");
}
SX_CASE_SETUP(compare_ints, useSetup) {
  unsigned op = sx_choose("op", 6), k = sx_choose("member", 4), form = sx_choose("form", 3);
  int32_t i = sx_i32("i");
  auto n = std::to_string(op);
  if (form == 0) returned(call("ei" + n, {arg((int32_t)k), arg(i)}), cmp(op, kValue[k], i), "comparison of a variable with a number");
  else if (form == 1) returned(call("ie" + n, {arg(i), arg((int32_t)k)}), cmp(op, i, kValue[k]), "comparison of a number with a variable");
  else returned(call("me" + n + std::to_string(k), {arg(i)}), cmp(op, kValue[k], i), "comparison of a member with a number");
}
SX_CASE_SETUP(convert, useSetup) {
  unsigned k = sx_choose("member", 4), what = sx_choose("what", 4);
  if (what == 0) {
    auto r = call("convert", {arg((int32_t)k), arg((int32_t)sx_choose("form", 6))});
    sx_assert(r.out == Returned && r.i() == kValue[k], "a member as number");
  } else if (what == 1) {
    auto r = call("text", {arg((int32_t)k), arg((int32_t)sx_choose("form", 3))});
    sx_assert(r.out == Returned && r.s() == std::to_string(kValue[k]), "a member as text");
  } else if (what == 2)
    returned(call("truth", {arg((int32_t)k)}), kValue[k] != 0, "a member as condition");
  else {
    auto r = call("select", {arg((int32_t)k)});
    static const int want[] = {30, 10, 40, 20};
    sx_assert(r.out == Returned && r.i() == want[k], "switch over an enumeration");
  }
}
// emit takes int: the recorded values are those of the members
static void expect(const std::vector<int64_t> &want) {
  static const int64_t members[] = {0, 3, 4, 100, 0, 3, 9};
  std::vector<int64_t> w = want;
  w.insert(w.end(), members, members + 7);
  expectTrace(w, "values held after the assignments");
}
template <unsigned Steps> static void history() {
  unsigned k[4], w[4] = {7, 7, 7, 7};
  for (unsigned i = 0; i <= Steps; ++i) {
    k[i] = sx_choose(("member" + std::to_string(i)).c_str(), 4);
    if (i) w[i] = sx_choose(("step" + std::to_string(i)).c_str(), 7);
  }
  for (unsigned i = Steps + 1; i < 4; ++i) k[i] = 0;
  int first = kValue[k[0]], second = 4;
  std::vector<int64_t> want{first, second};
  for (unsigned i = 1; i <= Steps; ++i) {
    int v = kValue[k[i]];
    switch (w[i]) {
    case 0: case 1: case 4: first = v; break;
    case 2: std::swap(first, second); break;
    case 3: want.push_back(v); break;
    case 5: second = first; want.push_back(second); break;
    case 6: want.push_back(v); break;
    }
    for (int64_t x : {first, second, first, second}) want.push_back(x);
  }
  auto r = call("history", {arg((int32_t)k[0]), arg((int32_t)k[1]), arg((int32_t)w[1]), arg((int32_t)k[2]), arg((int32_t)w[2]), arg((int32_t)k[3]), arg((int32_t)w[3])});
  sx_assert(r.out == Returned, "assignments to enumeration members");
  expect(want);
}
SX_CASE_SETUP(history_2, useSetup) { history<2>(); }
SX_CASE_SETUP(T_history_3, useSetup) { history<3>(); }
SX_CASE_SETUP(locals, useSetup) {
  unsigned k1 = sx_choose("member1", 4), k2 = sx_choose("member2", 4), k3 = sx_choose("member3", 4);
  auto r = call("locals", {arg((int32_t)k1), arg((int32_t)k2), arg((int32_t)k3)});
  sx_assert(r.out == Returned, "assignments to enumeration variables");
  int64_t a = kValue[k1], b = kValue[k2], c = kValue[k3];
  expect({0, b, a, b, c, a, 3, 3, a});
}

// ---------------------------------------------------------------- what is not accepted
SX_CASE(rejected) {
  static const char *bodies[] = {
      "c = 5;", "c = Other.X;", "bool b = c == o;", "bool b = c < Other.Y;", "c = Color.Purple;", "Color.Red = Color.Blue;", "Color.Red = c;", "c++;", "c--;",
      "c = c + Color.Red;", "c = c - c;", "c = c * c;", "c = c / c;", "c += Color.Red;", "int i = c + 1;", "int i = 1 + c;", "Color d const = c; d = Color.Red;",
      "c = \"Red\";", "c = true;", "o = c;", "bool b = c == 1.5d;", "c = -c;", "int i = c & c;"};
  const unsigned n = sizeof(bodies) / sizeof(*bodies);
  unsigned k = sx_choose("body", n);
  bool ok = accepts(std::string("public enum Color { Red = 1, Blue = 5; }\npublic enum Other { X, Y; }\npublic void f() { Color c = Color.Red; Other o = Other.X; ") + bodies[k] + " }\n");
  sx_observe(ok);
  sx_assert(!ok, (std::string("accepted: ") + bodies[k]).c_str());
}
SX_CASE(rejected_declarations) {
  static const char *decl[] = {"enum E { }", "enum E { ; }", "enum E { A, }", "enum E { A, ; }", "enum E { A = }", "enum E { A = B }", "enum E { A B }", "enum E { A = 1 2 }", "enum E { A, A }", "enum E { 1 }", "enum E { A = -1 }", "enum E { A = \"1\" }", "enum E { A = 1.5f }", "enum E { A; B; }", "enum { A }"};
  unsigned k = sx_choose("declaration", sizeof(decl) / sizeof(*decl));
  bool ok = accepts(std::string("public ") + decl[k] + "\n");
  sx_observe(ok);
  sx_assert(!ok, (std::string("accepted: ") + decl[k]).c_str());
}
