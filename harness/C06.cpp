// C06: exceptions.
#include "prog.h"
using namespace P;

// throws EA, EB, EC or a string depending on a
static Block T(bool after = true) {
  Block b = {emit(1), iff({Par(0), '=', K(0)}, {thr(0, Par(1))}), iff({Par(0), '=', K(1)}, {thr(1, Par(1))}), iff({Par(0), '=', K(2)}, {thr(2, Par(1))}),
             iff({Par(0), '=', K(3)}, {thr(3, K(0))})};
  if (after) b.push_back(emit(2));
  return b;
}
static std::vector<std::vector<int>> lists(int maxLen) {
  std::vector<std::vector<int>> r = {{}};
  for (int i = 0; i < 5; ++i) {
    r.push_back({i});
    if (maxLen > 1)
      for (int j = 0; j < 5; ++j) r.push_back({i, j});
  }
  return r;
}
static Block handler(int n, int action) {
  switch (action) {
  case 1: return {emit(20 + n), S(RETHROW)};
  case 2: return {emit(20 + n), thr(2, K(77))};
  case 3: return {emit(20 + n), ret(K(55))};
  }
  return {emit(20 + n)};
}
static Block fin(int kind) {
  switch (kind) {
  case 1: return {emit(30)};
  case 2: return {emit(30), tryy({thr(2, K(66))}, {2}, {{emit(31)}}), emit(32)}; // handles an exception of its own
  case 3: return {emit(30), thr(1, K(44))};
  case 4: return {emit(30), ret(K(45))};
  }
  return {};
}
static void single() {
  for (auto &l : lists(2))
    for (int action = 0; action < 4; ++action) {
      if (l.empty() && action) continue;
      for (int f = 0; f < 5; ++f) {
        if (f > 2 && (action == 2 || l.size() > 1)) continue;
        std::vector<Block> hs;
        for (size_t i = 0; i < l.size(); ++i) hs.push_back(handler((int)i, action));
        add({emit(0), tryy(T(), l, hs, f > 0, fin(f)), emit(9)});
      }
    }
  loadAll();
}
static void nested() {
  for (auto &out : lists(1))
    for (auto &in : lists(1))
      for (int action = 0; action < 4; ++action) {
        if (in.empty() && action) continue;
        for (int f = 0; f < 3; ++f) {
          Block inner = {tryy(T(), in, in.empty() ? std::vector<Block>{} : std::vector<Block>{handler(0, action)}, f > 0, fin(f)), emit(40)};
          add({emit(0), tryy(inner, out, out.empty() ? std::vector<Block>{} : std::vector<Block>{{emit(50)}}, true, {emit(51)}), emit(9)});
        }
      }
  loadAll();
}
static void loops() {
  for (Kind k : {WHILE, FOR, FOREACH})
    for (int type = 0; type < 5; ++type)
      for (int action = 0; action < 4; ++action)
        for (int f = 0; f < 2; ++f) {
          // the exception is thrown in iteration b
          Block body = {emit(L(1)), tryy({emit(1), iff({L(1), '=', Par(1)}, T()), emit(3)}, {type}, {handler(0, action)}, f > 0, fin(f)), emit(4)};
          add({loop(k, 1, Par(2), body), emit(9)});
          // the loop is inside the try
          add({tryy({loop(k, 1, Par(2), {emit(L(1)), iff({L(1), '=', Par(1)}, T()), emit(3)}), emit(5)}, {type}, {handler(0, action)}, f > 0, fin(f)), emit(9)});
        }
  loadAll();
}
static void switches() {
  for (int type = 0; type < 5; ++type)
    for (int f = 0; f < 2; ++f) {
      Block c0 = T();
      c0.push_back(BREAK);
      add({tryy({sw(1, Par(1), {0, 1}, {c0, {emit(60), S(BREAK)}, {thr(1, Par(0)), S(BREAK)}}, true), emit(61)}, {type}, {{emit(20)}}, f > 0, fin(f)), emit(9)});
      add({sw(1, Par(1), {0}, {{tryy(T(), {type}, {{emit(20)}}, f > 0, fin(f)), emit(62), S(BREAK)}, {emit(63), S(BREAK)}}, true), emit(9)});
    }
  loadAll();
}
static void calls() {
  int h0 = add(T());                                                       // throws
  int h1 = add({callp(h0, Par(0)), emit(10)});                             // passes on
  int h2 = add({calle(h0, Par(0)), emit(11)});                             // passes on from an expression
  int h3 = add({tryy({callp(h0, Par(0))}, {2}, {{emit(12)}}, true, {emit(13)}), emit(14)});
  int h4 = add({loop(FOR, 1, K(2), {callp(h1, Par(0)), emit(15)})});
  int h5 = add({loop(WHILE, 1, K(2), {calle(h2, Par(0)), emit(16)})});
  int h6 = add({tryy({callp(h1, Par(0))}, {0}, {{thr(2, K(5))}}), emit(17)});
  firstCase = methods.size();
  for (int h : {h0, h1, h2, h3, h4, h5, h6})
    for (auto &l : lists(1))
      for (int f = 0; f < 2; ++f)
        for (int e = 0; e < 2; ++e) {
          std::vector<Block> hs;
          for (size_t i = 0; i < l.size(); ++i) hs.push_back({emit(20)});
          Block body = {e ? calle(h, Par(0)) : callp(h, Par(0)), emit(18)};
          add({tryy(body, l, hs, f > 0, fin(f)), emit(9)});
          // a second call shows that nothing of the first one is left
          if (!l.empty()) add({tryy(body, l, hs, f > 0, fin(f)), calle(h3, K(2)), emit(9)});
        }
  loadAll();
}

// the exception is raised at different places of statements
struct Place {
  const char *text;
  std::vector<int> before, normal; // trace before the throw; trace without exception
};
static const std::vector<Place> kPlaces = {
    {"boom(a);", {}, {50}},
    {"int x = boom(a); emit(x);", {}, {50, -1}},
    {"int x = 1; x = boom(a); emit(x);", {}, {50, -1}},
    {"int x = 1 + boom(a) * 2; emit(60);", {}, {50, 60}},
    {"if ( boom(a) == 0 ) { emit(61); } else { emit(62); }", {}, {50, 62}},
    {"if ( b == b && boom(a) != 0 ) { emit(61); }", {}, {50, 61}},
    {"while ( boom(a) == 0 ) { emit(61); } emit(62);", {}, {50, 62}},
    {"for ( int i = boom(a); i != a; i++ ) { emit(61); } emit(62);", {}, {50, 62}},
    {"for ( int i = 0; i < 1 && boom(a) != 0; i++ ) { emit(61); } emit(62);", {}, {50, 61, 62}},
    {"for ( int i = 0; i < 1; i = i + 1 + boom(a) - a ) { emit(61); } emit(62);", {61}, {61, 50, 62}},
    {"switch ( boom(a) ) { case 0: { emit(61); break; } default: { emit(62); break; } } emit(63);", {}, {50, 62, 63}},
    {"switch ( b - b ) { case boom(a): { emit(61); break; } default: { emit(62); break; } } emit(63);", {}, {50, 62, 63}},
    {"emit(boom(a));", {}, {50, -1}},
    {"two(boom(b - b + 1), boom(a)); emit(64);", {50}, {50, 50, 65, 64}},
    {"two(boom(a), boom(b - b + 1)); emit(64);", {}, {50, 50, 65, 64}},
    {"EA o = new EA(boom(a)); emit(o.code());", {}, {50, -1}},
    {"Thrower o = new Thrower(a); emit(66);", {67}, {67, 66}},
    {"Holder h = new Holder(); emit(h.self().fail(a));", {}, {50, -1}},
    {"Holder h = new Holder(); int y = h.self().fail(a); emit(66);", {}, {50, 66}},
    {"Holder h = new Holder(); h.mValue = h.fail(a); emit(h.mValue);", {}, {50, -1}},
    {"take(new Thrower(a));", {67}, {67, 68}},
    {"takeTwo(new Thrower(a), boom(b - b + 1));", {67}, {67, 50, 68}},
    {"Thrower o; o = new Thrower(a); emit(66);", {67}, {67, 66}},
    {"if ( new Thrower(a) is Thrower ) { emit(66); }", {67}, {67, 66}},
    {"Thrower o = makeThrower(a); emit(66);", {67}, {67, 69, 66}},

    {"string s = \"x\" + (boom(a) == 0) + \"y\"; emit(66);", {}, {50, 66}},
    {"emit((b == b) ? 70 : 71); emit((b == b) ? boom(a) : 72);", {70}, {70, 50, -1}},
    {"int y = int boom(a); emit(y);", {}, {50, -1}},
    {"int y = -boom(a); emit(-y);", {}, {50, -1}},
    {"bool z = !(bool boom(a)); emit(66);", {}, {50, 66}},
    {"int y = boomThroughReturn(a); emit(y);", {}, {50, -1}},
    {"{ { { boom(a); } } } emit(66);", {}, {50, 66}},
    {"foreach ( int v : new BadSeq(a, 1) ) { emit(v); } emit(66);", {}, {1, 2, 66}},
    {"foreach ( int v : new BadSeq(a, 2) ) { emit(v); } emit(66);", {1}, {1, 2, 66}},
    {"foreach ( int v : new BadSeq(a, 3) ) { emit(v); } emit(66);", {1}, {1, 2, 66}},
    {"foreach ( int v : new Seq(2) ) { emit(v); boom(a); } emit(66);", {1}, {1, 50, 2, 50, 66}},
    {"foreach ( int v : makeSeq(boom(a)) ) { emit(v); } emit(66);", {}, {50, 1, 2, 66}},
};
static const char *kPlacePrelude = R"(
public int boom(int x) throws { if ( x == 0 ) { throw new EA(5); } emit(50); return x; }
public int boomThroughReturn(int x) throws { return boom(x); }
public void two(int x, int y) { emit(65); }
public object Thrower {
  public void Constructor(int x) throws { emit(67); if ( x == 0 ) { throw new EA(5); } }
}
public void take(Thrower t) { emit(68); }
public void takeTwo(Thrower t, int v) { emit(68); }
public Thrower makeThrower(int x) throws { Thrower t = new Thrower(x); emit(69); return t; }
public object Holder {
  public int mValue;
  public Holder self() const { return this; }
  public int fail(int x) const throws { return boom(x); }
}
public object BadIterator {
  private int mA;
  private int mMode;
  private int mPos;
  public void Constructor(int a, int mode) { mA = a; mMode = mode; mPos = 0; }
  public bool hasNext() const throws {
    if ( mMode == 3 && mPos == 1 && mA == 0 ) { throw new EA(5); }
    return mPos < 2;
  }
  public int next() modify throws {
    if ( mMode == 2 && mPos == 1 && mA == 0 ) { throw new EA(5); }
    mPos = mPos + 1;
    return mPos;
  }
}
public object BadSeq {
  private int mA;
  private int mMode;
  public void Constructor(int a, int mode) { mA = a; mMode = mode; }
  public BadIterator getIterator() const throws {
    if ( mMode == 1 && mA == 0 ) { throw new EA(5); }
    return new BadIterator(mA, mMode);
  }
}
public Seq makeSeq(int x) { return new Seq(2); }
)";
static void placeSetup() {
  source = kPlacePrelude;
  for (size_t i = 0; i < kPlaces.size(); ++i) {
    source += "public int q" + std::to_string(i) + "(int a, int b) throws {\n int outer = b;\n try {\n" + kPlaces[i].text + "\n emit(2);\n }\n catch ( EA e ) {\n emit(e.code());\n }\n finally { emit(3); }\n" +
              " emit(4);\n int inner = outer;\n return inner;\n}\n";
    source += "public int c" + std::to_string(i) + "(int a, int b) throws {\n int outer = b;\n" + kPlaces[i].text + "\n emit(2);\n return outer;\n}\n" + "public int d" + std::to_string(i) +
              "(int a, int b) throws {\n int outer = b;\n try { outer = c" + std::to_string(i) + "(a, b); emit(6); } catch ( EC e ) { emit(7); } catch ( EA e ) { emit(e.code()); }\n return outer;\n}\n";
  }
  loadAll();
}
SX_CASE_SETUP(throw_places, placeSetup) {
  unsigned i = sx_choose("place", (unsigned)kPlaces.size());
  bool far = sx_choose("far", 2); // the handler is in the caller
  int32_t a = sx_i32("a"), b = sx_i32("b");
  auto r = H::call((far ? "d" : "q") + std::to_string(i), {H::arg(a), H::arg(b)});
  std::string msg = kPlaces[i].text;
  std::vector<int64_t> want;
  auto put = [&](const std::vector<int> &v) {
    for (int x : v) want.push_back(x == -1 ? a : x);
  };
  if (a == 0) {
    sx_reach("thrown");
    put(kPlaces[i].before);
    put({5});
    if (!far) put({3, 4});
  } else {
    put(kPlaces[i].normal);
    put({2});
    if (far) put({6});
    else put({3, 4});
  }
  sx_assert(r.out == H::Returned, msg.c_str());
  sx_assert_eq((uint32_t)r.i(), (uint32_t)b, msg.c_str());
  sx_assert(H::trace.size() == want.size(), msg.c_str());
  for (size_t k = 0; k < want.size(); ++k) sx_assert_eq((uint64_t)H::trace[k].val, (uint64_t)want[k], msg.c_str());
}
// errors of extension methods become script exceptions
static void extSetup() {
  source = "public int q(int a) throws {\n try { emit(1); int x = failx(a); emit(x); }\n catch ( string e ) { emit(2); }\n finally { emit(3); }\n return a;\n}\n"
           "public int q2(int a) throws {\n failx(a); emit(1); return a;\n}\n";
  loadAll();
}
SX_CASE_SETUP(extension_errors, extSetup) {
  int32_t a = sx_i32("a");
  if (sx_choose("which", 2)) {
    auto r = H::call("q2", {H::arg(a)});
    sx_assert((a == 0) == (r.out == H::Thrown), "extension error leaves the method");
    if (a == 0) sx_assert(r.what == "string", "type of an extension error");
    else H::expectTrace({1}, "statements after an extension call");
    return;
  }
  auto r = H::call("q", {H::arg(a)});
  sx_assert(r.out == H::Returned && r.i() == a, "extension error is handled");
  if (a == 0) H::expectTrace({1, 2, 3}, "handler of an extension error");
  else H::expectTrace({1, a, 3}, "no extension error");
}

// selection of the handler: all lists of up to three handlers, all thrown types
struct Sel {
  int thrown;
  std::vector<int> handlers; // 4: handler without type
};
static std::vector<Sel> kSel;
static const char *kSelTypes[] = {"XA", "XB", "XC", "XD", "string", "int"};
static bool accepts(int handler, int thrown) {
  // XD extends XB extends XA
  if (handler == 6) return true;
  if (handler == thrown) return true;
  if (handler == 0) return thrown == 1 || thrown == 3;
  if (handler == 1) return thrown == 3;
  return false;
}
static void selSetup() {
  source = R"(
public object XA { protected int mCode; public void Constructor(int c) { mCode = c; } public int code() const { return mCode; } public int kind() const { return 0; } }
public object XB extends XA { public void Constructor(int c) { base.Constructor(c); } public int kind() const { return 1; } }
public object XC { protected int mCode; public void Constructor(int c) { mCode = c; } public int code() const { return mCode; } public int kind() const { return 2; } }
public object XD extends XB { public void Constructor(int c) { base.Constructor(c); } public int kind() const { return 3; } }
)";
  kSel.clear();
  for (int t = 0; t < 6; ++t)
    for (int a = 0; a < 7; ++a) {
      kSel.push_back({t, {a}});
      for (int b = 0; b < 7; ++b) {
        kSel.push_back({t, {a, b}});
        if (t < 4)
          for (int c = 0; c < 4; ++c) kSel.push_back({t, {a, b, c}});
      }
    }
  for (size_t i = 0; i < kSel.size(); ++i) {
    auto &s = kSel[i];
    source += "public int s" + std::to_string(i) + "(int a) throws {\n try { throw ";
    source += s.thrown == 4 ? "\"t\"" : s.thrown == 5 ? "a" : "new " + std::string(kSelTypes[s.thrown]) + "(a)";
    source += "; }\n";
    for (size_t k = 0; k < s.handlers.size(); ++k) {
      int h = s.handlers[k];
      if (h == 6) source += " catch { emit(" + std::to_string(100 + k) + "); }\n";
      else source += std::string(" catch ( ") + kSelTypes[h] + " e ) { emit(" + std::to_string(100 + k) + "); " + (h < 4 ? "emit(e.kind()); emit(e.code());" : h == 5 ? "emit(e);" : "emits(e);") + " }\n";
    }
    source += " return 0;\n}\n";
  }
  loadAll();
}
SX_CASE_SETUP(handler_selection, selSetup) {
  unsigned i = sx_choose("list", (unsigned)kSel.size());
  auto &s = kSel[i];
  int32_t a = sx_i32("a");
  auto r = H::call("s" + std::to_string(i), {H::arg(a)});
  std::string msg = std::string("thrown ") + kSelTypes[s.thrown] + ", handlers";
  for (int h : s.handlers) msg += std::string(" ") + (h == 6 ? "any" : kSelTypes[h]);
  size_t k = 0;
  while (k < s.handlers.size() && !accepts(s.handlers[k], s.thrown)) ++k;
  if (k == s.handlers.size()) {
    sx_assert(r.out == H::Thrown && r.what == kSelTypes[s.thrown] && H::trace.empty(), msg.c_str());
    sx_reach("uncaught");
    return;
  }
  sx_assert(r.out == H::Returned, msg.c_str());
  if (s.handlers[k] == 6) H::expectTrace({100 + (int64_t)k}, msg.c_str());
  else if (s.thrown < 4) H::expectTrace({100 + (int64_t)k, s.thrown, a}, msg.c_str());
  else if (s.thrown == 5) H::expectTrace({100 + (int64_t)k, a}, msg.c_str());
  else sx_assert(H::trace.size() == 2 && H::trace[0].val == 100 + (int64_t)k && H::trace[1].str == "t", msg.c_str());
}
SX_CASE_SETUP(single_try, single) { run(0); }
SX_CASE_SETUP(nested_try, nested) { run(0); }
SX_CASE_SETUP(try_and_loops, loops) { run(2); }
SX_CASE_SETUP(try_and_switch, switches) { run(0); }
SX_CASE_SETUP(try_and_calls, calls) { run(0); }
