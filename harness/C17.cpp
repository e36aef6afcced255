// C17: break points, their conditions and stepping
#include "vm.h"
#include <Core/Common/Token.h>
#include <Debugger/BreakPoint.h>
#include <Debugger/Condition.h>
#include <Debugger/Debugger.h>
#include <Debugger/IReceiver.h>
#include <map>
#include <set>
using namespace H;
using Slang::Core::BreakPoint;
using Slang::Core::Condition;
using Slang::Core::Debugger;
using Slang::Common::Position;

struct Note {
  int kind;  // 0 statement, 1 enter, 2 exit, 3 throw, 4 catch
  unsigned line;
  std::string file;
  bool conditional;
};
static std::vector<Note> notes;
struct Receiver : Slang::Core::IReceiver {
  int add(int k, const BreakPoint &b) {
    notes.push_back({k, b.getLine(), b.getFilename(), b.getCondition().isValid()});
    trace.push_back({100 + k, (int64_t)b.getLine(), ""});
    return 0;
  }
  int notify(IScope *, const BreakPoint &b) override { return add(0, b); }
  int notifyEnter(IScope *, const BreakPoint &b) override { return add(1, b); }
  int notifyExit(IScope *, const BreakPoint &b) override { return add(2, b); }
  int notifyExceptionThrow(IScope *, const BreakPoint &b) override { return add(3, b); }
  int notifyExceptionCatch(IScope *, const BreakPoint &b) override { return add(4, b); }
};
static Receiver receiver, other;

static const char *FILES[] = {"a.os", "b.os", "a.o"};
static Token at(const std::string &file, unsigned line, unsigned column) { return Token(Token::Category::None, Token::Type::IDENTIFIER, "x", Position(file, line, column)); }

// ---------------------------------------------------------------- the set of break points
static void histories(int length) {
  Debugger &d = Debugger::Instance();
  d.clearBreakPoints();
  std::vector<std::pair<std::pair<int, unsigned>, bool>> model;  // position, conditional
  auto find = [&](int f, unsigned l) {
    for (size_t i = 0; i < model.size(); ++i)
      if (model[i].first.first == f && model[i].first.second == l) return (int)i;
    return -1;
  };
  for (int k = 0; k < length; ++k) {
    std::string s = std::to_string(k);
    unsigned op = sx_choose(("op" + s).c_str(), 4);
    if (op == 3) {
      d.clearBreakPoints();
      model.clear();
      sx_assert(d.getBreakPoints().empty(), "no break point is left");
      continue;
    }
    int f = sx_choose(("file" + s).c_str(), 3);
    unsigned line = sx_u32(("line" + s).c_str());
    BreakPoint b(Position(FILES[f], line, sx_u32(("column" + s).c_str())));
    int i = find(f, line);
    if (op == 0 || op == 1) {
      if (op == 1) b.setCondition(Condition("a", "==", "b"));
      d.addBreakPoint(b);
      if (i >= 0) model[i].second = op == 1;
      else model.push_back({{f, line}, op == 1});
      sx_reach("added");
    } else {
      sx_assert(d.removeBreakPoint(b) == (i >= 0), "removing tells whether there was a break point");
      if (i >= 0) { model.erase(model.begin() + i); sx_reach("removed"); }
    }
    sx_assert(d.getBreakPoints().size() == model.size(), "one break point per position");
  }
  // an arbitrary position
  int f = sx_choose("file", 3);
  unsigned line = sx_u32("line");
  int i = find(f, line);
  sx_assert(d.isBreakPoint(BreakPoint(Position(FILES[f], line, 1))) == (i >= 0), "a position is a break point when it was set and not removed");
  for (auto &m : model) {
    bool hit = false;
    for (auto &b : d.getBreakPoints())
      if (b.getFilename() == FILES[m.first.first] && b.getLine() == m.first.second) { hit = b.getCondition().isValid() == m.second; break; }
    sx_assert(hit, "a break point keeps its position and the condition last given");
  }
  // running over the position
  d.unregisterReceiver(&receiver);
  notes.clear();
  d.registerReceiver(&receiver);
  d.resume();
  d.notify(nullptr, at(FILES[f], line, sx_u32("at")));
  sx_assert(notes.size() == (i >= 0 ? 1u : 0u), "a break point stops exactly on its line of its file");
  if (i >= 0) {
    sx_reach("hit");
    sx_assert(notes[0].kind == 0 && notes[0].line == line && notes[0].file == FILES[f] && notes[0].conditional == model[i].second, "the receiver gets the break point");
  }
}
SX_CASE(histories) { histories(2); }
SX_CASE(T_histories) { histories(3); }

// ---------------------------------------------------------------- when the receiver is told
SX_CASE(actions) {
  Debugger &d = Debugger::Instance();
  d.clearBreakPoints();
  unsigned line = sx_u32("line"), set = sx_u32("set");
  d.addBreakPoint(BreakPoint(Position("a.os", set)));
  bool registered = sx_bool("registered");
  if (registered) sx_assert(d.registerReceiver(&receiver), "the first receiver is taken");
  unsigned action = sx_choose("action", 5);
  bool onCatch = sx_bool("catch"), onThrow = sx_bool("throw");
  d.breakOnExceptionCatch(onCatch);
  d.breakOnExceptionThrow(onThrow);
  switch (action) {
    case 0: d.resume(); break;
    case 1: d.resumeWithoutBreaks(); break;
    case 2: d.stepInto(); break;
    case 3: d.stepOut(); break;
    case 4: d.stepOver(); break;
  }
  unsigned event = sx_choose("event", 5);
  Token t = at("a.os", line, 3);
  bool told = false;
  switch (event) {
    case 0: d.notify(nullptr, t); told = action == 4 || (action == 0 && line == set); break;
    case 1: d.notifyEnter(nullptr, t); told = action == 2; break;
    case 2: d.notifyExit(nullptr, t); told = action == 3; break;
    case 3: d.notifyExceptionThrow(nullptr, t); told = onThrow; break;
    case 4: d.notifyExceptionCatch(nullptr, t); told = onCatch; break;
  }
  told = told && registered;
  sx_assert(notes.size() == (told ? 1u : 0u), "the receiver is told exactly about what it asked for");
  if (told) {
    sx_assert(notes[0].kind == (int)event && notes[0].line == line && notes[0].file == "a.os", "the receiver is told the position");
    sx_reach("told");
  }
}

SX_CASE(receivers) {
  Debugger &d = Debugger::Instance();
  Slang::Core::IReceiver *current = nullptr, *all[] = {&receiver, &other};
  for (int k = 0; k < 4; ++k) {
    unsigned who = sx_choose(("who" + std::to_string(k)).c_str(), 2);
    if (sx_choose(("add" + std::to_string(k)).c_str(), 2)) {
      sx_assert(d.registerReceiver(all[who]) == (current == nullptr), "one receiver at a time");
      if (!current) current = all[who];
    } else {
      sx_assert(d.unregisterReceiver(all[who]) == (current == all[who]), "only the registered receiver is removed");
      if (current == all[who]) current = nullptr;
    }
  }
  d.stepOver();
  d.notify(nullptr, at("a.os", 1, 1));
  sx_assert(notes.size() == (current ? 1u : 0u), "only a registered receiver is told");
}

// ---------------------------------------------------------------- order and text of break points
SX_CASE(order) {
  unsigned l[3], f[3];
  std::vector<BreakPoint> b;
  for (int i = 0; i < 3; ++i) {
    f[i] = sx_choose(("file" + std::to_string(i)).c_str(), 3);
    l[i] = sx_u32(("line" + std::to_string(i)).c_str());
    b.push_back(BreakPoint(Position(FILES[f[i]], l[i], i)));
  }
  sx_assert((b[0] == b[1]) == (f[0] == f[1] && l[0] == l[1]), "break points are equal when file and line are");
  sx_assert((b[0] == Position(FILES[f[1]], l[1], 7)) == (f[0] == f[1] && l[0] == l[1]), "a break point is at a position when file and line are equal");
  int n = (b[0] < b[1]) + (b[1] < b[0]) + (b[0] == b[1]);
  sx_assert(n == 1, "exactly one of <, > and == holds");
  if (b[0] < b[1] && b[1] < b[2]) sx_assert(b[0] < b[2], "the order is transitive");
}

// ---------------------------------------------------------------- conditions
static const char *OPS[] = {"==", "!=", "<", "<=", ">", ">="};
static bool holds(int op, int c) {
  switch (op) { case 0: return c == 0; case 1: return c != 0; case 2: return c < 0; case 3: return c <= 0; case 4: return c > 0; default: return c >= 0; }
}
SX_CASE(conditions) {
  newVM();
  vm->init();
  unsigned op = sx_choose("operator", 6), type = sx_choose("type", 7);
  Condition c("x", OPS[op], "y");
  sx_assert(c.isValid() && c.lhs() == "x" && c.rhs() == "y" && c.toString() == std::string("x ") + OPS[op] + " y", "a condition has the given parts");
  Runtime::Object *l = nullptr, *r = nullptr;
  bool want = false;
  switch (type) {
    case 0: { int32_t a = sx_i32("a"), b = sx_i32("b"); l = new Runtime::Int32Type(a); r = new Runtime::Int32Type(b); want = holds(op, a < b ? -1 : a > b); break; }
    case 1: { int64_t a = sx_i64("a"), b = sx_i64("b"); l = new Runtime::Int64Type(a); r = new Runtime::Int64Type(b); want = holds(op, a < b ? -1 : a > b); break; }
    case 2: { int16_t a = sx_i16("a"), b = sx_i16("b"); l = new Runtime::Int16Type(a); r = new Runtime::Int16Type(b); want = holds(op, a < b ? -1 : a > b); break; }
    case 3: { bool a = sx_bool("a"), b = sx_bool("b"); if (op > 1) return; l = new Runtime::BoolType(a); r = new Runtime::BoolType(b); want = holds(op, a < b ? -1 : a > b); break; }
    case 4: { double a = sx_f64("a"), b = sx_f64("b"); sx_assume(a == a && b == b); l = new Runtime::DoubleType(a); r = new Runtime::DoubleType(b); want = holds(op, a < b ? -1 : a > b); break; }
    case 5: { float a = sx_f32("a"), b = sx_f32("b"); sx_assume(a == a && b == b); l = new Runtime::FloatType(a); r = new Runtime::FloatType(b); want = holds(op, a < b ? -1 : a > b); break; }
    case 6: {
      char x[2], y[2];
      sx_bytes(x, 2, "a"); sx_bytes(y, 2, "b");
      std::string a(x, 2), b(y, 2);
      l = new Runtime::StringType(a); r = new Runtime::StringType(b);
      int o = 0;
      for (int i = 0; i < 2 && !o; ++i) if (x[i] != y[i]) o = (unsigned char)x[i] < (unsigned char)y[i] ? -1 : 1;
      want = holds(op, o);
      break;
    }
  }
  sx_assert(c.evaluate(l, r) == want, "a condition holds exactly when its comparison does");
  sx_reach("evaluated");
}
SX_CASE(condition_texts) {
  char t[3];
  unsigned n = sx_choose("size", 4);
  sx_bytes(t, n, "text");
  std::string s(t, n);
  int op = -1;
  for (int i = 0; i < 6; ++i) if (s == OPS[i]) { op = i; break; }
  Condition c("x", s, "y");
  sx_assert(c.isValid() == (op >= 0), "exactly the six comparisons are conditions");
  Condition none;
  sx_assert(!none.isValid() && none.evaluate(nullptr, nullptr), "without a condition a break point always stops");
}

// ---------------------------------------------------------------- programs under the debugger
static const char *PROGRAM =
  "public int sub(int v) { int x = 0;\n"          // 1
  "	x = note(2);\n"                        // 2
  "	if ( v > 3 ) {\n"                  // 3
  "		x = note(4);\n"                      // 4
  "	}\n"                               // 5
  "	else {\n"                          // 6
  "		x = note(7);\n"                      // 7
  "	}\n"                               // 8
  "	return v - 1;\n"                   // 9
  "}\n"                                // 10
  "public void run(int a, int n) { int x = 0;\n"  // 11
  "	x = note(12);\n"                       // 12
  "	while ( n > 0 ) {\n"               // 13
  "		n = sub(n);\n"                   // 14
  "		x = note(15);\n"                     // 15
  "	}\n"                               // 16
  "	try {\n"                           // 17
  "		x = note(18);\n"                     // 18
  "		if ( a == 1 ) { throw 5; }\n"    // 19
  "		x = note(20);\n"                     // 20
  "	}\n"                               // 21
  "	catch {\n"                         // 22
  "		x = note(23);\n"                     // 23
  "	}\n"                               // 24
  "	x = note(25);\n"                       // 25
  "}\n"
  "public int note(int v) { emit(v); return v; }\n";  // 27
static const char *CALLS =
  "public int sub(int v) {\n"          // 1
  "	emit(2);\n"                        // 2
  "	if ( v > 3 ) {\n"                  // 3
  "		emit(4);\n"                      // 4
  "	}\n"                               // 5
  "	else {\n"                          // 6
  "		emit(7);\n"                      // 7
  "	}\n"                               // 8
  "	return v - 1;\n"                   // 9
  "}\n"                                // 10
  "public void run(int a, int n) {\n"  // 11
  "	emit(12);\n"                       // 12
  "	while ( n > 0 ) {\n"               // 13
  "		n = sub(n);\n"                   // 14
  "		emit(15);\n"                     // 15
  "	}\n"                               // 16
  "	try {\n"                           // 17
  "		emit(18);\n"                     // 18
  "		if ( a == 1 ) { throw 5; }\n"    // 19
  "		emit(20);\n"                     // 20
  "	}\n"                               // 21
  "	catch {\n"                         // 22
  "		emit(23);\n"                     // 23
  "	}\n"                               // 24
  "	emit(25);\n"                       // 25
  "}\n";
static std::vector<int64_t> expected(int a, int n) {
  std::vector<int64_t> t{12};
  while (n > 0) {
    t.push_back(2);
    t.push_back(n > 3 ? 4 : 7);
    n--;
    t.push_back(15);
  }
  t.push_back(18);
  t.push_back(a == 1 ? 23 : 20);
  t.push_back(25);
  return t;
}
static void programSetup() { load(PROGRAM); }
static void callSetup() { load(CALLS); }
static void program() {
  int32_t a = sx_i32("a"), n = sx_i32("n");
  sx_assume(n >= 0 && n <= 4);
  Debugger &d = Debugger::Instance();
  d.clearBreakPoints();
  d.init();
  d.registerReceiver(&receiver);
  unsigned action = sx_choose("action", 5);
  // the file name of the running program
  std::string file;
  d.stepOver();
  d.breakOnExceptionThrow(true);
  d.breakOnExceptionCatch(true);
  call("run", ParameterList{arg(2), arg(0)});
  sx_assert(!notes.empty(), "stepping stops at a statement");
  file = notes[0].file;
  notes.clear();
  trace.clear();
  d.resume();
  unsigned first = 1 + sx_choose("first", 26), second = sx_u32("second");
  if (action == 0) {
    d.addBreakPoint(BreakPoint(Position(file, first)));
    d.addBreakPoint(BreakPoint(Position(file, second)));
    d.addBreakPoint(BreakPoint(Position("other.os", 12)));
  } else sx_assume(first == 1 && second == 1);
  switch (action) {
    case 1: d.resumeWithoutBreaks(); break;
    case 2: d.stepInto(); break;
    case 3: d.stepOut(); break;
    case 4: d.stepOver(); break;
  }
  Result r = call("run", ParameterList{arg(a), arg(n)});
  sx_assert(r.out == Returned, "a program runs under the debugger as without");
  std::vector<int64_t> want = expected(a, n);
  size_t w = 0;
  int enters = 0, exits = 0, thrown = 0, caught = 0;
  std::set<int64_t> stopped;
  bool fresh = false;
  int64_t line = 0;
  for (auto &e : trace) {
    if (e.tag >= 100 && e.tag <= 102 && e.val == 27) continue;
    if (e.tag == 100) {
      sx_assert(action == 4 || (action == 0 && (e.val == first || e.val == second)), "the program stops at break points only");
      fresh = true;
      line = e.val;
    } else if (e.tag == 101) enters++;
    else if (e.tag == 102) exits++;
    else if (e.tag == 103) thrown++;
    else if (e.tag == 104) caught++;
    else {
      sx_assert(w < want.size() && e.val == want[w], "a program does under the debugger what it does without");
      w++;
      bool stop = action == 4 || (action == 0 && (e.val == first || e.val == second));
      sx_assert(stop == (fresh && line == e.val), "the program stops before every statement on the line of a break point");
      fresh = false;
    }
  }
  sx_assert(w == want.size(), "a program does under the debugger what it does without");
  sx_assert(enters == (action == 2 ? n + 1 : 0) && exits == (action == 3 ? n + 1 : 0), "stepping in and out stops once per call");
  sx_assert(thrown == (a == 1) && caught == (a == 1), "thrown and caught exceptions are announced");
}
SX_CASE_SETUP(programs, programSetup) { program(); }
SX_CASE_SETUP(call_statements, callSetup) { program(); }
