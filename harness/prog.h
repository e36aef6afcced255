// Small structured programs: printed as script source and executed by a
// reference interpreter written from the language description.
#pragma once
#include "vm.h"

namespace P {

// integer expressions: constant, parameter (a, b, n), loop or switch variable
struct X {
  char kind; // 'c', 'p', 'l'
  int v;
};
inline X K(int v) { return {'c', v}; }
inline X Par(int v) { return {'p', v}; }
inline X L(int v) { return {'l', v}; }
struct C {
  X l;
  char op; // '=', '<'
  X r;
};

struct S;
typedef std::vector<S> Block;
enum Kind { EMIT, IF, WHILE, FOR, FOREACH, SWITCH, BREAK, CONTINUE, RETURN, THROW, RETHROW, TRY, SCOPE, OBJ, BUMP, CALL, CALLEXPR };
struct S {
  Kind kind;
  X x{'c', 0};
  C c{{'c', 0}, '=', {'c', 0}};
  int id = 0;
  std::vector<int> ks; // case labels or catch types
  std::vector<Block> sub;
  bool extra = false; // switch: has default; try: has finally; if: has else
  S(Kind k) : kind(k) {}
};

inline S emit(X x) { S s(EMIT); s.x = x; return s; }
inline S emit(int k) { return emit(K(k)); }
inline S iff(C c, Block t) { S s(IF); s.c = c; s.sub = {t}; return s; }
inline S iff(C c, Block t, Block e) { S s(IF); s.c = c; s.sub = {t, e}; s.extra = true; return s; }
inline S loop(Kind k, int id, X bound, Block b) { S s(k); s.id = id; s.x = bound; s.sub = {b}; return s; }
inline S sw(int id, X x, std::vector<int> labels, std::vector<Block> blocks, bool def) { S s(SWITCH); s.id = id; s.x = x; s.ks = labels; s.sub = blocks; s.extra = def; return s; }
inline S ret(X x) { S s(RETURN); s.x = x; return s; }
inline S thr(int type, X x) { S s(THROW); s.id = type; s.x = x; return s; }
inline S obj(int id, int tag) { S s(OBJ); s.id = id; s.x = K(tag); return s; }
inline S scope(Block b) { S s(SCOPE); s.sub = {b}; return s; }
inline S bump(int id) { S s(BUMP); s.id = id; return s; }
// types: classes ea <- eb, ec; 3 = string; 4 = catch without type
inline S tryy(Block body, std::vector<int> types, std::vector<Block> handlers, bool fin = false, Block f = {}) {
  S s(TRY);
  s.ks = types;
  s.sub = {body};
  for (auto &h : handlers) s.sub.push_back(h);
  s.extra = fin;
  if (fin) s.sub.push_back(f);
  return s;
}
// calls another program method; CALLEXPR uses the result in an expression
inline S callp(int method, X x) { S s(CALL); s.id = method; s.x = x; return s; }
inline S calle(int method, X x) { S s(CALLEXPR); s.id = method; s.x = x; return s; }

// ---------------------------------------------------------------- source text
static const char *kTypes[] = {"EA", "EB", "EC", "string"};
inline std::string str(X x) {
  switch (x.kind) {
  case 'c': return std::to_string(x.v);
  case 'p': return std::string(1, "abnm"[x.v]);
  default: return "v" + std::to_string(x.v);
  }
}
inline std::string str(C c) { return str(c.l) + (c.op == '=' ? " == " : " < ") + str(c.r); }
inline std::string str(const Block &b);
inline std::string str(const S &s) {
  std::string v = "v" + std::to_string(s.id);
  switch (s.kind) {
  case EMIT: return "emit(" + str(s.x) + ");\n";
  case IF: return "if ( " + str(s.c) + " ) {\n" + str(s.sub[0]) + "}\n" + (s.extra ? "else {\n" + str(s.sub[1]) + "}\n" : "");
  case WHILE: return "int " + v + " = 0;\nwhile ( " + v + " < " + str(s.x) + " ) {\n" + v + " = " + v + " + 1;\n" + str(s.sub[0]) + "}\n";
  case FOR: return "for ( int " + v + " = 1; " + v + " <= " + str(s.x) + "; " + v + " = " + v + " + 1 ) {\n" + str(s.sub[0]) + "}\n";
  case FOREACH: return "foreach ( int " + v + " : new Seq(" + str(s.x) + ") ) {\n" + str(s.sub[0]) + "}\n";
  case SWITCH: {
    std::string r = "int " + v + " = " + str(s.x) + ";\nswitch ( " + v + " ) {\n";
    for (size_t i = 0; i < s.ks.size(); ++i) r += "case " + std::to_string(s.ks[i]) + ": {\n" + str(s.sub[i]) + "}\n";
    if (s.extra) r += "default: {\n" + str(s.sub.back()) + "}\n";
    return r + "}\n";
  }
  case BREAK: return "break;\n";
  case CONTINUE: return "continue;\n";
  case RETURN: return "return " + str(s.x) + ";\n";
  case THROW: return s.id == 3 ? "throw \"text\";\n" : std::string("throw new ") + kTypes[s.id] + "(" + str(s.x) + ");\n";
  case RETHROW: return "throw;\n";
  case TRY: {
    std::string r = "try {\n" + str(s.sub[0]) + "}\n";
    for (size_t i = 0; i < s.ks.size(); ++i) {
      if (s.ks[i] == 4) r += "catch {\n" + str(s.sub[i + 1]) + "}\n";
      else if (s.ks[i] == 3) r += "catch ( string e ) {\nemit(-3);\n" + str(s.sub[i + 1]) + "}\n";
      else r += std::string("catch ( ") + kTypes[s.ks[i]] + " e ) {\nemit(e.code());\n" + str(s.sub[i + 1]) + "}\n";
    }
    if (s.extra) r += "finally {\n" + str(s.sub.back()) + "}\n";
    return r;
  }
  case SCOPE: return "{\n" + str(s.sub[0]) + "}\n";
  case OBJ: return "Obj o" + std::to_string(s.id) + " = new Obj(" + str(s.x) + ");\n";
  case BUMP: return v + " = " + v + " + 1;\n";
  case CALL: return "p" + std::to_string(s.id) + "(" + str(s.x) + ", b, n);\n";
  case CALLEXPR: return "emit(1 + p" + std::to_string(s.id) + "(" + str(s.x) + ", b, n));\n";
  }
  return "";
}
inline std::string str(const Block &b) {
  std::string r;
  for (auto &s : b) r += str(s);
  return r;
}

static const char *kPrelude = R"(
public object EA {
  protected int mCode;
  public void Constructor(int c) { mCode = c; }
  public int code() const { return mCode; }
}
public object EB extends EA {
  public void Constructor(int c) { base.Constructor(c); }
}
public object EC {
  protected int mCode;
  public void Constructor(int c) { mCode = c; }
  public int code() const { return mCode; }
}
public object Obj {
  private int mTag;
  public void Constructor(int t) { mTag = t; emit(t); }
  public void Destructor() { emit(-mTag); }
  public int tag() const { return mTag; }
}
public object SeqIterator {
  private int mPos;
  private int mEnd;
  public void Constructor(int n) { mPos = 0; mEnd = n; }
  public bool hasNext() const { return mPos < mEnd; }
  public int next() modify { mPos = mPos + 1; return mPos; }
}
public object Seq {
  private int mEnd;
  public void Constructor(int n) { mEnd = n; }
  public SeqIterator getIterator() const { return new SeqIterator(mEnd); }
}
)";

// ---------------------------------------------------------------- reference
enum Flow { Normal, Break, Continue, Return, Throw };
struct Ref {
  const std::vector<Block> &methods;
  std::vector<int64_t> trace;
  int excType = -1;
  int32_t excVal = 0;
  int32_t retVal = 0;
  struct Env {
    int32_t par[4];
    std::map<int, int32_t> var;
  };
  Ref(const std::vector<Block> &m) : methods(m) {}

  int32_t val(Env &e, X x) { return x.kind == 'c' ? x.v : x.kind == 'p' ? e.par[x.v] : e.var[x.v]; }
  bool val(Env &e, C c) {
    int32_t l = val(e, c.l), r = val(e, c.r);
    return c.op == '=' ? l == r : l < r;
  }
  Flow block(Env &e, const Block &b) {
    Flow f = Normal;
    std::vector<int> objs;
    for (auto &s : b) {
      if (s.kind == OBJ) {
        trace.push_back(s.x.v);
        objs.push_back(s.x.v);
        continue;
      }
      f = stmt(e, s);
      if (f != Normal) break;
    }
    for (int o : objs) trace.push_back(-o);
    return f;
  }
  Flow call(int method, int32_t a, Env &from) {
    Env e;
    e.par[0] = a, e.par[1] = from.par[1], e.par[2] = from.par[2], e.par[3] = 0;
    return block(e, methods[method]);
  }
  Flow stmt(Env &e, const S &s) {
    switch (s.kind) {
    case EMIT: trace.push_back(val(e, s.x)); return Normal;
    case IF:
      if (val(e, s.c)) return block(e, s.sub[0]);
      return s.extra ? block(e, s.sub[1]) : Normal;
    case WHILE:
    case FOR:
    case FOREACH: {
      int32_t bound = val(e, s.x);
      for (int32_t i = 1; i <= bound; ++i) {
        e.var[s.id] = i;
        Flow f = block(e, s.sub[0]);
        if (f == Break) break;
        if (f == Return || f == Throw) return f;
      }
      return Normal;
    }
    case SWITCH:
      e.var[s.id] = val(e, s.x);
      for (;;) {
        const Block *b = s.extra ? &s.sub.back() : nullptr;
        for (size_t i = 0; i < s.ks.size(); ++i)
          if (e.var[s.id] == s.ks[i]) {
            b = &s.sub[i];
            break;
          }
        Flow f = b ? block(e, *b) : Normal;
        if (f == Continue) continue;
        return f == Break ? Normal : f;
      }
    case BREAK: return Break;
    case CONTINUE: return Continue;
    case RETURN: retVal = val(e, s.x); return Return;
    case THROW: excType = s.id; excVal = val(e, s.x); return Throw;
    case RETHROW: return Throw;
    case TRY: {
      Flow f = block(e, s.sub[0]);
      if (f == Throw) {
        if (s.ks.empty()) f = Normal;
        for (size_t i = 0; i < s.ks.size(); ++i) {
          int t = s.ks[i];
          if (t == 4 || t == excType || (t == 0 && excType == 1)) {
            if (t == 3) trace.push_back(-3);
            else if (t != 4) trace.push_back(excVal);
            f = block(e, s.sub[i + 1]);
            break;
          }
        }
      }
      if (s.extra) {
        int32_t rv = retVal, ev = excVal;
        int et = excType;
        Flow g = block(e, s.sub.back());
        if (g != Normal) return g;
        retVal = rv, excVal = ev, excType = et;
      }
      return f;
    }
    case SCOPE: return block(e, s.sub[0]);
    case OBJ: return Normal;
    case BUMP: e.var[s.id]++; return Normal;
    case CALL:
    case CALLEXPR: {
      Flow f = call(s.id, val(e, s.x), e);
      if (f == Throw) return Throw;
      if (s.kind == CALLEXPR) trace.push_back(1 + retVal);
      return Normal;
    }
    }
    return Normal;
  }
};

// ---------------------------------------------------------------- running
static std::vector<Block> methods;
static std::string source;
static size_t firstCase; // methods below are helpers

inline size_t add(const Block &body) {
  Block b = body;
  b.push_back(ret(K(99)));
  methods.push_back(b);
  source += "public int p" + std::to_string(methods.size() - 1) + "(int a, int b, int n) throws {\n" + str(b) + "}\n";
  return methods.size() - 1;
}
inline void loadAll() {
  source = kPrelude + source;
  if (getenv("DUMP")) fputs(source.c_str(), stderr);
  H::load(source);
}
inline void runMethod(unsigned m, int32_t a, int32_t b, int32_t n) {
  Ref ref(methods);
  Ref::Env from;
  from.par[1] = b, from.par[2] = n;
  Flow f = ref.call(m, a, from);
  H::trace.clear();
  auto r = H::call("p" + std::to_string(m), {H::arg(a), H::arg(b), H::arg(n)});
  std::string src = "program " + std::to_string(m);
  for (auto &e : H::trace) sx_observe((uint64_t)e.val);
  if (f == Throw) {
    sx_reach("uncaught");
    sx_assert(r.out == H::Thrown, (src + ": the exception must leave the method").c_str());
    sx_assert(r.what == kTypes[ref.excType], (src + ": type of the exception leaving the method").c_str());
    if (ref.excType != 3) {
      auto *code = dynamic_cast<Slang::Runtime::Object *>(r.exc->resolve("mCode", false, Slang::Visibility::Private));
      sx_assert(code != nullptr, (src + ": thrown object").c_str());
      sx_assert_eq((uint32_t)code->getValue().toInt(), (uint32_t)ref.excVal, (src + ": value of the thrown object").c_str());
    }
  } else {
    sx_assert(r.out == H::Returned, (src + ": normal return").c_str());
    sx_assert_eq((uint32_t)r.i(), (uint32_t)ref.retVal, (src + ": returned value").c_str());
  }
  sx_assert(H::trace.size() == ref.trace.size(), (src + ": number of executed statements").c_str());
  for (size_t i = 0; i < ref.trace.size(); ++i)
    sx_assert_eq((uint64_t)H::trace[i].val, (uint64_t)ref.trace[i], (src + ": order and values of executed statements").c_str());
}
// chooses one of the added programs, runs it for all a, b and 0 <= n <= maxN
inline void run(int maxN) {
  unsigned m = (unsigned)firstCase + sx_choose("program", (unsigned)(methods.size() - firstCase));
  int32_t a = sx_i32("a"), b = sx_i32("b"), n = sx_i32("n");
  sx_assume(n <= maxN);
  runMethod(m, a, b, n);
}

} // namespace P
