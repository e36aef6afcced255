// Run time of the solver based checker: expressions, path condition, shadow
// memory, solver (Z3 through its C API, loaded with dlopen) and the path
// explorer.  Compiled without instrumentation.
#include "z3.h"
#include <execinfo.h>
#include <algorithm>
#include <bitset>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "sx.h"

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

#define HANDLE_UNARY_INST(N, O, C) L_##O = N,
#define HANDLE_BINARY_INST(N, O, C) L_##O = N,
#define HANDLE_CAST_INST(N, O, C) L_##O = N,
enum LOp {
#include "llvm/IR/Instruction.def"
};

enum { P_EQ = 32, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

enum Op : u8 { CONST, VAR, BIN, FBIN, ICMP, FCMP, ITE, ZEXT, SEXT, EXTRACT, CONCAT, FCAST, FUN, OVF };

static const unsigned kMaxVars = 512;
typedef std::bitset<kMaxVars> VarSet;

struct Node {
  Op op;
  u8 w;
  u32 aux;
  Node *k[3];
  u64 conc;
  u64 h1, h2;
  Z3_ast ast;  // bit-vector (or Bool when isBool)
  Z3_ast fp;   // floating point view
  bool isBool; // ast is a Bool
  VarSet *vars;
  Node *next;
};

#define DEFAULT_VIS __attribute__((visibility("default")))

extern "C" {
void *_sx_callee;
Node *_sx_ret[16];
Node *_sx_args[64];
u8 _sx_filter[65536];
u8 _sx_active;
int _sx_nargs;
}

// ------------------------------------------------------------------ z3 api
#define ZF(f) static decltype(&f) z_##f;
#define ZLIST                                                                                                          \
  ZF(Z3_mk_config) ZF(Z3_mk_context) ZF(Z3_set_param_value) ZF(Z3_mk_solver_for_logic) ZF(Z3_mk_simple_solver)         \
  ZF(Z3_solver_inc_ref) ZF(Z3_solver_dec_ref) ZF(Z3_solver_assert) ZF(Z3_solver_check) ZF(Z3_solver_get_model)         \
  ZF(Z3_model_inc_ref) ZF(Z3_model_dec_ref) ZF(Z3_model_eval) ZF(Z3_get_numeral_uint64) ZF(Z3_mk_bv_sort)              \
  ZF(Z3_mk_bool_sort) ZF(Z3_mk_const) ZF(Z3_mk_string_symbol) ZF(Z3_mk_unsigned_int64) ZF(Z3_mk_true)                  \
  ZF(Z3_mk_false) ZF(Z3_mk_eq) ZF(Z3_mk_not) ZF(Z3_mk_and) ZF(Z3_mk_or) ZF(Z3_mk_xor) ZF(Z3_mk_ite)                    \
  ZF(Z3_mk_bvadd) ZF(Z3_mk_bvsub) ZF(Z3_mk_bvmul) ZF(Z3_mk_bvudiv) ZF(Z3_mk_bvsdiv) ZF(Z3_mk_bvurem)                   \
  ZF(Z3_mk_bvsrem) ZF(Z3_mk_bvand) ZF(Z3_mk_bvor) ZF(Z3_mk_bvxor) ZF(Z3_mk_bvshl) ZF(Z3_mk_bvlshr) ZF(Z3_mk_bvashr)    \
  ZF(Z3_mk_bvult) ZF(Z3_mk_bvule) ZF(Z3_mk_bvslt) ZF(Z3_mk_bvsle) ZF(Z3_mk_zero_ext) ZF(Z3_mk_sign_ext)                \
  ZF(Z3_mk_extract) ZF(Z3_mk_concat) ZF(Z3_mk_fpa_sort_double) ZF(Z3_mk_fpa_sort_single) ZF(Z3_mk_fpa_to_fp_bv)        \
  ZF(Z3_mk_fpa_to_ieee_bv) ZF(Z3_mk_fpa_round_nearest_ties_to_even) ZF(Z3_mk_fpa_round_toward_zero)                    \
  ZF(Z3_mk_fpa_add) ZF(Z3_mk_fpa_sub) ZF(Z3_mk_fpa_mul) ZF(Z3_mk_fpa_div) ZF(Z3_mk_fpa_neg) ZF(Z3_mk_fpa_abs)          \
  ZF(Z3_mk_fpa_sqrt) ZF(Z3_mk_fpa_lt) ZF(Z3_mk_fpa_leq) ZF(Z3_mk_fpa_eq) ZF(Z3_mk_fpa_is_nan)                          \
  ZF(Z3_mk_fpa_to_sbv) ZF(Z3_mk_fpa_to_ubv) ZF(Z3_mk_fpa_to_fp_signed) ZF(Z3_mk_fpa_to_fp_unsigned)                    \
  ZF(Z3_mk_fpa_to_fp_float) ZF(Z3_mk_fpa_round_to_integral) ZF(Z3_set_error_handler) ZF(Z3_mk_params)                  \
  ZF(Z3_params_inc_ref) ZF(Z3_params_set_uint) ZF(Z3_solver_set_params) ZF(Z3_get_full_version)                        \
  ZF(Z3_mk_bvadd_no_overflow) ZF(Z3_mk_bvadd_no_underflow) ZF(Z3_mk_bvsub_no_overflow) ZF(Z3_mk_bvsub_no_underflow)    \
  ZF(Z3_mk_bvmul_no_overflow) ZF(Z3_mk_bvmul_no_underflow) ZF(Z3_ast_to_string) ZF(Z3_mk_fpa_is_zero)                  \
  ZF(Z3_mk_fpa_rem)
ZLIST
#undef ZF
static Z3_context Z;
static void loadZ3() {
  const char *names[] = {getenv("SX_Z3LIB"), "libz3.so.4", "libz3.so", nullptr};
  void *h = nullptr;
  for (int i = 0; i < 3 && !h; ++i)
    if (names[i])
      h = dlopen(names[i], RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    fprintf(stderr, "sx: cannot load libz3: %s\n", dlerror());
    _exit(3);
  }
#define ZF(f)                                                                                                          \
  z_##f = (decltype(&f))dlsym(h, #f);                                                                                  \
  if (!z_##f) {                                                                                                        \
    fprintf(stderr, "sx: no %s\n", #f);                                                                                \
    _exit(3);                                                                                                          \
  }
  ZLIST
#undef ZF
}

// ------------------------------------------------------------------ shared statistics
struct Shared {
  u64 paths, queries, sat, unsat, unknown, cacheHits, solverNs, branches, assumeFail, asserts, assertQueries, pins,
      divergences, selfcheck, staleDrops, unsupported, nodes, pinLimit, maxDepth, timeouts;
  u32 nExt;
  void *ext[4096];
  u32 nReach;
  char reach[256][64];
  u64 reachCount[256];
  u32 nNote;
  char note[256][160];
  u32 nSite;
  char site[128][128];
  u64 siteCount[128];
};
static Shared *S;
template <class T> static void inc(T &x, T by = 1) { __atomic_fetch_add(&x, by, __ATOMIC_RELAXED); }

// query cache shared between the path processes
struct CacheEnt {
  u64 k1, k2;
  u32 state; // 0 empty 1 busy 2 sat 3 unsat
  u32 n;
  struct {
    u32 nameHash;
    u32 pad;
    u64 v;
  } m[24];
};
static const u64 kCacheSize = 1 << 17;
static CacheEnt *gCache;

static u8 *gEntered; // shared, one byte per registered function

// ------------------------------------------------------------------ registry of instrumented functions
struct ModuleReg {
  void **fns;
  const char **names;
  u8 *flags;
  u64 n;
  const char *src;
  u64 base;
};
static std::vector<ModuleReg> &mods() {
  static auto *v = new std::vector<ModuleReg>();
  return *v;
}
static std::unordered_set<void *> *gInstrumented;
extern "C" void _sx_register(void **fns, const char **names, u8 *flags, u64 n, const char *src) {
  u64 base = mods().empty() ? 0 : mods().back().base + mods().back().n;
  mods().push_back({fns, names, flags, n, src, base});
}

// ------------------------------------------------------------------ expressions
static const u64 kTab = 1 << 18;
static Node *gTab[kTab];
static char *gArena, *gArenaEnd;
static Node *allocNode() {
  if (gArena + sizeof(Node) > gArenaEnd) {
    size_t sz = 4 << 20;
    gArena = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    gArenaEnd = gArena + sz;
  }
  Node *n = (Node *)gArena;
  gArena += sizeof(Node);
  S->nodes++;
  return n;
}
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }
static inline u64 mix(u64 a, u64 b) {
  u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  x ^= x >> 31;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 29;
  return x;
}
static double asD(u64 v) {
  double d;
  memcpy(&d, &v, 8);
  return d;
}
static float asF(u64 v) {
  u32 x = v;
  float d;
  memcpy(&d, &x, 4);
  return d;
}
static u64 bD(double d) {
  u64 v;
  memcpy(&v, &d, 8);
  return v;
}
static u64 bF(float d) {
  u32 v;
  memcpy(&v, &d, 4);
  return v;
}

static u64 evalBin(u32 op, unsigned w, u64 a, u64 b) {
  u64 m = mask(w);
  a &= m;
  b &= m;
  switch (op) {
  case L_Add: return (a + b) & m;
  case L_Sub: return (a - b) & m;
  case L_Mul: return (a * b) & m;
  case L_UDiv: return b ? (a / b) & m : m;
  case L_SDiv:
    if (!b) return sx(a, w) < 0 ? 1 : m;
    if (sx(b, w) == -1) return (0 - a) & m;
    return (u64)(sx(a, w) / sx(b, w)) & m;
  case L_URem: return b ? (a % b) & m : a;
  case L_SRem:
    if (!b) return a;
    if (sx(b, w) == -1) return 0;
    return (u64)(sx(a, w) % sx(b, w)) & m;
  case L_Shl: return b >= w ? 0 : (a << b) & m;
  case L_LShr: return b >= w ? 0 : (a >> b);
  case L_AShr: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64)(sx(a, w) >> b) & m;
  case L_And: return a & b;
  case L_Or: return a | b;
  case L_Xor: return a ^ b;
  }
  abort();
}
static u64 evalFBin(u32 op, unsigned w, u64 a, u64 b) {
  if (w == 64) {
    double x = asD(a), y = asD(b);
    switch (op) {
    case L_FAdd: return bD(x + y);
    case L_FSub: return bD(x - y);
    case L_FMul: return bD(x * y);
    case L_FDiv: return bD(x / y);
    case L_FRem: return bD(fmod(x, y));
    case L_FNeg: return a ^ (1ull << 63);
    }
  } else {
    float x = asF(a), y = asF(b);
    switch (op) {
    case L_FAdd: return bF(x + y);
    case L_FSub: return bF(x - y);
    case L_FMul: return bF(x * y);
    case L_FDiv: return bF(x / y);
    case L_FRem: return bF(fmodf(x, y));
    case L_FNeg: return (a ^ (1ull << 31)) & 0xffffffff;
    }
  }
  abort();
}
static u64 evalICmp(u32 p, unsigned w, u64 a, u64 b) {
  u64 m = mask(w);
  a &= m;
  b &= m;
  switch (p) {
  case P_EQ: return a == b;
  case P_NE: return a != b;
  case P_UGT: return a > b;
  case P_UGE: return a >= b;
  case P_ULT: return a < b;
  case P_ULE: return a <= b;
  case P_SGT: return sx(a, w) > sx(b, w);
  case P_SGE: return sx(a, w) >= sx(b, w);
  case P_SLT: return sx(a, w) < sx(b, w);
  case P_SLE: return sx(a, w) <= sx(b, w);
  }
  abort();
}
static u64 evalFCmp(u32 p, unsigned w, u64 a, u64 b) {
  double x = w == 64 ? asD(a) : asF(a), y = w == 64 ? asD(b) : asF(b);
  bool un = std::isnan(x) || std::isnan(y);
  bool r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
  return (!un && r) || ((p & 8) && un);
}
static u64 evalFCast(u32 aux, u64 a) {
  u32 op = aux & 0xff, sw = (aux >> 8) & 0xff, dw = (aux >> 16) & 0xff;
  double x = sw == 32 ? asF(a) : asD(a);
  switch (op) {
  case L_FPToSI: {
    if (dw <= 32) {
      if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000ull & mask(dw);
      return (u64)(i64)(int32_t)x & mask(dw);
    }
    if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return (1ull << 63) & mask(dw);
    return (u64)(i64)x & mask(dw);
  }
  case L_FPToUI: {
    if (!(x > -1.0 && x < 18446744073709551616.0)) return 0;
    return (u64)x & mask(dw);
  }
  case L_SIToFP: return dw == 64 ? bD((double)sx(a, sw)) : bF((float)sx(a, sw));
  case L_UIToFP: return dw == 64 ? bD((double)a) : bF((float)a);
  case L_FPTrunc: return bF((float)asD(a));
  case L_FPExt: return bD((double)asF(a));
  }
  abort();
}
enum { F_FABS = 1, F_SQRT, F_FLOOR, F_CEIL, F_TRUNC, F_ROUND };
static u64 evalFun(u32 aux, unsigned w, u64 a) {
  double x = w == 64 ? asD(a) : asF(a), r = 0;
  switch (aux) {
  case F_FABS: r = fabs(x); break;
  case F_SQRT: r = sqrt(x); break;
  case F_FLOOR: r = floor(x); break;
  case F_CEIL: r = ceil(x); break;
  case F_TRUNC: r = trunc(x); break;
  }
  return w == 64 ? bD(r) : bF((float)r);
}
static u64 evalOvf(u32 aux, u64 a, u64 b) {
  u32 op = aux & 0xff, w = aux >> 8;
  __int128 x, y, r = 0;
  bool sg = op & 1;
  if (sg) x = sx(a, w), y = sx(b, w);
  else x = (unsigned __int128)(a & mask(w)), y = (unsigned __int128)(b & mask(w));
  switch (op >> 1) {
  case 0: r = x + y; break;
  case 1: r = x - y; break;
  case 2: r = x * y; break;
  }
  if (sg) {
    __int128 hi = ((__int128)1 << (w - 1)) - 1, lo = -((__int128)1 << (w - 1));
    return r > hi || r < lo;
  }
  if (op >> 1 == 2) return (unsigned __int128)r > (unsigned __int128)mask(w);
  return r < 0 || r > (__int128)mask(w);
}

static u64 evalNode(Op op, u8 w, u32 aux, const u64 *k, const u8 *kw) {
  switch (op) {
  case BIN: return evalBin(aux, w, k[0], k[1]);
  case FBIN: return evalFBin(aux, w, k[0], k[1]);
  case ICMP: return evalICmp(aux, kw[0], k[0], k[1]);
  case FCMP: return evalFCmp(aux, kw[0], k[0], k[1]);
  case ITE: return k[0] ? k[1] : k[2];
  case ZEXT: return k[0];
  case SEXT: return (u64)sx(k[0], kw[0]) & mask(w);
  case EXTRACT: return (k[0] >> aux) & mask(w);
  case CONCAT: return ((k[0] << kw[1]) | k[1]) & mask(w);
  case FCAST: return evalFCast(aux, k[0]);
  case FUN: return evalFun(aux, w, k[0]);
  case OVF: return evalOvf(aux, k[0], k[1]);
  default: abort();
  }
}

static Node *mk(Op op, u8 w, u32 aux, Node *a = nullptr, Node *b = nullptr, Node *c = nullptr, u64 cv = 0) {
  u64 h1 = mix(mix(op * 131 + w, aux), cv), h2 = mix(mix(cv ^ 0x1234567, op * 977 + w), aux + 7);
  Node *ks[3] = {a, b, c};
  for (auto *k : ks)
    if (k) {
      h1 = mix(h1, k->h1);
      h2 = mix(h2, k->h2 ^ 0x55);
    } else
      h1 = mix(h1, 3);
  Node **slot = &gTab[h1 & (kTab - 1)];
  for (Node *n = *slot; n; n = n->next)
    if (n->h1 == h1 && n->h2 == h2)
      return n;
  Node *n = allocNode();
  n->op = op;
  n->w = w;
  n->aux = aux;
  n->k[0] = a;
  n->k[1] = b;
  n->k[2] = c;
  n->h1 = h1;
  n->h2 = h2;
  n->ast = n->fp = nullptr;
  n->isBool = false;
  n->vars = nullptr;
  if (op == CONST || op == VAR)
    n->conc = cv;
  else {
    u64 kv[3] = {0, 0, 0};
    u8 kw[3] = {0, 0, 0};
    for (int i = 0; i < 3; ++i)
      if (ks[i]) {
        kv[i] = ks[i]->conc;
        kw[i] = ks[i]->w;
      }
    n->conc = evalNode(op, w, aux, kv, kw);
  }
  n->next = *slot;
  *slot = n;
  return n;
}
static Node *cst(u64 v, unsigned w) { return mk(CONST, w, 0, nullptr, nullptr, nullptr, v & mask(w)); }
static inline bool isC(Node *n) { return n->op == CONST; }
static Node *mkExtract(Node *a, unsigned lo, unsigned w);
static Node *mkIte(Node *c, Node *a, Node *b);
static Node *mkNot(Node *a);
static Node *mkBin(u32 op, Node *a, Node *b);
static Node *mkICmp(u32 p, Node *a, Node *b);

static Node *mkZext(Node *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return cst(a->conc, w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  return mk(ZEXT, w, 0, a);
}
static Node *mkSext(Node *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return cst((u64)sx(a->conc, a->w), w);
  if (a->op == SEXT) return mkSext(a->k[0], w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  return mk(SEXT, w, 0, a);
}
static Node *mkConcat(Node *hi, Node *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return cst((hi->conc << lo->w) | lo->conc, w);
  if (isC(hi) && hi->conc == 0) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, w);
  if (hi->op == EXTRACT && hi->k[0] == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);
  return mk(CONCAT, w, 0, hi, lo);
}
static Node *mkExtract(Node *a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return cst(a->conc >> lo, w);
  switch (a->op) {
  case EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
  case CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case ZEXT: {
    unsigned sw = a->k[0]->w;
    if (lo >= sw) return cst(0, w);
    if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
    return mkZext(mkExtract(a->k[0], lo, sw - lo), w);
  }
  case SEXT: {
    unsigned sw = a->k[0]->w;
    if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
    if (lo == 0) return mkSext(a->k[0], w);
    break;
  }
  case BIN:
    if (a->aux == L_And || a->aux == L_Or || a->aux == L_Xor) {
      Node *x = mkExtract(a->k[0], lo, w), *y = mkExtract(a->k[1], lo, w);
      if (isC(x) && isC(y)) return cst(evalBin(a->aux, w, x->conc, y->conc), w);
      u64 m = mask(w);
      for (int i = 0; i < 2; ++i) {
        Node *p = i ? y : x, *q = i ? x : y;
        if (isC(p)) {
          if (a->aux == L_And && p->conc == 0) return p;
          if (a->aux == L_And && p->conc == m) return q;
          if (a->aux == L_Or && p->conc == 0) return q;
          if (a->aux == L_Xor && p->conc == 0) return q;
        }
      }
      return mk(BIN, w, a->aux, x, y);
    }
    if (lo == 0 && (a->aux == L_Add || a->aux == L_Sub || a->aux == L_Mul))
      return mkBin(a->aux, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case ITE:
    if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  default: break;
  }
  return mk(EXTRACT, w, lo, a);
}
static Node *mkNot(Node *a) {
  if (isC(a)) return cst(a->conc ^ 1, 1);
  if (a->op == ICMP) {
    static const u32 inv[] = {P_NE, P_EQ, P_ULE, P_ULT, P_UGE, P_UGT, P_SLE, P_SLT, P_SGE, P_SGT};
    return mkICmp(inv[a->aux - 32], a->k[0], a->k[1]);
  }
  if (a->op == BIN && a->aux == L_Xor && isC(a->k[1])) return a->k[0];
  return mk(BIN, 1, L_Xor, a, cst(1, 1));
}
static Node *mkIte(Node *c, Node *a, Node *b) {
  if (isC(c)) return c->conc ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->conc ? c : mkNot(c);
  }
  if (c->op == BIN && c->aux == L_Xor && isC(c->k[1])) return mkIte(c->k[0], b, a);
  return mk(ITE, a->w, 0, c, a, b);
}
static Node *mkBin(u32 op, Node *a, Node *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return cst(evalBin(op, w, a->conc, b->conc), w);
  bool comm = op == L_Add || op == L_Mul || op == L_And || op == L_Or || op == L_Xor;
  if (comm && isC(a)) std::swap(a, b);
  u64 m = mask(w);
  if (isC(b)) {
    u64 v = b->conc;
    switch (op) {
    case L_Add:
      if (v == 0) return a;
      if (a->op == BIN && a->aux == L_Add && isC(a->k[1])) return mkBin(L_Add, a->k[0], cst(a->k[1]->conc + v, w));
      break;
    case L_Sub:
      if (v == 0) return a;
      return mkBin(L_Add, a, cst(0 - v, w));
    case L_Mul:
      if (v == 0) return b;
      if (v == 1) return a;
      break;
    case L_And:
      if (v == 0) return b;
      if (v == m) return a;
      if (a->op == ZEXT && (v & mask(a->k[0]->w)) == mask(a->k[0]->w)) return a;
      if ((v & (v + 1)) == 0) { // low bit mask
        unsigned n = __builtin_popcountll(v);
        return mkZext(mkExtract(a, 0, n), w);
      }
      break;
    case L_Or:
      if (v == 0) return a;
      if (v == m) return b;
      break;
    case L_Xor:
      if (v == 0) return a;
      if (w == 1) return mkNot(a);
      break;
    case L_Shl:
      if (v == 0) return a;
      if (v >= w) return cst(0, w);
      return mkConcat(mkExtract(a, 0, w - v), cst(0, v));
    case L_LShr:
      if (v == 0) return a;
      if (v >= w) return cst(0, w);
      return mkZext(mkExtract(a, v, w - v), w);
    case L_AShr:
      if (v == 0) return a;
      if (v < w) return mkSext(mkExtract(a, v, w - v), w);
      break;
    case L_UDiv:
    case L_SDiv:
      if (v == 1) return a;
      break;
    case L_URem:
      if (v == 1) return cst(0, w);
      break;
    }
  }
  if (a == b) switch (op) {
    case L_Sub:
    case L_Xor: return cst(0, w);
    case L_And:
    case L_Or: return a;
    }
  if (op == L_Or && w > 1) { // or of disjoint pieces -> concat
    for (int i = 0; i < 2; ++i) {
      Node *x = i ? b : a, *y = i ? a : b;
      if (x->op == CONCAT && isC(x->k[1]) && x->k[1]->conc == 0 && y->op == ZEXT && y->k[0]->w <= x->k[1]->w)
        return mkConcat(x->k[0], mkZext(y->k[0], x->k[1]->w));
    }
  }
  if (op == L_Mul) // low zero bits of a factor
    for (int i = 0; i < 2; ++i) {
      Node *x = i ? b : a, *y = i ? a : b;
      if (x->op == CONCAT && isC(x->k[1]) && x->k[1]->conc == 0)
        return mkConcat(mkBin(L_Mul, x->k[0], mkExtract(y, 0, x->k[0]->w)), x->k[1]);
    }
  if (comm && a->h1 > b->h1 && !isC(b)) std::swap(a, b);
  return mk(BIN, w, op, a, b);
}
static Node *mkICmp(u32 p, Node *a, Node *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return cst(evalICmp(p, w, a->conc, b->conc), 1);
  if (a == b) return cst(p == P_EQ || p == P_UGE || p == P_ULE || p == P_SGE || p == P_SLE, 1);
  if (isC(a)) {
    static const u32 sw[] = {P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE};
    std::swap(a, b);
    p = sw[p - 32];
  }
  if (isC(b)) {
    u64 v = b->conc;
    if (w == 1 && (p == P_EQ || p == P_NE)) return (p == P_EQ) == (v == 1) ? a : mkNot(a);
    if (p == P_ULT && v == 0) return cst(0, 1);
    if (p == P_UGE && v == 0) return cst(1, 1);
    if (p == P_ULT && v == 1) return mkICmp(P_EQ, a, cst(0, w));
    if (p == P_UGT && v == 0) return mkICmp(P_NE, a, b);
    if (a->op == ZEXT) {
      unsigned sw = a->k[0]->w;
      if (v <= mask(sw)) {
        if (p <= P_ULE) return mkICmp(p, a->k[0], cst(v, sw));
        // signed compare of a non-negative value
        if (v <= mask(w) >> 1) {
          static const u32 un[] = {P_UGT, P_UGE, P_ULT, P_ULE};
          return mkICmp(un[p - P_SGT], a->k[0], cst(v, sw));
        }
      } else {
        if (p == P_EQ) return cst(0, 1);
        if (p == P_NE) return cst(1, 1);
        if (p == P_ULT || p == P_ULE) return cst(1, 1);
        if (p == P_UGT || p == P_UGE) return cst(0, 1);
        if (sx(v, w) >= 0) return cst(p == P_SLT || p == P_SLE, 1);
      }
      if (p >= P_SGT && sx(v, w) < 0) return cst(p == P_SGT || p == P_SGE, 1);
    }
    if (a->op == SEXT) {
      unsigned sw = a->k[0]->w;
      if (sx(v & mask(sw), sw) == sx(v, w)) {
        if (p <= P_NE || p >= P_SGT) return mkICmp(p, a->k[0], cst(v, sw));
      } else {
        if (p == P_EQ) return cst(0, 1);
        if (p == P_NE) return cst(1, 1);
      }
    }
    if ((p == P_EQ || p == P_NE)) {
      if (a->op == CONCAT) {
        Node *e = mkBin(L_And, mkICmp(P_EQ, a->k[0], cst(v >> a->k[1]->w, a->k[0]->w)),
                        mkICmp(P_EQ, a->k[1], cst(v, a->k[1]->w)));
        return p == P_EQ ? e : mkNot(e);
      }
      if (a->op == BIN && a->aux == L_Xor && isC(a->k[1])) return mkICmp(p, a->k[0], cst(v ^ a->k[1]->conc, w));
      if (a->op == BIN && a->aux == L_Add && isC(a->k[1])) return mkICmp(p, a->k[0], cst(v - a->k[1]->conc, w));
      if (a->op == BIN && a->aux == L_Sub && v == 0) return mkICmp(p, a->k[0], a->k[1]);
    }
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2])))
      return mkIte(a->k[0], mkICmp(p, a->k[1], b), mkICmp(p, a->k[2], b));
  } else {
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) {
      if (p <= P_ULE) return mkICmp(p, a->k[0], b->k[0]);
      static const u32 un[] = {P_UGT, P_UGE, P_ULT, P_ULE};
      return mkICmp(un[p - P_SGT], a->k[0], b->k[0]);
    }
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w && (p <= P_NE || p >= P_SGT))
      return mkICmp(p, a->k[0], b->k[0]);
    if ((p == P_EQ || p == P_NE) && a->h1 > b->h1) std::swap(a, b);
  }
  return mk(ICMP, 1, p, a, b);
}
static Node *ret(Node *n) { return isC(n) ? nullptr : n; }
static Node *ex(Node *e, u64 v, unsigned w) {
  if (e) return e;
  return cst(v, w);
}

// ------------------------------------------------------------------ variables
struct Var {
  std::string name;
  Node *n;
  u32 hash;
  Z3_ast z;
};
static std::vector<Var> gVars;
static std::map<std::string, u64> gAssign; // inputs of this path
static const VarSet &varsOf(Node *n) {
  if (n->vars) return *n->vars;
  // iterative post order to survive deep expressions
  std::vector<Node *> st{n};
  while (!st.empty()) {
    Node *x = st.back();
    if (x->vars) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (auto *k : x->k)
      if (k && !k->vars) {
        st.push_back(k);
        ready = false;
      }
    if (!ready) continue;
    auto *vs = new VarSet();
    if (x->op == VAR) vs->set(x->aux);
    for (auto *k : x->k)
      if (k) *vs |= *k->vars;
    x->vars = vs;
    st.pop_back();
  }
  return *n->vars;
}

// ------------------------------------------------------------------ translation to Z3
static bool gUsesFP;
static Z3_ast zbv(Node *n);
static Z3_ast zbool(Node *n);
static Z3_sort fpSort(unsigned w) { return w == 64 ? z_Z3_mk_fpa_sort_double(Z) : z_Z3_mk_fpa_sort_single(Z); }
static Z3_ast zfp(Node *n) {
  if (n->fp) return n->fp;
  return n->fp = z_Z3_mk_fpa_to_fp_bv(Z, zbv(n), fpSort(n->w));
}
static Z3_ast num(u64 v, unsigned w) { return z_Z3_mk_unsigned_int64(Z, v, z_Z3_mk_bv_sort(Z, w)); }
static void translate(Node *n) {
  auto rne = [] { return z_Z3_mk_fpa_round_nearest_ties_to_even(Z); };
  switch (n->op) {
  case CONST:
    if (n->w == 1) {
      n->ast = n->conc ? z_Z3_mk_true(Z) : z_Z3_mk_false(Z);
      n->isBool = true;
    } else
      n->ast = num(n->conc, n->w);
    return;
  case VAR:
    n->ast = gVars[n->aux].z;
    if (n->w == 1) n->isBool = true;
    return;
  case BIN: {
    if (n->w == 1) {
      Z3_ast a = zbool(n->k[0]), b = zbool(n->k[1]);
      Z3_ast ab[2] = {a, b};
      n->isBool = true;
      switch (n->aux) {
      case L_And:
      case L_Mul: n->ast = z_Z3_mk_and(Z, 2, ab); return;
      case L_Or: n->ast = z_Z3_mk_or(Z, 2, ab); return;
      case L_Xor:
      case L_Add:
      case L_Sub: n->ast = isC(n->k[1]) && n->k[1]->conc ? z_Z3_mk_not(Z, a) : z_Z3_mk_xor(Z, a, b); return;
      default: n->isBool = false; break;
      }
    }
    Z3_ast a = zbv(n->k[0]), b = zbv(n->k[1]);
    switch (n->aux) {
    case L_Add: n->ast = z_Z3_mk_bvadd(Z, a, b); break;
    case L_Sub: n->ast = z_Z3_mk_bvsub(Z, a, b); break;
    case L_Mul: n->ast = z_Z3_mk_bvmul(Z, a, b); break;
    case L_UDiv: n->ast = z_Z3_mk_bvudiv(Z, a, b); break;
    case L_SDiv: n->ast = z_Z3_mk_bvsdiv(Z, a, b); break;
    case L_URem: n->ast = z_Z3_mk_bvurem(Z, a, b); break;
    case L_SRem: n->ast = z_Z3_mk_bvsrem(Z, a, b); break;
    case L_Shl: n->ast = z_Z3_mk_bvshl(Z, a, b); break;
    case L_LShr: n->ast = z_Z3_mk_bvlshr(Z, a, b); break;
    case L_AShr: n->ast = z_Z3_mk_bvashr(Z, a, b); break;
    case L_And: n->ast = z_Z3_mk_bvand(Z, a, b); break;
    case L_Or: n->ast = z_Z3_mk_bvor(Z, a, b); break;
    case L_Xor: n->ast = z_Z3_mk_bvxor(Z, a, b); break;
    default: abort();
    }
    return;
  }
  case FBIN: {
    gUsesFP = true;
    Z3_ast a = zfp(n->k[0]), b = n->k[1] ? zfp(n->k[1]) : nullptr, r;
    switch (n->aux) {
    case L_FAdd: r = z_Z3_mk_fpa_add(Z, rne(), a, b); break;
    case L_FSub: r = z_Z3_mk_fpa_sub(Z, rne(), a, b); break;
    case L_FMul: r = z_Z3_mk_fpa_mul(Z, rne(), a, b); break;
    case L_FDiv: r = z_Z3_mk_fpa_div(Z, rne(), a, b); break;
    case L_FNeg: r = z_Z3_mk_fpa_neg(Z, a); break;
    default: abort();
    }
    n->fp = r;
    n->ast = z_Z3_mk_fpa_to_ieee_bv(Z, r);
    return;
  }
  case ICMP: {
    n->isBool = true;
    if (n->k[0]->w == 1 && (n->aux == P_EQ || n->aux == P_NE)) {
      n->ast = z_Z3_mk_eq(Z, zbool(n->k[0]), zbool(n->k[1]));
      if (n->aux == P_NE) n->ast = z_Z3_mk_not(Z, n->ast);
      return;
    }
    Z3_ast a = zbv(n->k[0]), b = zbv(n->k[1]);
    switch (n->aux) {
    case P_EQ: n->ast = z_Z3_mk_eq(Z, a, b); break;
    case P_NE: n->ast = z_Z3_mk_not(Z, z_Z3_mk_eq(Z, a, b)); break;
    case P_UGT: n->ast = z_Z3_mk_bvult(Z, b, a); break;
    case P_UGE: n->ast = z_Z3_mk_bvule(Z, b, a); break;
    case P_ULT: n->ast = z_Z3_mk_bvult(Z, a, b); break;
    case P_ULE: n->ast = z_Z3_mk_bvule(Z, a, b); break;
    case P_SGT: n->ast = z_Z3_mk_bvslt(Z, b, a); break;
    case P_SGE: n->ast = z_Z3_mk_bvsle(Z, b, a); break;
    case P_SLT: n->ast = z_Z3_mk_bvslt(Z, a, b); break;
    case P_SLE: n->ast = z_Z3_mk_bvsle(Z, a, b); break;
    }
    return;
  }
  case FCMP: {
    gUsesFP = true;
    n->isBool = true;
    Z3_ast a = zfp(n->k[0]), b = zfp(n->k[1]);
    u32 p = n->aux;
    Z3_ast t[4];
    unsigned c = 0;
    if (p & 1) t[c++] = z_Z3_mk_fpa_eq(Z, a, b);
    if (p & 2) t[c++] = z_Z3_mk_fpa_lt(Z, b, a);
    if (p & 4) t[c++] = z_Z3_mk_fpa_lt(Z, a, b);
    if (p & 8) {
      Z3_ast nn[2] = {z_Z3_mk_fpa_is_nan(Z, a), z_Z3_mk_fpa_is_nan(Z, b)};
      t[c++] = z_Z3_mk_or(Z, 2, nn);
    }
    n->ast = c ? z_Z3_mk_or(Z, c, t) : z_Z3_mk_false(Z);
    return;
  }
  case ITE:
    if (n->w == 1) {
      n->isBool = true;
      n->ast = z_Z3_mk_ite(Z, zbool(n->k[0]), zbool(n->k[1]), zbool(n->k[2]));
    } else
      n->ast = z_Z3_mk_ite(Z, zbool(n->k[0]), zbv(n->k[1]), zbv(n->k[2]));
    return;
  case ZEXT:
    if (n->k[0]->w == 1) n->ast = z_Z3_mk_ite(Z, zbool(n->k[0]), num(1, n->w), num(0, n->w));
    else n->ast = z_Z3_mk_zero_ext(Z, n->w - n->k[0]->w, zbv(n->k[0]));
    return;
  case SEXT:
    if (n->k[0]->w == 1) n->ast = z_Z3_mk_ite(Z, zbool(n->k[0]), num(~0ull & mask(n->w), n->w), num(0, n->w));
    else n->ast = z_Z3_mk_sign_ext(Z, n->w - n->k[0]->w, zbv(n->k[0]));
    return;
  case EXTRACT:
    n->ast = z_Z3_mk_extract(Z, n->aux + n->w - 1, n->aux, zbv(n->k[0]));
    return;
  case CONCAT: n->ast = z_Z3_mk_concat(Z, zbv(n->k[0]), zbv(n->k[1])); return;
  case FUN: {
    gUsesFP = true;
    Z3_ast a = zfp(n->k[0]);
    switch (n->aux) {
    case F_FABS: n->fp = z_Z3_mk_fpa_abs(Z, a); break;
    case F_SQRT: n->fp = z_Z3_mk_fpa_sqrt(Z, rne(), a); break;
    case F_TRUNC: n->fp = z_Z3_mk_fpa_round_to_integral(Z, z_Z3_mk_fpa_round_toward_zero(Z), a); break;
    default: abort();
    }
    n->ast = z_Z3_mk_fpa_to_ieee_bv(Z, n->fp);
    return;
  }
  case FCAST: {
    gUsesFP = true;
    u32 op = n->aux & 0xff, sw = (n->aux >> 8) & 0xff;
    switch (op) {
    case L_FPToSI: {
      unsigned cw = n->w <= 32 ? 32 : 64;
      Z3_ast f = zfp(n->k[0]);
      // range test done in the source format
      Node *lo = cst(sw == 64 ? bD(cw == 32 ? -2147483649.0 : -9223372036854775808.0)
                              : bF(cw == 32 ? -2147483648.0f : -9223372036854775808.0f), sw);
      Node *hi = cst(sw == 64 ? bD(cw == 32 ? 2147483648.0 : 9223372036854775808.0)
                              : bF(cw == 32 ? 2147483648.0f : 9223372036854775808.0f), sw);
      bool strict = sw == 64 && cw == 32;
      Z3_ast c[2] = {strict ? z_Z3_mk_fpa_lt(Z, zfp(lo), f) : z_Z3_mk_fpa_leq(Z, zfp(lo), f),
                     z_Z3_mk_fpa_lt(Z, f, zfp(hi))};
      Z3_ast in = z_Z3_mk_and(Z, 2, c);
      Z3_ast r = z_Z3_mk_ite(Z, in, z_Z3_mk_fpa_to_sbv(Z, z_Z3_mk_fpa_round_toward_zero(Z), f, cw), num(1ull << (cw - 1), cw));
      if (n->w < cw) r = z_Z3_mk_extract(Z, n->w - 1, 0, r);
      n->ast = r;
      return;
    }
    case L_FPToUI: n->ast = z_Z3_mk_fpa_to_ubv(Z, z_Z3_mk_fpa_round_toward_zero(Z), zfp(n->k[0]), n->w); return;
    case L_SIToFP:
      n->fp = z_Z3_mk_fpa_to_fp_signed(Z, rne(), zbv(n->k[0]), fpSort(n->w));
      break;
    case L_UIToFP:
      n->fp = z_Z3_mk_fpa_to_fp_unsigned(Z, rne(), zbv(n->k[0]), fpSort(n->w));
      break;
    case L_FPTrunc:
    case L_FPExt: n->fp = z_Z3_mk_fpa_to_fp_float(Z, rne(), zfp(n->k[0]), fpSort(n->w)); break;
    default: abort();
    }
    n->ast = z_Z3_mk_fpa_to_ieee_bv(Z, n->fp);
    return;
  }
  case OVF: {
    n->isBool = true;
    u32 op = n->aux & 0xff;
    Z3_ast a = zbv(n->k[0]), b = zbv(n->k[1]);
    bool sg = op & 1;
    Z3_ast c[2];
    unsigned k = 0;
    switch (op >> 1) {
    case 0:
      c[k++] = z_Z3_mk_bvadd_no_overflow(Z, a, b, sg);
      if (sg) c[k++] = z_Z3_mk_bvadd_no_underflow(Z, a, b);
      break;
    case 1:
      if (sg) c[k++] = z_Z3_mk_bvsub_no_overflow(Z, a, b);
      c[k++] = z_Z3_mk_bvsub_no_underflow(Z, a, b, sg);
      break;
    case 2:
      c[k++] = z_Z3_mk_bvmul_no_overflow(Z, a, b, sg);
      if (sg) c[k++] = z_Z3_mk_bvmul_no_underflow(Z, a, b);
      break;
    }
    n->ast = z_Z3_mk_not(Z, k == 1 ? c[0] : z_Z3_mk_and(Z, k, c));
    return;
  }
  }
  abort();
}
static void ensure(Node *n) {
  std::vector<Node *> st{n};
  while (!st.empty()) {
    Node *x = st.back();
    if (x->ast) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (auto *k : x->k)
      if (k && !k->ast) {
        st.push_back(k);
        ready = false;
      }
    if (!ready) continue;
    translate(x);
    st.pop_back();
  }
}
static Z3_ast zbv(Node *n) {
  ensure(n);
  if (n->isBool) return z_Z3_mk_ite(Z, n->ast, num(1, 1), num(0, 1));
  return n->ast;
}
static Z3_ast zbool(Node *n) {
  ensure(n);
  if (n->isBool) return n->ast;
  return z_Z3_mk_eq(Z, n->ast, num(1, 1));
}
static void initSolver() {
  if (Z) return;
  Z3_config c = z_Z3_mk_config();
  z_Z3_set_param_value(c, "model", "true");
  Z = z_Z3_mk_context(c);
  z_Z3_set_error_handler(Z, [](Z3_context, Z3_error_code e) {
    fprintf(stderr, "sx: z3 error %d\n", e);
    _exit(71);
  });
  for (auto &v : gVars) {
    Z3_sort s = v.n->w == 1 ? z_Z3_mk_bool_sort(Z) : z_Z3_mk_bv_sort(Z, v.n->w);
    v.z = z_Z3_mk_const(Z, z_Z3_mk_string_symbol(Z, v.name.c_str()), s);
  }
}

// ------------------------------------------------------------------ path condition
static std::vector<Node *> gPC;
static std::unordered_set<Node *> gPCset;
static int gDsu[kMaxVars];
static int findv(int x) {
  while (gDsu[x] != x) x = gDsu[x] = gDsu[gDsu[x]];
  return x;
}
static void addPC(Node *c) {
  if (isC(c)) return;
  // conjunctions are split so that slicing works on the parts
  if (c->op == BIN && c->w == 1 && c->aux == L_And) {
    addPC(c->k[0]);
    addPC(c->k[1]);
    return;
  }
  if (!gPCset.insert(c).second) return;
  gPC.push_back(c);
  const VarSet &v = varsOf(c);
  int first = -1;
  for (size_t i = v._Find_first(); i < kMaxVars; i = v._Find_next(i)) {
    if (first < 0) first = findv(i);
    else gDsu[findv(i)] = first;
  }
}

static unsigned gQueryTimeoutMs = 20000;
typedef std::map<u32, u64> Model; // var index -> value
// 1 sat, 0 unsat, -1 unknown
static u64 nowNs() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static int solve(const std::vector<Node *> &extra, Model &model) {
  inc(S->queries);
  VarSet need;
  for (auto *e : extra) {
    if (isC(e)) {
      if (!e->conc) return 0;
      continue;
    }
    need |= varsOf(e);
  }
  std::unordered_set<int> roots;
  for (size_t i = need._Find_first(); i < kMaxVars; i = need._Find_next(i)) roots.insert(findv(i));
  std::vector<Node *> cs;
  for (auto *c : gPC) {
    size_t f = varsOf(c)._Find_first();
    if (roots.count(findv(f))) {
      cs.push_back(c);
      need |= varsOf(c);
    }
  }
  for (auto *e : extra) cs.push_back(e);
  u64 k1 = 0, k2 = 0;
  for (auto *c : cs) {
    k1 += mix(c->h1, 17);
    k2 += mix(c->h2, 91);
  }
  if (!k1) k1 = 1;
  u64 slot = k1 & (kCacheSize - 1);
  for (int p = 0; p < 8; ++p) {
    CacheEnt &e = gCache[(slot + p) & (kCacheSize - 1)];
    u32 st = __atomic_load_n(&e.state, __ATOMIC_ACQUIRE);
    if (st == 0) break;
    if (st >= 2 && e.k1 == k1 && e.k2 == k2) {
      if (st == 3) {
        inc(S->cacheHits);
        inc(S->unsat);
        return 0;
      }
      bool ok = true;
      Model m;
      for (u32 i = 0; i < e.n && ok; ++i) {
        bool f = false;
        for (u32 v = 0; v < gVars.size(); ++v)
          if (need[v] && gVars[v].hash == e.m[i].nameHash) {
            m[v] = e.m[i].v;
            f = true;
          }
        ok = f;
      }
      if (ok && m.size() == need.count()) {
        inc(S->cacheHits);
        inc(S->sat);
        model = m;
        return 1;
      }
    }
  }
  u64 t0 = nowNs();
  initSolver();
  gUsesFP = false;
  std::vector<Z3_ast> as;
  for (auto *c : cs) as.push_back(zbool(c));
  // FP nodes translated earlier: look again
  bool fp = gUsesFP;
  if (!fp) {
    std::unordered_set<Node *> seen;
    std::vector<Node *> st(cs.begin(), cs.end());
    while (!st.empty() && !fp) {
      Node *n = st.back();
      st.pop_back();
      if (!seen.insert(n).second) continue;
      if (n->op == FBIN || n->op == FCMP || n->op == FCAST || n->op == FUN) fp = true;
      for (auto *k : n->k)
        if (k) st.push_back(k);
    }
  }
  Z3_solver s = z_Z3_mk_solver_for_logic(Z, z_Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV"));
  z_Z3_solver_inc_ref(Z, s);
  Z3_params ps = z_Z3_mk_params(Z);
  z_Z3_params_inc_ref(Z, ps);
  z_Z3_params_set_uint(Z, ps, z_Z3_mk_string_symbol(Z, "timeout"), gQueryTimeoutMs);
  z_Z3_solver_set_params(Z, s, ps);
  for (auto a : as) z_Z3_solver_assert(Z, s, a);
  Z3_lbool r = z_Z3_solver_check(Z, s);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    Z3_model m = z_Z3_solver_get_model(Z, s);
    z_Z3_model_inc_ref(Z, m);
    for (size_t i = need._Find_first(); i < kMaxVars; i = need._Find_next(i)) {
      Z3_ast z = gVars[i].z;
      if (gVars[i].n->w == 1) z = z_Z3_mk_ite(Z, z, num(1, 8), num(0, 8));
      Z3_ast out;
      u64 v = 0;
      if (z_Z3_model_eval(Z, m, z, true, &out)) z_Z3_get_numeral_uint64(Z, out, &v);
      model[i] = v;
    }
    z_Z3_model_dec_ref(Z, m);
  }
  z_Z3_solver_dec_ref(Z, s);
  inc(S->solverNs, nowNs() - t0);
  if (res == 1) inc(S->sat);
  else if (res == 0) inc(S->unsat);
  else inc(S->unknown);
  if (res >= 0 && (res == 0 || model.size() <= 24)) {
    for (int p = 0; p < 8; ++p) {
      CacheEnt &e = gCache[(slot + p) & (kCacheSize - 1)];
      u32 z = 0;
      if (__atomic_compare_exchange_n(&e.state, &z, 1u, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
        e.k1 = k1;
        e.k2 = k2;
        e.n = 0;
        if (res == 1)
          for (auto &kv : model) {
            e.m[e.n].nameHash = gVars[kv.first].hash;
            e.m[e.n].v = kv.second;
            e.n++;
          }
        __atomic_store_n(&e.state, res == 1 ? 2u : 3u, __ATOMIC_RELEASE);
        break;
      }
    }
  }
  return res;
}

// ------------------------------------------------------------------ messages child -> parent
enum { M_ITEM = 1, M_DONE, M_VIOLATION, M_NOTE };
static int gPipe = -1;
static std::string gOut;
static void put(const void *p, size_t n) { gOut.append((const char *)p, n); }
template <class T> static void putv(T v) { put(&v, sizeof v); }
static void flushOut() {
  size_t off = 0;
  while (off < gOut.size()) {
    ssize_t r = write(gPipe, gOut.data() + off, gOut.size() - off);
    if (r <= 0) {
      if (errno == EINTR) continue;
      _exit(72);
    }
    off += r;
  }
  gOut.clear();
}
static void sendMsg(u32 type, const std::string &body) {
  putv<u32>(type);
  putv<u32>(body.size());
  put(body.data(), body.size());
  if (gOut.size() > 60000) flushOut();
}
static void app(std::string &b, const void *p, size_t n) { b.append((const char *)p, n); }
template <class T> static void appv(std::string &b, T v) { app(b, &v, sizeof v); }
static void apps(std::string &b, const std::string &s) {
  appv<u32>(b, s.size());
  b += s;
}
static std::string encodeAssign(const Model &m) {
  std::string b;
  std::map<std::string, u64> a = gAssign;
  for (u32 i = 0; i < gVars.size(); ++i) a[gVars[i].name] = gVars[i].n->conc;
  for (auto &kv : m) a[gVars[kv.first].name] = kv.second;
  appv<u32>(b, a.size());
  for (auto &kv : a) {
    apps(b, kv.first);
    appv<u64>(b, kv.second);
  }
  return b;
}

static u32 gBound;         // branches below are fixed by the work item
static u64 gExpectPrefix;  // hash of the decisions below gBound
static u32 gIndex;
static u64 gPrefix;
static u64 gObserve = 0xcbf29ce484222325ull;
static bool gInPath;

static void incompleteSite(const char *what) {
  u32 n = __atomic_load_n(&S->nSite, __ATOMIC_ACQUIRE);
  for (u32 i = 0; i < n && i < 128; ++i)
    if (!strncmp(S->site[i], what, 127)) {
      inc(S->siteCount[i]);
      return;
    }
  u32 i = __atomic_fetch_add(&S->nSite, 1, __ATOMIC_ACQ_REL);
  if (i < 128) {
    strncpy(S->site[i], what, 127);
    inc(S->siteCount[i]);
  } else
    __atomic_store_n(&S->nSite, 128, __ATOMIC_RELEASE);
}

static void sendItem(const Model &m, u64 prefix) {
  std::string b = encodeAssign(m);
  appv<u32>(b, gIndex + 1);
  appv<u64>(b, prefix);
  sendMsg(M_ITEM, b);
}
static void finishPath(int code);
// Record the decision `taken` (a true Bool node under the current inputs) and
// schedule every feasible alternative.
static void decide(Node *taken, const std::vector<Node *> &alts, bool exploreAlts, const char *what) {
  if (isC(taken)) return;
  if (gPCset.count(taken)) return;
  inc(S->branches);
  if (gIndex >= gBound && exploreAlts) {
    for (auto *a : alts) {
      Model m;
      int r = solve({a}, m);
      if (r == 1) sendItem(m, mix(gPrefix, a->h1));
      else if (r < 0) incompleteSite(what);
    }
  }
  gPrefix = mix(gPrefix, taken->h1);
  gIndex++;
  if (gIndex == gBound && gPrefix != gExpectPrefix) {
    inc(S->divergences);
    incompleteSite("divergence");
    if (getenv("SX_DEBUG")) fprintf(stderr, "divergence at %u (%s)\n", gIndex, what);
    finishPath(0);
  }
  addPC(taken);
}
static void decideBool(Node *c, bool taken, const char *what) {
  if (!c || isC(c)) return;
  if ((c->conc & 1) != (u64)taken) {
    inc(S->selfcheck);
    incompleteSite("self-check: shadow disagrees with the machine value");
    return;
  }
  Node *t = taken ? c : mkNot(c), *f = taken ? mkNot(c) : c;
  decide(t, {f}, true, what);
}
static unsigned gPinMax = 300;
static void pin(Node *e, const char *what) {
  if (!e || isC(e)) return;
  if (e->w == 1) return decideBool(e, e->conc & 1, what);
  Node *t = mkICmp(P_EQ, e, cst(e->conc, e->w));
  if (isC(t) || gPCset.count(t)) return;
  inc(S->branches);
  inc(S->pins);
  if (getenv("SX_DEBUGPIN")) fprintf(stderr, "pin %s w=%d val=%lx\n", what, e->w, e->conc);
  if (gIndex >= gBound) {
    std::vector<Node *> ex{mkNot(t)};
    for (unsigned n = 0;; ++n) {
      if (n > gPinMax) {
        inc(S->pinLimit);
        std::string s = std::string("value limit: ") + what;
        incompleteSite(s.c_str());
        break;
      }
      Model m;
      int r = solve(ex, m);
      if (r < 0) incompleteSite(what);
      if (r != 1) break;
      // value of e under m
      std::unordered_map<Node *, u64> memo;
      std::vector<Node *> st{e};
      while (!st.empty()) {
        Node *x = st.back();
        if (memo.count(x)) {
          st.pop_back();
          continue;
        }
        if (x->op == CONST || x->op == VAR) {
          memo[x] = x->op == VAR && m.count(x->aux) ? m[x->aux] : x->conc;
          st.pop_back();
          continue;
        }
        bool ready = true;
        for (auto *k : x->k)
          if (k && !memo.count(k)) {
            st.push_back(k);
            ready = false;
          }
        if (!ready) continue;
        u64 kv[3] = {0, 0, 0};
        u8 kw[3] = {0, 0, 0};
        for (int i = 0; i < 3; ++i)
          if (x->k[i]) {
            kv[i] = memo[x->k[i]];
            kw[i] = x->k[i]->w;
          }
        memo[x] = evalNode(x->op, x->w, x->aux, kv, kw);
        st.pop_back();
      }
      Node *alt = mkICmp(P_EQ, e, cst(memo[e], e->w));
      sendItem(m, mix(gPrefix, alt->h1));
      ex.push_back(mkNot(alt));
    }
  }
  gPrefix = mix(gPrefix, t->h1);
  gIndex++;
  if (gIndex == gBound && gPrefix != gExpectPrefix) {
    inc(S->divergences);
    incompleteSite("divergence");
    if (getenv("SX_DEBUG")) fprintf(stderr, "divergence at pin %u (%s)\n", gIndex, what);
    finishPath(0);
  }
  addPC(t);
}

// ------------------------------------------------------------------ shadow memory
struct Page {
  Node *n[4096];
  u8 idx[4096];
};
static std::unordered_map<u64, Page *> *gPages;
static u64 gLastPg = ~0ull;
static Page *gLast;
static Page *page(u64 pg, bool create) {
  if (pg == gLastPg) return gLast;
  auto it = gPages->find(pg);
  Page *p = nullptr;
  if (it != gPages->end()) p = it->second;
  else if (create) {
    p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    (*gPages)[pg] = p;
    _sx_filter[pg & 0xffff] = 1;
    _sx_filter[(pg - 1) & 0xffff] = 1; // accesses that straddle the page border
  }
  if (p) {
    gLastPg = pg;
    gLast = p;
  }
  return p;
}
static inline bool filter(u64 a) { return _sx_filter[(a >> 12) & 0xffff]; }
static bool filterRange(u64 a, u64 n) {
  if (!n) return false;
  for (u64 p = a >> 12; p <= (a + n - 1) >> 12; ++p)
    if (_sx_filter[p & 0xffff]) return true;
  return false;
}
// symbolic byte at address or null
static Node *byteAt(u64 a) {
  Page *p = page(a >> 12, false);
  if (!p) return nullptr;
  Node *n = p->n[a & 4095];
  if (!n) return nullptr;
  unsigned lo = p->idx[a & 4095] * 8;
  u8 c = (n->conc >> lo) & 0xff;
  if (c != *(volatile u8 *)a) { // overwritten behind our back: concrete now
    p->n[a & 4095] = nullptr;
    inc(S->staleDrops);
    return nullptr;
  }
  Node *b = mkExtract(n, lo, 8);
  return isC(b) ? nullptr : b;
}
static void setByte(u64 a, Node *n, u8 idx) {
  Page *p = page(a >> 12, n != nullptr);
  if (!p) return;
  p->n[a & 4095] = n;
  p->idx[a & 4095] = idx;
}
static void clearRange(u64 a, u64 n) {
  if (!filterRange(a, n)) return;
  for (u64 i = 0; i < n;) {
    u64 x = a + i, in = std::min<u64>(n - i, 4096 - (x & 4095));
    Page *p = page(x >> 12, false);
    if (p) memset(&p->n[x & 4095], 0, in * sizeof(Node *));
    i += in;
  }
}
static Node *loadN(u64 a, unsigned size, unsigned w) {
  Page *p = page(a >> 12, false);
  // whole value stored at once
  if (p && (a & 4095) + size <= 4096) {
    Node *n = p->n[a & 4095];
    if (n && n->w == size * 8) {
      bool same = true;
      for (unsigned i = 0; i < size && same; ++i)
        same = p->n[(a & 4095) + i] == n && p->idx[(a & 4095) + i] == i;
      if (same) {
        u64 v = 0;
        memcpy(&v, (void *)a, size);
        if (v == n->conc) return n->w == w ? n : mkExtract(n, 0, w);
      }
    }
  }
  Node *r = nullptr;
  bool any = false;
  for (unsigned i = 0; i < size; ++i) {
    Node *b = byteAt(a + i);
    if (b) any = true;
    else b = cst(*(volatile u8 *)(a + i), 8);
    r = r ? mkConcat(b, r) : b;
  }
  if (!any) return nullptr;
  return ret(w == r->w ? r : mkExtract(r, 0, w));
}

extern "C" {
Node *_sx_load(void *ptr, unsigned size, unsigned kind) { return loadN((u64)ptr, size, kind & 0xff); }
void _sx_store(void *ptr, unsigned size, unsigned kind, Node *e) {
  u64 a = (u64)ptr;
  if (!e || isC(e)) {
    clearRange(a, size);
    return;
  }
  unsigned w = size * 8;
  if (size > 8) {
    clearRange(a, size);
    return;
  }
  if (e->w < w) e = mkZext(e, w);
  for (unsigned i = 0; i < size; ++i) setByte(a + i, e, i);
}
Node *_sx_load_symaddr(Node *ea, void *ptr, unsigned size, unsigned kind);

static Node *fix(Node *n, u64 v, unsigned w) {
  // keep nodes in step with the machine value (defence in depth)
  if (n && n->conc != (v & mask(w))) {
    inc(S->selfcheck);
    if (getenv("SX_DEBUGSELF")) {
      void *bt[12];
      backtrace_symbols_fd(bt, backtrace(bt, 12), 2);
    }
    incompleteSite("self-check: operand");
    return nullptr;
  }
  return n;
}
Node *_sx_bin(int op, int w, Node *ea, u64 va, Node *eb, u64 vb) {
  ea = fix(ea, va, w);
  eb = fix(eb, vb, w);
  Node *a = ex(ea, va, w), *b = ex(eb, vb, w);
  if ((op == L_SDiv || op == L_UDiv || op == L_SRem || op == L_URem) && !isC(b)) {
    // division by zero is a separate path (the machine traps there)
    Node *z = mkICmp(P_EQ, b, cst(0, w));
    decideBool(z, b->conc == 0, "division by zero");
    if (op == L_SDiv || op == L_SRem) {
      Node *o = mkBin(L_And, mkICmp(P_EQ, b, cst(~0ull, w)), mkICmp(P_EQ, a, cst(1ull << (w - 1), w)));
      if (!isC(o)) decideBool(o, o->conc & 1, "division overflow");
    }
  } else if ((op == L_SDiv || op == L_SRem) && isC(b) && sx(b->conc, w) == -1) {
    Node *o = mkICmp(P_EQ, a, cst(1ull << (w - 1), w));
    if (!isC(o)) decideBool(o, o->conc & 1, "division overflow");
  }
  if ((op == L_Shl || op == L_LShr || op == L_AShr) && !isC(b)) {
    // shift amounts beyond the width: undefined in C++, the machine masks the
    // amount for 32 and 64 bit operands
    Node *o = mkICmp(P_UGE, b, cst(w, w));
    decideBool(o, o->conc & 1, "shift amount");
    if (o->conc & 1) {
      unsigned m = w > 32 ? 63 : 31;
      b = mkBin(L_And, b, cst(m, w));
    }
  }
  return ret(mkBin(op, a, b));
}
Node *_sx_fbin(int op, int w, Node *ea, u64 va, Node *eb, u64 vb) {
  Node *a = ex(ea, va, w);
  if (op == L_FNeg) return ret(mk(FBIN, w, op, a));
  Node *b = ex(eb, vb, w);
  if (op == L_FRem) {
    pin(ea, "frem");
    pin(eb, "frem");
    return nullptr;
  }
  return mk(FBIN, w, op, a, b);
}
Node *_sx_icmp(int p, int w, Node *ea, u64 va, Node *eb, u64 vb) {
  ea = fix(ea, va, w);
  eb = fix(eb, vb, w);
  return ret(mkICmp(p, ex(ea, va, w), ex(eb, vb, w)));
}
Node *_sx_fcmp(int p, int w, Node *ea, u64 va, Node *eb, u64 vb) {
  if (p == 0 || p == 15) return nullptr;
  return mk(FCMP, 1, p, ex(ea, va, w), ex(eb, vb, w));
}
Node *_sx_cast(int op, int sk, int dk, Node *e, u64 v) {
  unsigned sw = sk & 0xff, dw = dk & 0xff;
  Node *a = fix(e, v, sw);
  if (!a) return nullptr;
  switch (op) {
  case L_Trunc: return ret(mkExtract(a, 0, dw));
  case L_ZExt: return ret(mkZext(a, dw));
  case L_SExt: return ret(mkSext(a, dw));
  case L_BitCast:
  case L_PtrToInt:
  case L_IntToPtr: return a;
  case L_SIToFP: // of the narrowest operand with this value
    if (a->op == ZEXT) op = L_UIToFP;
    if (a->op == SEXT || a->op == ZEXT) a = a->k[0], sw = a->w;
    return mk(FCAST, dw, op | sw << 8 | dw << 16, a);
  default: return mk(FCAST, dw, op | sw << 8 | dw << 16, a);
  }
}
Node *_sx_ite(Node *c, u64 vc, int k, Node *ea, u64 va, Node *eb, u64 vb) {
  unsigned w = k & 0xff;
  if (!fix(c, vc, 1)) return vc & 1 ? ea : eb;
  if (k & 0x200) { // choice between two objects: separate paths
    decideBool(c, vc & 1, "pointer select");
    return vc & 1 ? ea : eb;
  }
  return ret(mkIte(c, ex(ea, va, w), ex(eb, vb, w)));
}
void _sx_pin(Node *e, u64 v, const char *what) {
  if (gInPath) pin(e, what);
}
void _sx_branch(Node *e, u64 v) { decideBool(e, v & 1, "branch"); }
void _sx_switch(Node *e, u64 v, int w, int n, const u64 *tab) {
  if (!e || isC(e)) return;
  if (!fix(e, v, w)) return;
  unsigned groups = 0;
  for (int i = 0; i < n; ++i) groups = std::max<unsigned>(groups, tab[2 * i + 1] + 1);
  if (!groups) groups = 1;
  std::vector<Node *> conds(groups, nullptr);
  Node *none = cst(1, 1);
  unsigned tk = 0;
  for (int i = 0; i < n; ++i) {
    Node *q = mkICmp(P_EQ, e, cst(tab[2 * i], w));
    Node *&g = conds[tab[2 * i + 1]];
    g = g ? mkBin(L_Or, g, q) : q;
    none = mkBin(L_And, none, mkNot(q));
    if (tab[2 * i] == (v & mask(w))) tk = tab[2 * i + 1];
  }
  conds[0] = conds[0] ? mkBin(L_Or, conds[0], none) : none;
  std::vector<Node *> alts;
  for (unsigned g = 0; g < groups; ++g)
    if (g != tk && conds[g]) alts.push_back(conds[g]);
  decide(conds[tk], alts, true, "switch");
}
Node *_sx_toexpr(Node *e, u64 v, int w) { return ex(e, v, w); }
Node *_sx_gepidx(Node *t, Node *ei, u64 vi, int w, u64 scale) {
  Node *i = ex(ei, vi, w);
  if (w < 64) i = mkSext(i, 64);
  else if (w > 64) abort();
  if (scale != 1) {
    if ((scale & (scale - 1)) == 0) i = mkBin(L_Shl, i, cst(__builtin_ctzll(scale), 64));
    else i = mkBin(L_Mul, i, cst(scale, 64));
  }
  return mkBin(L_Add, t, i);
}
void _sx_memcpy(void *d, void *s, u64 n, Node *en) {
  if (en) pin(en, "memcpy length");
  u64 D = (u64)d, Sx = (u64)s;
  if (!filterRange(Sx, n)) {
    clearRange(D, n);
    return;
  }
  // called before the copy; snapshot source shadows
  std::vector<std::pair<Node *, u8>> tmp(n);
  bool any = false;
  for (u64 i = 0; i < n; ++i) {
    Page *p = page((Sx + i) >> 12, false);
    if (p && p->n[(Sx + i) & 4095]) {
      if (!byteAt(Sx + i)) continue;
      tmp[i] = {p->n[(Sx + i) & 4095], p->idx[(Sx + i) & 4095]};
      any = true;
    }
  }
  if (!any) {
    clearRange(D, n);
    return;
  }
  for (u64 i = 0; i < n; ++i) setByte(D + i, tmp[i].first, tmp[i].second);
}
void _sx_memset(void *d, Node *ev, u64 v, u64 n, Node *en) {
  if (en) pin(en, "memset length");
  u64 D = (u64)d;
  if (!ev) {
    clearRange(D, n);
    return;
  }
  Node *b = mkExtract(ev, 0, 8);
  for (u64 i = 0; i < n; ++i) setByte(D + i, isC(b) ? nullptr : b, 0);
}
static void pinArgs(const char *what) {
  int n = _sx_nargs;
  Node *a[64];
  memcpy(a, _sx_args, sizeof a);
  _sx_callee = nullptr;
  for (int i = 0; i < n && i < 64; ++i)
    if (a[i]) pin(a[i], what);
}
static const char *symName(void *t);
void _sx_dropped(void *target) {
  if (!gInPath) {
    _sx_callee = nullptr;
    return;
  }
  pinArgs(target ? symName(target) : "argument dropped at exception");
}
static void *gExtSeen[4096];
void _sx_extcall(void *t) {
  if (gInstrumented->count(t)) return;
  u64 h = ((u64)t >> 4) & 4095;
  if (gExtSeen[h] != t) {
    gExtSeen[h] = t;
    bool f = false;
    u32 n = __atomic_load_n(&S->nExt, __ATOMIC_ACQUIRE);
    for (u32 i = 0; i < n && i < 4096; ++i)
      if (S->ext[i] == t) f = true;
    if (!f) {
      u32 i = __atomic_fetch_add(&S->nExt, 1, __ATOMIC_ACQ_REL);
      if (i < 4096) S->ext[i] = t;
    }
  }
  if (_sx_callee == t) pinArgs(symName(t));
}
Node *_sx_intrinsic(const char *name, int k, int rk, Node *ea, u64 va, Node *eb, u64 vb, Node *ec, u64 vc) {
  unsigned w = k & 0xff;
  Node *a = ex(ea, va, w), *b = eb || vb || !strstr(name, "ctlz") ? ex(eb, vb, w) : nullptr;
  std::string n = name;
  auto ovf = [&](int op, u32 bin) -> Node * {
    if (rk == 0) return ret(mkBin(bin, a, ex(eb, vb, w)));
    Node *bb = ex(eb, vb, w);
    return ret(mk(OVF, 1, op | w << 8, a, bb));
  };
  if (n == "llvm.uadd.with.overflow") return ovf(0, L_Add);
  if (n == "llvm.sadd.with.overflow") return ovf(1, L_Add);
  if (n == "llvm.usub.with.overflow") return ovf(2, L_Sub);
  if (n == "llvm.ssub.with.overflow") return ovf(3, L_Sub);
  if (n == "llvm.umul.with.overflow") return ovf(4, L_Mul);
  if (n == "llvm.smul.with.overflow") return ovf(5, L_Mul);
  if (n == "llvm.abs") return ret(mkIte(mkICmp(P_SLT, a, cst(0, w)), mkBin(L_Sub, cst(0, w), a), a));
  if (n == "llvm.smax") return ret(mkIte(mkICmp(P_SGT, a, b), a, b));
  if (n == "llvm.smin") return ret(mkIte(mkICmp(P_SLT, a, b), a, b));
  if (n == "llvm.umax") return ret(mkIte(mkICmp(P_UGT, a, b), a, b));
  if (n == "llvm.umin") return ret(mkIte(mkICmp(P_ULT, a, b), a, b));
  if (n == "llvm.fabs") return mk(FUN, w, F_FABS, a);
  if (n == "llvm.sqrt") return mk(FUN, w, F_SQRT, a);
  if (n == "llvm.trunc") return mk(FUN, w, F_TRUNC, a);
  if (n == "llvm.usub.sat") return ret(mkIte(mkICmp(P_UGE, a, b), mkBin(L_Sub, a, b), cst(0, w)));
  if (n == "llvm.fmuladd") return mk(FBIN, w, L_FAdd, mk(FBIN, w, L_FMul, a, b), ex(ec, vc, w));
  if (n == "llvm.ctpop" || n == "llvm.ctlz" || n == "llvm.cttz") {
    // position of the highest set bit as an ite chain
    Node *r = cst(w, w);
    if (n == "llvm.ctlz") {
      for (unsigned i = 0; i < w; ++i) r = mkIte(mkICmp(P_EQ, mkExtract(a, i, 1), cst(1, 1)), cst(w - 1 - i, w), r);
      return ret(r);
    }
    if (n == "llvm.cttz") {
      for (int i = w - 1; i >= 0; --i) r = mkIte(mkICmp(P_EQ, mkExtract(a, i, 1), cst(1, 1)), cst(i, w), r);
      return ret(r);
    }
    r = cst(0, w);
    for (unsigned i = 0; i < w; ++i) r = mkBin(L_Add, r, mkZext(mkExtract(a, i, 1), w));
    return ret(r);
  }
  if (n == "llvm.bswap") {
    Node *r = nullptr;
    for (unsigned i = 0; i < w / 8; ++i) {
      Node *x = mkExtract(a, i * 8, 8);
      r = r ? mkConcat(r, x) : x;
    }
    return ret(r);
  }
  if (n == "llvm.fshl" || n == "llvm.fshr") {
    if (!ec) {
      unsigned s = vc % w;
      if (!s) return ret(n == "llvm.fshl" ? a : b);
      if (n == "llvm.fshr") s = w - s;
      return ret(mkBin(L_Or, mkBin(L_Shl, a, cst(s, w)), mkBin(L_LShr, b, cst(w - s, w))));
    }
  }
  std::string what = "intrinsic " + n;
  pin(ea, what.c_str());
  pin(eb, what.c_str());
  pin(ec, what.c_str());
  return nullptr;
}
void _sx_unsupported(const char *what, void *ptr, u64 n) {
  if (!gInPath) return;
  if (ptr) {
    for (u64 i = 0; i < n; ++i)
      if (Node *b = byteAt((u64)ptr + i)) {
        inc(S->unsupported);
        pin(b, what);
      }
    return;
  }
  inc(S->unsupported);
  incompleteSite(what);
}

// Load through a symbolic address: if the address depends on one narrow
// sub-expression, read the whole table; otherwise enumerate the addresses.
static bool readable(u64 a, unsigned n) {
  static int fds[2] = {-1, -1};
  if (fds[0] < 0) {
    if (pipe(fds)) return false;
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
  }
  if (write(fds[1], (void *)a, n) != (ssize_t)n) return false;
  char b[64];
  return read(fds[0], b, n) == (ssize_t)n;
}
static bool evalWith(Node *root, Node *cut, u64 v, u64 &out, std::unordered_map<Node *, u64> &memo) {
  if (root == cut) {
    out = v;
    return true;
  }
  if (root->op == CONST) {
    out = root->conc;
    return true;
  }
  if (root->op == VAR) return false;
  auto it = memo.find(root);
  if (it != memo.end()) {
    out = it->second;
    return true;
  }
  u64 kv[3] = {0, 0, 0};
  u8 kw[3] = {0, 0, 0};
  for (int i = 0; i < 3; ++i)
    if (root->k[i]) {
      if (!evalWith(root->k[i], cut, v, kv[i], memo)) return false;
      kw[i] = root->k[i]->w;
    }
  out = evalNode(root->op, root->w, root->aux, kv, kw);
  memo[root] = out;
  return true;
}
Node *_sx_load_symaddr(Node *ea, void *ptr, unsigned size, unsigned kind) {
  unsigned w = kind & 0xff;
  if (!ea) return loadN((u64)ptr, size, w);
  // find narrow cut
  std::vector<Node *> st{ea};
  std::set<Node *> seen;
  Node *cut = nullptr;
  bool ok = size <= 8;
  while (!st.empty() && ok) {
    Node *n = st.back();
    st.pop_back();
    if (!seen.insert(n).second) continue;
    if (n->op == CONST) continue;
    if (n->w <= 8) {
      if (cut && cut != n) ok = false;
      cut = n;
      continue;
    }
    if (n->op == VAR) {
      ok = false;
      continue;
    }
    for (auto *k : n->k)
      if (k) st.push_back(k);
  }
  if (ok && cut) {
    std::map<u64, std::vector<u64>> byValue; // loaded value -> cut values
    unsigned N = 1u << cut->w;
    std::vector<u64> addrs(N), vals(N);
    u64 lo = ~0ull, hi = 0;
    for (unsigned v = 0; v < N && ok; ++v) {
      std::unordered_map<Node *, u64> memo;
      ok = evalWith(ea, cut, v, addrs[v], memo);
      lo = std::min(lo, addrs[v]);
      hi = std::max(hi, addrs[v]);
    }
    if (ok && hi - lo < 65536) {
      // values of the cut that the path allows decide which cells are read
      std::vector<bool> feas(N, true);
      bool all = true;
      for (unsigned v = 0; v < N; ++v)
        if (!readable(addrs[v], size)) all = false;
      for (unsigned v = 0; v < N && all; ++v) {
        if (filterRange(addrs[v], size) && loadN(addrs[v], size, w)) all = false;
        u64 x = 0;
        memcpy(&x, (void *)addrs[v], size);
        vals[v] = x & mask(w);
      }
      if (all) {
        for (unsigned v = 0; v < N; ++v) byValue[vals[v]].push_back(v);
        // most frequent value becomes the default; the others are intervals
        u64 def = 0;
        size_t best = 0;
        for (auto &kv : byValue)
          if (kv.second.size() > best) {
            best = kv.second.size();
            def = kv.first;
          }
        Node *r = cst(def, w);
        for (auto &kv : byValue) {
          if (kv.first == def) continue;
          Node *c = cst(0, 1);
          auto &vs = kv.second;
          for (size_t i = 0; i < vs.size();) {
            size_t j = i;
            while (j + 1 < vs.size() && vs[j + 1] == vs[j] + 1) ++j;
            Node *q = i == j ? mkICmp(P_EQ, cut, cst(vs[i], cut->w))
                             : mkBin(L_And, mkICmp(P_UGE, cut, cst(vs[i], cut->w)), mkICmp(P_ULE, cut, cst(vs[j], cut->w)));
            c = mkBin(L_Or, c, q);
            i = j + 1;
          }
          r = mkIte(c, cst(kv.first, w), r);
        }
        return ret(r);
      }
    }
  }
  pin(ea, "load address");
  return loadN((u64)ptr, size, w);
}

// ------------------------------------------------------------------ modelled library functions
#define ENTER(f) bool sym = _sx_callee == (void *)f; if (sym) _sx_callee = nullptr; Node *A[4]; if (sym) memcpy(A, _sx_args, sizeof A); else memset(A, 0, sizeof A)
void *_sxw_memcpy(void *d, const void *s, size_t n) {
  ENTER(_sxw_memcpy);
  pin(A[0], "memcpy dest"), pin(A[1], "memcpy source"), pin(A[2], "memcpy length");
  _sx_memcpy(d, (void *)s, n, nullptr);
  _sx_ret[0] = nullptr;
  return memcpy(d, s, n);
}
void *_sxw_memmove(void *d, const void *s, size_t n) {
  ENTER(_sxw_memmove);
  pin(A[0], "memmove dest"), pin(A[1], "memmove source"), pin(A[2], "memmove length");
  _sx_memcpy(d, (void *)s, n, nullptr);
  _sx_ret[0] = nullptr;
  return memmove(d, s, n);
}
void *_sxw_memset(void *d, int c, size_t n) {
  ENTER(_sxw_memset);
  pin(A[0], "memset dest"), pin(A[2], "memset length");
  _sx_memset(d, A[1], c, n, nullptr);
  _sx_ret[0] = nullptr;
  return memset(d, c, n);
}
int _sxw_memcmp(const void *a, const void *b, size_t n) {
  ENTER(_sxw_memcmp);
  pin(A[0], "memcmp"), pin(A[1], "memcmp"), pin(A[2], "memcmp length");
  _sx_ret[0] = nullptr;
  int r = memcmp(a, b, n);
  r = r < 0 ? -1 : r > 0 ? 1 : 0;
  if (filterRange((u64)a, n) || filterRange((u64)b, n)) {
    Node *e = cst(0, 32);
    bool any = false;
    for (size_t i = n; i-- > 0;) {
      Node *x = byteAt((u64)a + i), *y = byteAt((u64)b + i);
      if (x || y) any = true;
      Node *p = ex(x, ((u8 *)a)[i], 8), *q = ex(y, ((u8 *)b)[i], 8);
      Node *eq = mkICmp(P_EQ, p, q);
      if (isC(eq) && eq->conc) continue;
      e = mkIte(eq, e, mkIte(mkICmp(P_ULT, p, q), cst(~0ull, 32), cst(1, 32)));
    }
    if (any) _sx_ret[0] = ret(e);
  }
  return r;
}
int _sxw_bcmp(const void *a, const void *b, size_t n) {
  ENTER(_sxw_bcmp);
  pin(A[0], "bcmp"), pin(A[1], "bcmp"), pin(A[2], "bcmp length");
  _sx_ret[0] = nullptr;
  int r = memcmp(a, b, n) != 0;
  if (filterRange((u64)a, n) || filterRange((u64)b, n)) {
    Node *e = cst(1, 1);
    bool any = false;
    for (size_t i = 0; i < n; ++i) {
      Node *x = byteAt((u64)a + i), *y = byteAt((u64)b + i);
      if (x || y) any = true;
      e = mkBin(L_And, e, mkICmp(P_EQ, ex(x, ((u8 *)a)[i], 8), ex(y, ((u8 *)b)[i], 8)));
    }
    if (any) _sx_ret[0] = ret(mkZext(mkNot(e), 32));
  }
  return r;
}
size_t _sxw_strlen(const char *s) {
  ENTER(_sxw_strlen);
  pin(A[0], "strlen");
  _sx_ret[0] = nullptr;
  size_t n = strlen(s);
  if (filterRange((u64)s, n + 1))
    for (size_t i = 0; i <= n; ++i)
      if (Node *b = byteAt((u64)s + i)) decideBool(mkICmp(P_EQ, b, cst(0, 8)), s[i] == 0, "strlen");
  return n;
}
void *_sxw_memchr(const void *s, int c, size_t n) {
  ENTER(_sxw_memchr);
  pin(A[0], "memchr"), pin(A[2], "memchr length");
  _sx_ret[0] = nullptr;
  Node *ce = A[1] ? mkExtract(A[1], 0, 8) : nullptr;
  u8 cc = c;
  for (size_t i = 0; i < n; ++i) {
    u8 x = ((u8 *)s)[i];
    Node *b = filter((u64)s + i) ? byteAt((u64)s + i) : nullptr;
    if (b || ce) decideBool(mkICmp(P_EQ, ex(b, x, 8), ex(ce, cc, 8)), x == cc, "memchr");
    if (x == cc) return (u8 *)s + i;
  }
  return nullptr;
}
static void dropHeap(void *p, size_t n) {
  if (p && gInPath) clearRange((u64)p, n);
}
// Heap of the program under test: separate from the heap of the checker and of
// the solver, so that addresses do not depend on solver activity.
static const u64 kArenaBase = 0x200000000000ull, kArenaSize = 8ull << 30;
static u64 gArenaTop;
static void *gFree[4096];
struct Hdr {
  u64 size;
  u64 magic;
};
static const u64 kLive = 0x11feb10cULL, kDead = 0xdeadb10cULL;
static bool inArena(void *p) { return (u64)p - kArenaBase < kArenaSize; }
static u64 clsSize(u64 n) {
  n = (n + 15) & ~15ull;
  if (n < 16) n = 16;
  if (n <= 8192) return n;
  return (n + 4095) & ~4095ull;
}
static void *arenaAlloc(u64 n) {
  n = clsSize(n);
  u64 cls = n / 16;
  if (cls < 4096 && gFree[cls]) {
    Hdr *h = (Hdr *)gFree[cls];
    gFree[cls] = *(void **)(h + 1);
    h->magic = kLive;
    return h + 1;
  }
  if (!gArenaTop) {
    void *m = mmap((void *)kArenaBase, kArenaSize, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != (void *)kArenaBase) {
      fprintf(stderr, "sx: cannot reserve the heap\n");
      _exit(3);
    }
    gArenaTop = kArenaBase;
  }
  if (gArenaTop + n + sizeof(Hdr) > kArenaBase + kArenaSize) return nullptr;
  Hdr *h = (Hdr *)gArenaTop;
  gArenaTop += n + sizeof(Hdr);
  h->size = n;
  h->magic = kLive;
  return h + 1;
}
static void arenaFree(void *p) {
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != kLive) {
    fprintf(stderr, "sx: invalid or double free\n");
    abort();
  }
  h->magic = kDead;
  dropHeap(p, h->size);
  u64 cls = h->size / 16;
  if (cls < 4096) {
    *(void **)p = gFree[cls];
    gFree[cls] = h;
  }
}
static void anyFree(void *p) {
  if (!p) return;
  if (inArena(p)) return arenaFree(p);
  if (gInPath) dropHeap(p, malloc_usable_size(p));
  free(p);
}
static void *newOrThrow(size_t n) {
  void *p = n > kArenaSize ? nullptr : arenaAlloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *_sxw__Znwm(size_t n) {
  ENTER(_sxw__Znwm);
  pin(A[0], "allocation size");
  _sx_ret[0] = nullptr;
  return newOrThrow(n);
}
void *_sxw__Znam(size_t n) {
  ENTER(_sxw__Znam);
  pin(A[0], "allocation size");
  _sx_ret[0] = nullptr;
  return newOrThrow(n);
}
void *_sxw_malloc(size_t n) {
  ENTER(_sxw_malloc);
  pin(A[0], "allocation size");
  _sx_ret[0] = nullptr;
  return n > kArenaSize ? nullptr : arenaAlloc(n);
}
void *_sxw_calloc(size_t a, size_t b) {
  ENTER(_sxw_calloc);
  pin(A[0], "allocation size"), pin(A[1], "allocation size");
  _sx_ret[0] = nullptr;
  void *p = arenaAlloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *_sxw_realloc(void *p, size_t n) {
  ENTER(_sxw_realloc);
  pin(A[0], "realloc"), pin(A[1], "allocation size");
  _sx_ret[0] = nullptr;
  void *q = arenaAlloc(n);
  if (p && q) {
    size_t o = inArena(p) ? ((Hdr *)p - 1)->size : malloc_usable_size(p);
    _sx_memcpy(q, p, std::min(o, n), nullptr);
    memcpy(q, p, std::min(o, n));
    anyFree(p);
  }
  return q;
}
void _sxw_free(void *p) {
  ENTER(_sxw_free);
  pin(A[0], "free");
  anyFree(p);
}
void _sxw__ZdlPv(void *p) {
  ENTER(_sxw__ZdlPv);
  pin(A[0], "delete");
  anyFree(p);
}
void _sxw__ZdlPvm(void *p, size_t n) {
  ENTER(_sxw__ZdlPvm);
  pin(A[0], "delete");
  anyFree(p);
}
void _sxw__ZdaPv(void *p) {
  ENTER(_sxw__ZdaPv);
  pin(A[0], "delete");
  anyFree(p);
}
void _sxw__ZdaPvm(void *p, size_t n) {
  ENTER(_sxw__ZdaPvm);
  pin(A[0], "delete");
  anyFree(p);
}
size_t _sxw__ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) {
  ENTER(_sxw__ZSt11_Hash_bytesPKvmm);
  // any function of the content is a hash: this one does not look at the bytes,
  // so that look-ups are decided by the comparisons of the keys
  for (int i = 0; i < 3; ++i) pin(A[i], "hash");
  _sx_ret[0] = nullptr;
  return (n + 1) * 0x9e3779b97f4a7c15ull ^ seed;
}

// ------------------------------------------------------------------ harness interface
static u64 makeVar(const char *name, unsigned w, u64 def) {
  if (!gInPath) {
    fprintf(stderr, "sx: variable outside path\n");
    abort();
  }
  for (auto &v : gVars)
    if (v.name == name) {
      _sx_ret[0] = v.n;
      return v.n->conc;
    }
  if (gVars.size() >= kMaxVars) {
    fprintf(stderr, "sx: too many variables\n");
    abort();
  }
  auto it = gAssign.find(name);
  u64 val = (it != gAssign.end() ? it->second : def) & mask(w);
  u32 id = gVars.size();
  u64 hh = 0;
  for (const char *c = name; *c; ++c) hh = mix(hh, (u8)*c);
  // hash of the node must not depend on the value, only on the name
  Node *n = allocNode();
  memset((void *)n, 0, sizeof *n);
  n->op = VAR;
  n->w = w;
  n->aux = id;
  n->conc = val;
  n->h1 = mix(hh, w);
  n->h2 = mix(hh ^ 0xabcdef, w + 3);
  gVars.push_back({name, n, (u32)hh, nullptr});
  gDsu[id] = id;
  if (Z) {
    Z3_sort s = w == 1 ? z_Z3_mk_bool_sort(Z) : z_Z3_mk_bv_sort(Z, w);
    gVars.back().z = z_Z3_mk_const(Z, z_Z3_mk_string_symbol(Z, name), s);
  }
  _sx_ret[0] = n;
  return val;
}
uint8_t sx_u8(const char *n) { return makeVar(n, 8, 0); }
uint16_t sx_u16(const char *n) { return makeVar(n, 16, 0); }
uint32_t sx_u32(const char *n) { return makeVar(n, 32, 0); }
uint64_t sx_u64(const char *n) { return makeVar(n, 64, 0); }
int16_t sx_i16(const char *n) { return makeVar(n, 16, 0); }
int32_t sx_i32(const char *n) { return makeVar(n, 32, 0); }
int64_t sx_i64(const char *n) { return makeVar(n, 64, 0); }
bool sx_bool(const char *n) { return makeVar(n, 1, 0); }
float sx_f32(const char *n) { return asF(makeVar(n, 32, 0)); }
double sx_f64(const char *n) { return asD(makeVar(n, 64, 0)); }
void sx_bytes(void *buf, size_t n, const char *name) {
  for (size_t i = 0; i < n; ++i) {
    std::string nm = std::string(name) + "[" + std::to_string(i) + "]";
    ((u8 *)buf)[i] = makeVar(nm.c_str(), 8, 'a');
    setByte((u64)buf + i, _sx_ret[0], 0);
  }
  _sx_ret[0] = nullptr;
}
unsigned sx_choose(const char *name, unsigned n) {
  size_t before = gVars.size();
  u64 v = makeVar(name, 32, 0);
  bool fresh = gVars.size() != before;
  Node *e = _sx_ret[0];
  Node *in = mkICmp(P_ULT, e, cst(n, 32));
  _sx_ret[0] = nullptr;
  if (v >= n) {
    decide(mkNot(in), {in}, true, "choose");
    inc(S->assumeFail);
    finishPath(0);
  }
  decide(in, {}, false, "choose");
  if (fresh) { // nothing constrains the variable yet: every value is possible
    Node *t = mkICmp(P_EQ, e, cst(v, 32));
    if (!isC(t) && !gPCset.count(t)) {
      std::vector<std::pair<Node *, Model>> alts;
      if (gIndex >= gBound)
        for (u64 k = 0; k < n; ++k)
          if (k != v) alts.push_back({mkICmp(P_EQ, e, cst(k, 32)), Model{{(u32)before, k}}});
      inc(S->pins);
      inc(S->branches);
      for (auto &a : alts) sendItem(a.second, mix(gPrefix, a.first->h1));
      gPrefix = mix(gPrefix, t->h1);
      gIndex++;
      if (gIndex == gBound && gPrefix != gExpectPrefix) {
        inc(S->divergences);
        incompleteSite("divergence");
        finishPath(0);
      }
      addPC(t);
    }
  } else
    pin(e, "choose");
  _sx_ret[0] = nullptr;
  return v;
}
void sx_assume(bool c) {
  ENTER(sx_assume);
  Node *e = A[0];
  if (e && e->w != 1) e = mkICmp(P_NE, e, cst(0, e->w));
  if (!c) {
    if (e && !isC(e)) decide(mkNot(e), {e}, true, "assume");
    inc(S->assumeFail);
    finishPath(0);
  }
  if (e && !isC(e)) decide(e, {}, false, "assume");
}
static void violation(const Model &m, const char *msg) {
  std::string b = encodeAssign(m);
  apps(b, msg);
  sendMsg(M_VIOLATION, b);
  flushOut();
}
static void printTerm(Node *n, int depth) {
  static const char *names[] = {"const", "var", "bin", "fbin", "icmp", "fcmp", "ite", "zext", "sext", "extract", "concat", "fcast", "fun", "ovf"};
  fprintf(stderr, "%*s%s/%u aux=%x", depth * 2, "", names[n->op], n->w, n->aux);
  if (n->op == CONST) fprintf(stderr, " %lx", (unsigned long)n->conc);
  fputc('\n', stderr);
  for (Node *k : n->k)
    if (k && depth < 12) printTerm(k, depth + 1);
}
void sx_assert(bool c, const char *msg) {
  ENTER(sx_assert);
  inc(S->asserts);
  Node *e = A[0];
  if (e && e->w != 1) e = mkICmp(P_NE, e, cst(0, e->w));
  if (!c) {
    violation({}, msg);
    finishPath(0);
  }
  if (!e || isC(e) || gPCset.count(e)) return;
  if (gIndex >= gBound) {
    inc(S->assertQueries);
    Model m;
    int r = solve({mkNot(e)}, m);
    if (r == 1) violation(m, msg);
    else if (r < 0) {
      std::string s = std::string("assert: ") + msg;
      incompleteSite(s.c_str());
    }
  }
  // from here on the property holds on this path
  decide(e, {}, false, "assert");
}
// equality of two values; always put to the solver when an input is involved
void sx_assert_eq(u64 a, u64 b, const char *msg) {
  ENTER(sx_assert_eq);
  inc(S->asserts);
  if (a != b) {
    violation({}, msg);
    finishPath(0);
  }
  if (!A[0] && !A[1]) return;
  Node *x = ex(A[0], a, 64), *y = ex(A[1], b, 64);
  if (gIndex >= gBound) {
    inc(S->assertQueries);
    Model m;
    int r = solve({mk(ICMP, 1, P_NE, x, y)}, m);
    if (r == 1) violation(m, msg);
    else if (r < 0) {
      std::string s = std::string("assert: ") + msg;
      if (getenv("SX_DEBUGTERM")) fprintf(stderr, "%s\n", msg), printTerm(x, 0), printTerm(y, 0);
      incompleteSite(s.c_str());
    }
  }
  Node *e = mkICmp(P_EQ, x, y);
  if (!isC(e) && !gPCset.count(e)) decide(e, {}, false, "assert");
}
void sx_fail(const char *msg) {
  inc(S->asserts);
  violation({}, msg);
  finishPath(0);
  abort();
}
void sx_reach(const char *label) {
  u32 n = __atomic_load_n(&S->nReach, __ATOMIC_ACQUIRE);
  for (u32 i = 0; i < n && i < 256; ++i)
    if (!strncmp(S->reach[i], label, 63)) {
      inc(S->reachCount[i]);
      return;
    }
  u32 i = __atomic_fetch_add(&S->nReach, 1, __ATOMIC_ACQ_REL);
  if (i < 256) {
    strncpy(S->reach[i], label, 63);
    inc(S->reachCount[i]);
  }
}
static void observe(u64 v) { gObserve = (gObserve ^ v) * 0x100000001b3ull; }
void sx_observe(uint64_t v) {
  ENTER(sx_observe);
  observe(v);
}
void sx_observe_str(const char *p, size_t n) {
  ENTER(sx_observe_str);
  for (size_t i = 0; i < n; ++i) observe((u8)p[i]);
  observe(n);
}
void sx_done(void) {
  finishPath(0);
  abort();
}
int sx_symbolic(void) { return 1; }
u64 sx_pinned_u64(u64 v) {
  ENTER(sx_pinned_u64);
  if (A[0]) pin(A[0], "explicit");
  _sx_ret[0] = nullptr;
  return v;
}
} // extern "C"

// memory of the program under test may be released by library code
void operator delete(void *p) noexcept {
  if (p && inArena(p)) arenaFree(p);
  else free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static const char *symName(void *t) {
  Dl_info di;
  static char buf[128];
  if (dladdr(t, &di) && di.dli_sname) {
    snprintf(buf, sizeof buf, "argument of %s", di.dli_sname);
    return buf;
  }
  snprintf(buf, sizeof buf, "argument of external function");
  return buf;
}

static void finishPath(int code) {
  gInPath = false;
  _sx_active = 0;
  std::string b;
  appv<u64>(b, gObserve);
  appv<u32>(b, gIndex);
  std::string a = encodeAssign({});
  apps(b, a);
  sendMsg(M_DONE, b);
  flushOut();
  if (gIndex > S->maxDepth) S->maxDepth = gIndex;
  for (auto &m : mods())
    for (u64 i = 0; i < m.n; ++i)
      if (m.flags[i]) gEntered[m.base + i] = 1;
  _exit(code);
}

// ------------------------------------------------------------------ explorer
struct Item {
  std::map<std::string, u64> a;
  u32 bound;
  u64 prefix;
};
struct Case {
  const char *name;
  void (*setup)();
  void (*path)();
};
static std::vector<Case> &cases() {
  static auto *v = new std::vector<Case>();
  return *v;
}
extern "C" void sx_register_case(const char *name, void (*setup)(), void (*path)()) { cases().push_back({name, setup, path}); }

struct Violation {
  std::map<std::string, u64> a;
  std::string msg;
};
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += c;
  }
  return o;
}
static std::string jassign(const std::map<std::string, u64> &a) {
  std::string o = "{";
  for (auto &kv : a) {
    if (o.size() > 1) o += ",";
    o += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second);
  }
  return o + "}";
}
struct Rd {
  const char *p, *e;
  template <class T> T v() {
    T x{};
    memcpy(&x, p, sizeof x);
    p += sizeof x;
    return x;
  }
  std::string s() {
    u32 n = v<u32>();
    std::string r(p, n);
    p += n;
    return r;
  }
  std::map<std::string, u64> assign() {
    std::map<std::string, u64> a;
    u32 n = v<u32>();
    for (u32 i = 0; i < n; ++i) {
      std::string k = s();
      a[k] = v<u64>();
    }
    return a;
  }
};
struct Child {
  pid_t pid;
  int fd;
  Item item;
  std::string buf;
  bool done;
};

int main(int argc, char **argv) {
  const char *want = argc > 1 ? argv[1] : nullptr;
  if (!want || !strcmp(want, "--list")) {
    for (auto &c : cases()) printf("%s\n", c.name);
    return 0;
  }
  auto env = [](const char *n, long d) {
    const char *v = getenv(n);
    return v ? atol(v) : d;
  };
  long budget = env("SX_BUDGET_S", 600), jobs = env("SX_JOBS", 8), pathTimeout = env("SX_PATH_S", 60),
       maxPaths = env("SX_MAXPATHS", 1000000000), maxViol = env("SX_MAXVIOL", 5);
  gQueryTimeoutMs = env("SX_QUERY_MS", 20000);
  gPinMax = env("SX_PINMAX", 300);
  int verbose = env("SX_VERBOSE", 0);
  const char *out = getenv("SX_OUT");
  Case *cs = nullptr;
  for (auto &c : cases())
    if (!strcmp(c.name, want)) cs = &c;
  if (!cs) {
    fprintf(stderr, "no case %s\n", want);
    return 2;
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  gCache = (CacheEnt *)mmap(nullptr, sizeof(CacheEnt) * kCacheSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 nf = mods().empty() ? 1 : mods().back().base + mods().back().n;
  gEntered = (u8 *)mmap(nullptr, nf + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  gInstrumented = new std::unordered_set<void *>();
  for (auto &m : mods())
    for (u64 i = 0; i < m.n; ++i) gInstrumented->insert(m.fns[i]);
  gPages = new std::unordered_map<u64, Page *>();
  loadZ3();
  if (!verbose) {
    int dn = open("/dev/null", O_WRONLY);
    fflush(stdout);
    dup2(dn, 1);
    close(dn);
  }
  alarm(env("SX_SETUP_S", 150));
  if (cs->setup) cs->setup();
  alarm(0);
  u64 t0 = nowNs();
  std::deque<Item> work;
  work.push_back({{}, 0, 0});
  // an item file restricts the run to one path (debugging aid)
  std::vector<Child> ch;
  std::vector<Violation> viol;
  std::vector<std::pair<std::map<std::string, u64>, u64>> samples;
  u64 crashes = 0;
  bool budgetOut = false;
  u64 started = 0, lastMem = nowNs();
  const long pathMB = env("SX_PATH_MB", 2500);
  while (!work.empty() || !ch.empty()) {
    double el = (nowNs() - t0) / 1e9;
    bool stop = el > budget || (long)started >= maxPaths || (long)viol.size() >= maxViol;
    if (stop && !work.empty()) {
      if (el > budget || (long)started >= maxPaths) budgetOut = true;
      work.clear();
    }
    if (stop && el > budget + 5)
      for (auto &c : ch) kill(c.pid, SIGKILL);
    while (!work.empty() && (long)ch.size() < jobs) {
      Item it = std::move(work.front());
      work.pop_front();
      int p[2];
      if (pipe(p)) abort();
      fflush(stdout);
      fflush(stderr);
      pid_t pid = fork();
      if (pid < 0) {
        perror("fork");
        return 3;
      }
      if (pid == 0) {
        close(p[0]);
        for (auto &c : ch) close(c.fd);
        gPipe = p[1];
        fcntl(gPipe, F_SETPIPE_SZ, 1 << 20);
        gAssign = it.a;
        gBound = it.bound;
        gExpectPrefix = it.prefix;
        alarm(pathTimeout);
        for (auto &m : mods()) memset(m.flags, 0, m.n);
        _sx_callee = nullptr;
        gInPath = true;
        _sx_active = 1;
        cs->path();
        finishPath(0);
      }
      close(p[1]);
      ch.push_back({pid, p[0], std::move(it), "", false});
      started++;
    }
    std::vector<pollfd> pf;
    for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    // a path that needs too much memory ends like one that needs too much time
    if (nowNs() - lastMem > 500000000) {
      lastMem = nowNs();
      for (auto &c : ch) {
        long pages = 0, rss = 0;
        if (FILE *f = fopen(("/proc/" + std::to_string(c.pid) + "/statm").c_str(), "r")) {
          if (fscanf(f, "%ld %ld", &pages, &rss) == 2 && rss / 256 > pathMB) kill(c.pid, SIGALRM);
          fclose(f);
        }
      }
    }
    for (size_t i = 0; i < ch.size();) {
      Child &c = ch[i];
      if (!(pf[i].revents & (POLLIN | POLLHUP))) {
        ++i;
        continue;
      }
      char b[65536];
      ssize_t n = read(c.fd, b, sizeof b);
      if (n > 0) c.buf.append(b, n);
      size_t off = 0;
      while (c.buf.size() - off >= 8) {
        u32 t, l;
        memcpy(&t, c.buf.data() + off, 4);
        memcpy(&l, c.buf.data() + off + 4, 4);
        if (c.buf.size() - off - 8 < l) break;
        Rd r{c.buf.data() + off + 8, c.buf.data() + off + 8 + l};
        off += 8 + l;
        if (t == M_ITEM) {
          Item it;
          it.a = r.assign();
          it.bound = r.v<u32>();
          it.prefix = r.v<u64>();
          work.push_back(std::move(it));
        } else if (t == M_VIOLATION) {
          Violation v;
          v.a = r.assign();
          v.msg = r.s();
          viol.push_back(v);
          if (verbose) fprintf(stderr, "violation: %s %s\n", v.msg.c_str(), jassign(v.a).c_str());
        } else if (t == M_DONE) {
          c.done = true;
          u64 ob = r.v<u64>();
          r.v<u32>();
          std::string as = r.s();
          Rd r2{as.data(), as.data() + as.size()};
          S->paths++;
          if (samples.size() < 64) samples.push_back({r2.assign(), ob});
          else if ((S->paths * 2654435761u) % S->paths < 64) samples[(S->paths * 40503u) % 64] = {r2.assign(), ob};
        }
      }
      c.buf.erase(0, off);
      if (n <= 0) {
        int st = 0;
        waitpid(c.pid, &st, 0);
        close(c.fd);
        if (!c.done) {
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            inc(S->timeouts);
            incompleteSite("path timeout");
            // decided by the replay on the plain build
            viol.push_back({c.item.a, "does not terminate"});
          } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            incompleteSite("path killed (budget)");
          } else if (WIFSIGNALED(st)) {
            crashes++;
            viol.push_back({c.item.a, std::string("crash: ") + strsignal(WTERMSIG(st))});
            if (verbose) fprintf(stderr, "crash %s %s\n", strsignal(WTERMSIG(st)), jassign(c.item.a).c_str());
          } else {
            viol.push_back({c.item.a, "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(st))});
          }
        }
        pf.erase(pf.begin() + i);
        ch.erase(ch.begin() + i);
      } else
        ++i;
    }
  }
  double wall = (nowNs() - t0) / 1e9;
  bool complete = !budgetOut && S->nSite == 0;
  // report
  std::string j = "{";
  auto add = [&](const char *k, u64 v) { j += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
  j += "\"case\":\"" + jesc(want) + "\",";
  add("paths", S->paths);
  add("queries", S->queries);
  add("sat", S->sat);
  add("unsat", S->unsat);
  add("unknown", S->unknown);
  add("cache_hits", S->cacheHits);
  add("branches", S->branches);
  add("asserts", S->asserts);
  add("assert_queries", S->assertQueries);
  add("assume_failed_paths", S->assumeFail);
  add("pins", S->pins);
  add("divergences", S->divergences);
  add("selfcheck_failures", S->selfcheck);
  add("stale_drops", S->staleDrops);
  add("unsupported", S->unsupported);
  add("max_depth", S->maxDepth);
  add("timeouts", S->timeouts);
  add("crashes", crashes);
  j += "\"solver_s\":" + std::to_string(S->solverNs / 1e9) + ",";
  j += "\"wall_s\":" + std::to_string(wall) + ",";
  j += std::string("\"complete\":") + (complete ? "true" : "false") + ",";
  j += std::string("\"budget_exhausted\":") + (budgetOut ? "true" : "false") + ",";
  j += std::string("\"z3\":\"") + z_Z3_get_full_version() + "\",";
  j += "\"incomplete\":{";
  for (u32 i = 0; i < S->nSite && i < 128; ++i)
    j += (i ? ",\"" : "\"") + jesc(S->site[i]) + "\":" + std::to_string(S->siteCount[i]);
  j += "},\"reach\":{";
  for (u32 i = 0; i < S->nReach && i < 256; ++i)
    j += (i ? ",\"" : "\"") + jesc(S->reach[i]) + "\":" + std::to_string(S->reachCount[i]);
  j += "},\"external\":[";
  {
    std::set<std::string> names;
    for (u32 i = 0; i < S->nExt && i < 4096; ++i) {
      Dl_info di;
      char b[64];
      if (dladdr(S->ext[i], &di) && di.dli_sname) names.insert(di.dli_sname);
      else {
        snprintf(b, sizeof b, "@%p", S->ext[i]);
        names.insert(b);
      }
    }
    bool f = true;
    for (auto &n : names) {
      j += (f ? "\"" : ",\"") + jesc(n) + "\"";
      f = false;
    }
  }
  j += "],\"functions\":[";
  {
    std::set<std::string> fn;
    for (auto &m : mods())
      for (u64 i = 0; i < m.n; ++i)
        if (gEntered[m.base + i]) fn.insert(m.names[i]);
    bool f = true;
    for (auto &n : fn) {
      j += (f ? "\"" : ",\"") + jesc(n) + "\"";
      f = false;
    }
  }
  j += "],\"violations\":[";
  for (size_t i = 0; i < viol.size(); ++i)
    j += std::string(i ? "," : "") + "{\"msg\":\"" + jesc(viol[i].msg) + "\",\"inputs\":" + jassign(viol[i].a) + "}";
  j += "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i)
    j += std::string(i ? "," : "") + "{\"inputs\":" + jassign(samples[i].first) + ",\"observe\":" + std::to_string(samples[i].second) + "}";
  j += "]}\n";
  if (out) {
    FILE *f = fopen(out, "w");
    fwrite(j.data(), 1, j.size(), f);
    fclose(f);
  } else
    fputs(j.c_str(), stderr);
  return viol.empty() ? (complete ? 0 : 4) : 1;
}
