// Semantic version numbers and the module sets ordered by them.
#include "sx.h"
#include <Common/Module.h>
#include <Common/Repository.h>
#include <Common/Restriction.h>
#include <SemVer/Version.h>
#include <string>
typedef SemanticVersionNumber V;

static std::string text(const std::string &name, size_t n) {
  char b[16];
  sx_bytes(b, n, name.c_str());
  return std::string(b, n);
}
struct Parts {
  int32_t n[3];
  std::string label, build;
};
static Parts parts(const std::string &p, unsigned maxLabel) {
  Parts r;
  r.n[0] = sx_i32((p + ".major").c_str());
  r.n[1] = sx_i32((p + ".minor").c_str());
  r.n[2] = sx_i32((p + ".bugfix").c_str());
  r.label = text(p + ".label", sx_choose((p + ".labelsize").c_str(), maxLabel + 1));
  r.build = text(p + ".build", sx_choose((p + ".buildsize").c_str(), 2));
  return r;
}
static V make(const Parts &p) { return V(p.n[0], p.n[1], p.n[2], p.label, p.build); }
static bool same(const Parts &a, const Parts &b) {
  return ((a.n[0] == b.n[0]) & (a.n[1] == b.n[1]) & (a.n[2] == b.n[2])) && a.label == b.label && a.build == b.build;
}

SX_CASE(pair_order) {
  Parts a = parts("a", 2), b = parts("b", 2);
  V x = make(a), y = make(b);
  bool lt = x < y, gt = y < x, eq = x == y, ne = x != y;
  sx_assert(eq == same(a, b), "versions are equal when all their parts are");
  sx_assert(ne == !eq, "!= is the negation of ==");
  sx_assert(lt + gt + eq == 1, "exactly one of <, > and == holds");
  sx_assert((y == x) == eq, "== is symmetric");
  if (a.n[0] != b.n[0]) sx_assert(lt == (a.n[0] < b.n[0]), "the major number decides first");
  else if (a.n[1] != b.n[1]) sx_assert(lt == (a.n[1] < b.n[1]), "the minor number decides second");
  else if (a.n[2] != b.n[2]) sx_assert(lt == (a.n[2] < b.n[2]), "the bugfix number decides third");
  else if (a.label.empty() != b.label.empty()) sx_assert(lt == !a.label.empty(), "a labelled version precedes the one without label"), sx_reach("labelled");
  else if (a.label != b.label) sx_reach("labels");
}
SX_CASE(transitive_order) {
  Parts a = parts("a", 1), b = parts("b", 1), c = parts("c", 1);
  V x = make(a), y = make(b), z = make(c);
  if (x < y && y < z) {
    sx_assert(x < z, "the order is transitive");
    sx_reach("chain");
  }
}
SX_CASE(successors) {
  int32_t m = sx_i32("major"), n = sx_i32("minor"), b = sx_i32("bugfix");
  sx_assume((m >= 0) & (n >= 0) & (b >= 0) & (m < 0x7fffffff) & (n < 0x7fffffff) & (b < 0x7fffffff));
  V v(m, n, b, text("label", sx_choose("labelsize", 2)));
  sx_assert(v < v.nextBugfix() && v < v.nextMinor() && v < v.nextMajor(), "a next version is larger");
  sx_assert(v.nextBugfix() < v.nextMinor() && v.nextMinor() < v.nextMajor(), "bugfix, minor, major");
  sx_assert(v.nextBugfix() == V(m, n, b + 1) && v.nextMinor() == V(m, n + 1, 0) && v.nextMajor() == V(m + 1, 0, 0), "the next version in each part");
}

static std::string digits(const std::string &name, size_t n, int32_t &value) {
  std::string t = text(name, n);
  value = 0;
  for (size_t i = 0; i < n; ++i) {
    sx_assume((unsigned)(t[i] - '0') < 10);
    value = value * 10 + (t[i] - '0');
  }
  return t;
}
SX_CASE(parse) {
  // every part with every digit sequence of the given size
  int32_t m, n, b;
  std::string t = digits("major", 1 + sx_choose("majorsize", 3), m) + "." + digits("minor", 1 + sx_choose("minorsize", 2), n) + "." + digits("bugfix", 1 + sx_choose("bugfixsize", 2), b);
  std::string l = text("label", sx_choose("labelsize", 3)), u = text("build", sx_choose("buildsize", 3));
  for (char c : l) sx_assume(c != '+');
  if (!l.empty()) t += "-" + l;
  if (!u.empty()) t += "+" + u;
  V v(t), w(m, n, b, l, u);
  sx_assert(v == w, "a version text has exactly the written parts");
  sx_assert(!(v != w) && !(v < w) && !(w < v), "comparison of a parsed version");
  bool zero = ((m == 0) & (n == 0) & (b == 0)) && l.empty() && u.empty();
  sx_assert(v.isValid() == !zero, "valid unless nothing is given");
  V x;
  x = t;
  sx_assert(x == v, "assigning a text is parsing it");
  sx_assert(v == t && !(v != t) && !(v < t), "comparing with a text is comparing with the parsed text");
  if (zero) sx_reach("zero");
}
SX_CASE(print) {
  // the printed text of a version gives the version
  static const char *kLabels[] = {"", "alpha", "rc.1", "a-b"}, *kBuilds[] = {"", "001", "1.2"};
  int32_t x, n[3] = {1, 20, 300};
  digits("number", 1 + sx_choose("size", 2), x);
  n[sx_choose("part", 3)] = x;
  std::string l = kLabels[sx_choose("label", 4)], u = kBuilds[sx_choose("build", 3)];
  V v(n[0], n[1], n[2], l, u);
  V w(v.toString());
  sx_assert(v == w, "printing and parsing a version gives an equal version");
  sx_assert(w.toString() == v.toString(), "equal versions print the same text");
}
SX_CASE(any_text) {
  std::string t = text("text", sx_choose("size", 6));
  V v(t), w(t);
  sx_assert(v == w, "parsing is deterministic");
  sx_assert(!(v < w), "a version does not precede itself");
  if (t.empty()) sx_assert(!v.isValid(), "an empty text is no version");
}

// ---------------------------------------------------------------- module sets
SX_CASE(modules) {
  Repository r("test");
  const unsigned N = 3;
  std::string names[N], versions[N] = {"1.0.0", "1.0.1", "2.0.0"};
  for (unsigned i = 0; i < N; ++i) {
    names[i] = text("name" + std::to_string(i), sx_choose(("size" + std::to_string(i)).c_str(), 2) + 1);
    r.addModule(Module(names[i], versions[i], "source"));
  }
  std::string q = text("query", sx_choose("querysize", 2) + 1);
  int first = -1;
  for (unsigned i = N; i-- > 0;)
    if (names[i] == q) first = (int)i;
  Module m;
  bool found = r.getModule(q, m);
  sx_assert(found == (first >= 0), "a module is found when it was added");
  sx_assert(r.contains(Module(q, "", "")) == found, "contains agrees with the lookup");
  if (found) {
    sx_assert(m.mShortName == q && m.mVersion == V(versions[first]), "the first module added under a name is kept");
    sx_assert(m.isValid(), "a module with a version is valid");
    sx_reach("found");
  }
}
