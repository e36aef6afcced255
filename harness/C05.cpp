// C05: structured control flow.
#include "prog.h"
using namespace P;

// the constructs that can enclose something; every body reports that it was
// entered, and the statement after the inner part reports as well
static S construct(int kind, int id, Block inner) {
  Block body = {emit(L(id))};
  for (auto &s : inner) body.push_back(s);
  body.push_back(emit(100 + id));
  switch (kind) {
  case 0: return loop(WHILE, id, Par(2), body);
  case 1: return loop(FOR, id, Par(2), body);
  case 2: return loop(FOREACH, id, Par(2), body);
  case 3: { // switch on a
    Block c0 = body, c1 = {emit(200 + id), bump(id), CONTINUE}, d = body;
    c0.push_back(BREAK);
    d.push_back(BREAK);
    return sw(id, Par(0), {0, 1}, {c0, c1, d}, true);
  }
  case 4: {
    body.erase(body.begin());
    return iff({Par(1), '<', Par(0)}, body, {emit(300 + id)});
  }
  default: {
    body.erase(body.begin());
    return scope(body);
  }
  }
}
static bool isLoop(int k) { return k < 3; }
static bool jumpable(int k) { return k < 4; }

// statement that jumps when the iteration number (or a) equals b
static std::vector<Block> jumps(int id, bool inLoop, bool inJumpable, bool inSwitch) {
  std::vector<Block> out;
  X at = inLoop ? L(id) : Par(0);
  C c{at, '=', Par(1)};
  if (inJumpable) out.push_back({iff(c, {BREAK})});
  if (inJumpable && !inSwitch) out.push_back({iff(c, {CONTINUE})});
  out.push_back({iff(c, {ret(at)})});
  out.push_back({iff(c, {emit(7)}, {emit(8)})});
  return out;
}
static void one() {
  for (int o = 0; o < 6; ++o)
    for (auto &j : jumps(1, isLoop(o), jumpable(o), o == 3)) add({construct(o, 1, j), emit(1)});
  loadAll();
}
static void two() {
  for (int o = 0; o < 6; ++o)
    for (int i = 0; i < 6; ++i) {
      bool loopy = isLoop(i) || isLoop(o), jumpy = jumpable(i) || jumpable(o);
      int id = isLoop(i) ? 2 : isLoop(o) ? 1 : 2;
      bool sws = jumpable(i) ? i == 3 : o == 3;
      for (auto &j : jumps(id, loopy, jumpy, sws)) add({construct(o, 1, {construct(i, 2, j)}), emit(1)});
    }
  loadAll();
}
// the jump sits in the outer construct, after the inner one
static void after() {
  for (int o = 0; o < 4; ++o)
    for (int i = 0; i < 6; ++i)
      for (auto &j : jumps(1, isLoop(o), true, o == 3)) {
        Block in = {construct(i, 2, {})};
        for (auto &s : j) in.push_back(s);
        in.push_back(emit(50));
        add({construct(o, 1, in), emit(1)});
      }
  loadAll();
}
static void three() {
  for (int o = 0; o < 5; ++o)
    for (int m = 0; m < 5; ++m)
      for (int i = 0; i < 5; ++i) {
        int ks[] = {o, m, i};
        bool loopy = false, jumpy = false, sws = false;
        int id = 3;
        for (int d = 0; d < 3; ++d) {
          if (isLoop(ks[d])) loopy = true, id = d + 1;
          if (jumpable(ks[d])) jumpy = true, sws = ks[d] == 3;
        }
        for (auto &j : jumps(id, loopy, jumpy, sws)) add({construct(o, 1, {construct(m, 2, {construct(i, 3, j)})}), emit(1)});
      }
  loadAll();
}
static void ifs() {
  // chains of conditions and switch labels
  for (int k = 0; k < 4; ++k) {
    C c1{Par(0), '<', Par(1)}, c2{Par(0), '=', K(k)}, c3{Par(1), '<', K(10 * k)};
    add({iff(c1, {emit(1), iff(c2, {emit(2)}, {emit(3)})}, {iff(c3, {emit(4)}), emit(5)}), emit(6)});
    add({iff(c1, {iff(c2, {ret(Par(0))})}, {iff(c3, {ret(Par(1))}, {emit(4)})}), emit(6)});
    add({iff(c1, {emit(1)}), iff(c2, {emit(2)}), iff(c3, {emit(3)}, {emit(4)})});
    std::vector<int> labels;
    std::vector<Block> bl;
    for (int l = 0; l < 3; ++l) {
      labels.push_back(k * l - 1);
      bl.push_back({emit(10 + l), S(BREAK)});
    }
    add({sw(1, Par(0), labels, bl, false), emit(1)});
    bl.push_back({emit(20), S(BREAK)});
    add({sw(1, Par(0), labels, bl, true), emit(1)});
    bl[1] = {emit(30), ret(Par(1))};
    add({sw(1, Par(0), labels, bl, true), emit(1)});
  }
  loadAll();
}
SX_CASE_SETUP(single, one) { run(3); }
SX_CASE_SETUP(nested, two) { run(2); }
SX_CASE_SETUP(jump_after_inner, after) { run(2); }
SX_CASE_SETUP(conditions, ifs) { run(0); }
SX_CASE_SETUP(three_levels, three) { run(2); }
