// Concrete counterpart of rt.cpp: runs one case of a harness, built without
// instrumentation, with the inputs read from a file.
//   <binary> CASE INPUTFILE     input file: lines "name value"
// exit status: 0 path finished, 42 assertion failed, 43 assumption not met
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>

static std::map<std::string, uint64_t> gIn;
static uint64_t gObserve = 0xcbf29ce484222325ull;
struct Case {
  const char *name;
  void (*setup)();
  void (*path)();
};
static std::vector<Case> &cases() {
  static auto *v = new std::vector<Case>();
  return *v;
}
static uint64_t get(const std::string &n, uint64_t def = 0) {
  auto it = gIn.find(n);
  return it == gIn.end() ? def : it->second;
}
static void done(int code) {
  fflush(stdout);
  fprintf(stderr, "OBSERVE %llu\n", (unsigned long long)gObserve);
  fflush(stderr);
  _exit(code);
}
extern "C" {
uint8_t sx_u8(const char *n) { return get(n); }
uint16_t sx_u16(const char *n) { return get(n); }
uint32_t sx_u32(const char *n) { return get(n); }
uint64_t sx_u64(const char *n) { return get(n); }
int16_t sx_i16(const char *n) { return get(n); }
int32_t sx_i32(const char *n) { return get(n); }
int64_t sx_i64(const char *n) { return get(n); }
bool sx_bool(const char *n) { return get(n) & 1; }
float sx_f32(const char *n) {
  uint32_t v = get(n);
  float f;
  memcpy(&f, &v, 4);
  return f;
}
double sx_f64(const char *n) {
  uint64_t v = get(n);
  double f;
  memcpy(&f, &v, 8);
  return f;
}
void sx_bytes(void *b, size_t n, const char *name) {
  for (size_t i = 0; i < n; ++i) ((uint8_t *)b)[i] = get(std::string(name) + "[" + std::to_string(i) + "]", 'a');
}
unsigned sx_choose(const char *n, unsigned k) {
  uint64_t v = get(n);
  if (v >= k) done(43);
  return v;
}
void sx_assume(bool c) {
  if (!c) done(43);
}
void sx_assert(bool c, const char *msg) {
  if (!c) sx_fail(msg);
}
void sx_assert_eq(uint64_t a, uint64_t b, const char *msg) {
  if (a != b) sx_fail(msg);
}
void sx_fail(const char *msg) {
  fprintf(stderr, "ASSERTION FAILED: %s\n", msg);
  done(42);
  abort();
}
void sx_reach(const char *) {}
void sx_observe(uint64_t v) { gObserve = (gObserve ^ v) * 0x100000001b3ull; }
void sx_observe_str(const char *p, size_t n) {
  for (size_t i = 0; i < n; ++i) sx_observe((uint8_t)p[i]);
  sx_observe(n);
}
void sx_done(void) {
  done(0);
  abort();
}
int sx_symbolic(void) { return 0; }
uint64_t sx_pinned_u64(uint64_t v) { return v; }
void sx_register_case(const char *name, void (*setup)(), void (*path)()) { cases().push_back({name, setup, path}); }
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[2], "r");
  if (!f) return 2;
  char nm[256];
  unsigned long long v;
  while (fscanf(f, "%255s %llu", nm, &v) == 2) gIn[nm] = v;
  fclose(f);
  for (auto &c : cases())
    if (!strcmp(c.name, argv[1])) {
      if (c.setup) c.setup();
      c.path();
      done(0);
    }
  fprintf(stderr, "no case %s\n", argv[1]);
  return 2;
}
