// Interface between harnesses and the checker.  The same harness is linked
// against rt.cpp (symbolic) or replay.cpp (plain build, concrete inputs).
#pragma once
#include <stddef.h>
#include <stdint.h>

extern "C" {
uint8_t sx_u8(const char *name);
uint16_t sx_u16(const char *name);
uint32_t sx_u32(const char *name);
uint64_t sx_u64(const char *name);
int16_t sx_i16(const char *name);
int32_t sx_i32(const char *name);
int64_t sx_i64(const char *name);
bool sx_bool(const char *name);
float sx_f32(const char *name);
double sx_f64(const char *name);
void sx_bytes(void *buf, size_t n, const char *name);
// structural choice: every value in [0,n) is explored
unsigned sx_choose(const char *name, unsigned n);
void sx_assume(bool cond);
void sx_assert(bool cond, const char *msg);
void sx_assert_eq(uint64_t a, uint64_t b, const char *msg);
[[noreturn]] void sx_fail(const char *msg);
void sx_reach(const char *label);
void sx_observe(uint64_t v);
void sx_observe_str(const char *p, size_t n);
[[noreturn]] void sx_done(void);
int sx_symbolic(void);
uint64_t sx_pinned_u64(uint64_t v);
void sx_register_case(const char *name, void (*setup)(), void (*path)());
}

struct SxCaseReg {
  SxCaseReg(const char *n, void (*s)(), void (*p)()) { sx_register_case(n, s, p); }
};
// SX_CASE(name) { body executed once per path }
#define SX_CASE(name)                                                                                                  \
  static void sxcase_##name();                                                                                         \
  static SxCaseReg sxreg_##name(#name, nullptr, sxcase_##name);                                                        \
  static void sxcase_##name()
#define SX_CASE_SETUP(name, setup)                                                                                     \
  static void sxcase_##name();                                                                                         \
  static SxCaseReg sxreg_##name(#name, setup, sxcase_##name);                                                          \
  static void sxcase_##name()
