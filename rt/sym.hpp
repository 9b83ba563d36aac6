// Interface between the harnesses and the symbolic executor (engine/) or the
// native replay runtime (rt/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_make(void* p, size_t n, const char* name);  // n fresh symbolic bytes
void sym_assume(int c);                              // restrict the inputs explored
void sym_assert_(int c, const char* msg);            // the property
void sym_reach(const char* label);                   // vacuity witness
void sym_observe(const char* label, uint64_t v);     // compared between engine and native replay
uint64_t sym_pick(uint64_t v);                       // enumerate the values of v by forking
void sym_exit_ok(int ok);                            // exit() is an allowed outcome
int sym_co_create(void (*fn)(void*), void* arg);      // a coroutine; fn must never return (harness/co.hpp)
void sym_co_switch(int id);                          // 0 is the main flow
int sym_native();                                    // 0 in the engine, 1 in native replay
// one file, in a scratch directory: set up, absent, and read back
void sym_file_put(const char* name, const void* p, size_t n);
void sym_file_none(const char* name);
long sym_file_get(const char* name, void* p, size_t cap);
void sym_main();
}
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c, msg) sym_assert_(!!(c), msg)
static inline uint8_t sym_u8(const char* n) { uint8_t v; sym_make(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char* n) { uint16_t v; sym_make(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char* n) { uint32_t v; sym_make(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char* n) { uint64_t v; sym_make(&v, 8, n); return v; }
// a value in [lo, hi], enumerated by forking (sizes, counts, choices)
static inline unsigned sym_choose(unsigned lo, unsigned hi, const char* n) {
  if (lo == hi) return lo;
  uint8_t v; sym_make(&v, 1, n);
  sym_assume(v >= lo && v <= hi);
  return (unsigned)sym_pick(v);
}
// a value in [lo, hi], left symbolic
static inline unsigned sym_range(unsigned lo, unsigned hi, const char* n) {
  uint8_t v; sym_make(&v, 1, n);
  sym_assume(v >= lo && v <= hi);
  return v;
}
