#ifndef VH_H
#define VH_H
// Harness interface.  The same harness source is (1) compiled to LLVM bitcode, linked with /repo's code and
// decided by the symbolic executor engine/sx, and (2) compiled natively with /repo's code to replay inputs.
#include <stdint.h>
#include <stddef.h>
#include <iosfwd>
#include <ostream>
extern "C" {
uint8_t  vh_u8(void);      // an arbitrary value
uint16_t vh_u16(void);
uint32_t vh_u32(void);
uint64_t vh_u64(void);
uint8_t  vh_below8(uint32_t n);        // an arbitrary value of 0..n-1 (n <= 256), the bound known to the simplifier
uint32_t vh_choose(uint32_t n);        // an arbitrary value of 0..n-1, explored case by case
uint64_t vh_concrete64(uint64_t v);    // case split over the feasible values of v
void vh_assume(bool);
void vh_assert(bool, const char *what);
void vh_reach(const char *what);   // must be reachable (vacuity witness)
int  vh_solver(void);              // 1 under the solver, 0 in native replay
uint32_t vh_ite32(bool c, uint32_t a, uint32_t b);   // c ? a : b without splitting paths
std::ostream *vh_os(void);         // a stream whose output is captured
uint64_t vh_os_size(void);
uint8_t  vh_os_at(uint64_t i);
void     vh_os_reset(void);
}
#define VH_ASSUME(c) vh_assume(c)
#define VH_ASSERT(c, what) vh_assert((c), what)
#define VH_REACH(what) vh_reach(what)
#define H(name) extern "C" void H_##name(void)
static inline int32_t vh_range(int32_t lo, int32_t hi) { int32_t v = (int32_t)vh_u32(); vh_assume((uint32_t)v - (uint32_t)lo <= (uint32_t)hi - (uint32_t)lo); return v; }
static inline bool vh_bool() { return (vh_u8() & 1) != 0; }
static inline int vh_len(int lo, int hi) { return lo + (int)vh_choose((uint32_t)(hi - lo + 1)); }
// a NUL-terminated string of exactly n characters, none of them NUL
static inline void vh_str(char *d, int n) { for (int i = 0; i < n; i++) { uint8_t c = vh_u8(); vh_assume(c != 0); d[i] = (char)c; } d[n] = 0; }
static inline bool vh_eqn(const void *a, const void *b, int n) { const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b; uint32_t ne = 0; for (int i = 0; i < n; i++) ne |= (uint32_t)(x[i] ^ y[i]); return ne == 0; }
#endif
