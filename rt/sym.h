// Harness interface. In the symbolic executor these are primitives; in a native replay they read the counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
uint64_t sym_ubits(unsigned bits, const char *name);   // bits-wide unsigned value, zero-extended
bool sym_bool(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
uint64_t sym_choice(uint64_t n, const char *name);   // forks: concrete value in [0,n)
uint64_t sym_concretize(uint64_t v);                 // forks over all feasible values
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
[[noreturn]] void sym_fail(const char *msg);
void sym_cover(const char *label);
void sym_observe(const char *label, uint64_t v);     // compared between the engine and native replays
[[noreturn]] void sym_stop();
void sym_print(const char *label, uint64_t v);
bool sym_is_symbolic(uint64_t v);
uint64_t sym_max(uint64_t v);
uint64_t sym_ite(bool c, uint64_t a, uint64_t b);     // no fork
}
static inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char *n) { uint64_t v = sym_ubits(hi ? 64 - __builtin_clzll(hi) : 1, n); sym_assume(v >= lo && v <= hi); return v; }
