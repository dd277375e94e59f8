// The real mul128 / div128_32 against 128-bit arithmetic (justifies the summaries in shadow/intutil).
#include "sym.h"
#include "Common/int-util.h"
typedef unsigned __int128 u128;
extern "C" void lemma_mul128() {
  uint64_t a = sym_u64("a"), b = sym_u64("b"), hi = 0, lo = mul128(a, b, &hi);
  u128 p = (u128)a * b;
  sym_assert(lo == (uint64_t)p, "mul128 low word"); sym_assert(hi == (uint64_t)(p >> 64), "mul128 high word");
}
extern "C" void lemma_div128() {
  uint64_t h = sym_u64("hi"), l = sym_u64("lo"); uint32_t d = sym_u32("d"); sym_assume(d != 0);
  uint64_t qh = 0, ql = 0; uint32_t r = div128_32(h, l, d, &qh, &ql);
  u128 n = ((u128)h << 64) | l, q = ((u128)qh << 64) | ql;
  sym_assert(r < d, "div128_32 remainder below divisor");
  sym_assert(q * d + r == n, "div128_32 quotient*divisor + remainder == dividend");
  sym_assert(n / d == q, "div128_32 quotient");
}
