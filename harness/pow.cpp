// Proof-of-work target check and difficulty retargeting.
#include "sym.h"
#include <algorithm>
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/Difficulty.h"
#include "CryptoNoteCore/CryptoNoteBasic.h"
#include "Logging/ILogger.h"
using namespace cn;
typedef unsigned __int128 u128;
static logging::ILogger &LG() { return *reinterpret_cast<logging::ILogger *>(&LG); }
struct Cur { CurrencyBuilder b; Cur(bool testnet = false) : b(LG()) { if (testnet) b.testnet(true); } Currency &c() { return b.m_currency; } };
extern "C" void check_target() { // hash, read as a little-endian 256-bit number, times difficulty must not reach 2^256
  uint64_t w[4], d = sym_u64("difficulty"); for (int i = 0; i < 4; i++) w[i] = sym_u64("hash word"); crypto::Hash h; memcpy(&h, w, 32);
  bool ok = check_hash(h, d); u128 acc = 0; for (int i = 0; i < 4; i++) { u128 p = (u128)w[i] * d; u128 lo = (u128)(uint64_t)p + (uint64_t)acc; acc = (p >> 64) + (acc >> 64) + (lo >> 64); }
  sym_assert(ok == (acc == 0), "a hash is good exactly when hash times difficulty is below 2^256"); if (ok) sym_cover("good"); else sym_cover("bad");
}
extern "C" void check_target_vals() { // one non-zero word at a time, concrete difficulties: native validation and easy reading
  unsigned i = (unsigned)sym_choice(4, "word"); static const uint64_t D[4] = {1, 3, 7200000, ~0ULL}; uint64_t d = D[sym_choice(4, "d")]; uint64_t w[4] = {0, 0, 0, 0}; w[i] = sym_u64("hash word"); crypto::Hash h; memcpy(&h, w, 32);
  bool ok = check_hash(h, d); sym_observe("ok", ok); sym_assert(ok == (i < 3 || w[3] <= ~0ULL / d), "limit"); if (ok) sym_cover("good"); else sym_cover("bad");
}
// ---- retargeting ----
static std::vector<uint64_t> stamps(unsigned n, unsigned pat) {
  std::vector<uint64_t> t(n); uint64_t x = 1600000000; for (unsigned i = 0; i < n; i++) { switch (pat) { case 0: x += 120; break; case 1: x += i % 3 ? 7 : 300; break; case 2: x = x; break; case 3: x -= 13; break; case 4: x += i % 5 == 4 ? 4000 : 60; break; default: x += (i * 37) % 241; if (i % 7 == 3) x -= 400; } t[i] = x; } return t; }
static uint64_t refLwma1(const std::vector<uint64_t> &ts, uint64_t avg) {
  const uint64_t N = 60, T = 120; uint64_t L = 0, prev = ts[0] - T; for (unsigned i = 1; i <= N; i++) { uint64_t cur = sym_ite(ts[i] > prev, ts[i], prev + 1), st = cur - prev; st = sym_ite(st < 6 * T, st, 6 * T); L += i * st; prev = cur; }
  L = sym_ite(L < N * N * T / 20, N * N * T / 20, L); uint64_t d = avg > 2000000 * N * N * T ? (avg / (200 * L)) * (N * (N + 1) * T * 99) : (avg * N * (N + 1) * T * 99) / (200 * L);
  for (uint64_t u = 1000000000; u > 1; u /= 10) if (d > 100 * u) return (d + u / 2) / u * u; return d; }
extern "C" void lwma1_work() {
  bool tn = sym_choice(2, "testnet"); Cur k(tn); const Currency &c = k.c(); std::vector<uint64_t> ts = stamps(61, (unsigned)sym_choice(6, "pattern")), cd(61); for (auto &x : cd) x = 17; uint64_t lim = sym_choice(2, "large") ? 0 : 400000000000ULL; cd[0] = sym_ubits(50, "first"); cd[60] = sym_u64("last"); cd[30] = sym_u64("middle"); sym_assume(cd[60] >= cd[0]);
  uint64_t avg = (cd[60] - cd[0]) / 60; if (lim) sym_assume(avg <= lim); else sym_assume(avg > 2000000ULL * 60 * 60 * 120 && avg < (1ULL << 50)); uint64_t r = c.nextDifficultyLWMA1(ts, cd, 700000); sym_observe("d", r); sym_assert(r == refLwma1(ts, avg), "LWMA-1 retarget"); sym_cover(lim ? "normal" : "large");
}
extern "C" void lwma1_time() {
  Cur k; const Currency &c = k.c(); std::vector<uint64_t> ts = stamps(61, (unsigned)sym_choice(6, "pattern")), cd(61, 5); static const unsigned P[8] = {1, 60, 2, 30, 59, 0, 17, 44}; unsigned p = P[sym_choice(NPOS, "at")]; ts[p] = ts[p] - 1500 + sym_ubits(12, "shift"); static const uint64_t A[3] = {1000, 7200000, 30000000000ULL}; uint64_t avg = A[sym_choice(3, "avg")]; cd[60] = cd[0] + 60 * avg + 59;
  uint64_t r = c.nextDifficultyLWMA1(ts, cd, 661400); sym_observe("d", r); sym_assert(r == refLwma1(ts, avg), "LWMA-1 retarget, any time stamp"); sym_cover("time");
}
extern "C" void lwma1_fork() { bool tn = sym_choice(2, "testnet"); Cur k(tn); const Currency &c = k.c(); std::vector<uint64_t> ts = stamps(61, 0), cd(61, 1); cd[60] = 60 * 5000; uint64_t h = sym_ubits(32, "height"), f = tn ? 72 : 661300; uint64_t r = c.nextDifficultyLWMA1(ts, cd, h); sym_observe("d", r); sym_assert(r == (h >= f && h < f + 60 ? (tn ? 10 : 7200000) : refLwma1(ts, (cd[60] - cd[0]) / 60)), "fixed difficulty for 60 blocks after the fork only"); sym_cover("ok"); }
static uint64_t refLwma3(const std::vector<uint64_t> &ts, unsigned n, uint64_t work, uint64_t prev) {
  const uint64_t T = 120; uint64_t N = n < 61 ? n - 1 : 60, L = 0, s3 = 0, pt = ts[0]; for (unsigned i = 1; i <= N; i++) { uint64_t cur = sym_ite(ts[i] > pt, ts[i], pt + 1), st = cur - pt; st = sym_ite(st < 6 * T, st, 6 * T); pt = cur; L += i * st; if (i + 3 > N) s3 += st; }
  uint64_t d = (work * T * (N + 1) * 99) / (100 * 2 * L), lo = prev * 67 / 100, hi = prev * 150 / 100; d = sym_ite(d < hi, d, hi); d = sym_ite(d > lo, d, lo); uint64_t j = prev * 108 / 100; if (s3 < 96) d = sym_ite(j > d, j, d); return d; }
extern "C" void lwma3_work() {
  Cur k; const Currency &c = k.c(); static const unsigned NS[6] = {61, 12, 11, 10, 60, 3}; unsigned n = NS[sym_choice(6, "n")]; std::vector<uint64_t> ts = stamps(n, (unsigned)sym_choice(6, "pattern")), cd(n, 3); uint64_t a = sym_ubits(44, "first"), b = sym_ubits(44, "before last"), e = sym_ubits(44, "last"); sym_assume(a <= b && b <= e); cd[0] = a; cd[n - 2] = b; cd[n - 1] = e; 
  uint64_t r = c.nextDifficultyLWMA3(ts, cd); sym_observe("d", r); if (n <= 10) { sym_assert(r == 100, "start-up difficulty"); sym_cover("short"); return; } sym_assert(r == refLwma3(ts, n, e - a, e - b), "LWMA-3 retarget"); sym_cover("work");
}
extern "C" void lwma3_time() {
  Cur k; const Currency &c = k.c(); static const unsigned NS[2] = {61, 12}; unsigned n = NS[sym_choice(2, "n")]; std::vector<uint64_t> ts = stamps(n, (unsigned)sym_choice(6, "pattern")), cd(n, 3); unsigned p[4] = {n - 1, 1, n - 3, n / 2}, q = p[sym_choice(NPOS > 4 ? 4 : 2, "at")]; ts[q] = ts[q] - 1500 + sym_ubits(12, "shift"); static const uint64_t W[2][2] = {{60000, 1000}, {60ULL * 7200000, 9000000}}; unsigned w = (unsigned)sym_choice(2, "work"); cd[n - 1] = cd[0] + W[w][0]; cd[n - 2] = cd[n - 1] - W[w][1];
  uint64_t r = c.nextDifficultyLWMA3(ts, cd); sym_observe("d", r); sym_assert(r == refLwma3(ts, n, W[w][0], W[w][1]), "LWMA-3 retarget, any time stamp"); sym_cover("time");
}
extern "C" void legacy() { // original rule: sorted time stamps, work over time span, rounded up
  Cur k; const Currency &c = k.c(); unsigned n = (unsigned)sym_choice(LEGN + 1, "n"), form = (unsigned)sym_choice(2, "form"); std::vector<uint64_t> ts(n), cd(n); for (unsigned i = 0; i < n; i++) { ts[i] = sym_u32("time"); cd[i] = i == 0 || i + 1 == n ? sym_ubits(56, "work") : 5; } if (n > 1 && sym_choice(2, "huge work")) { cd[0] = 3; cd[n - 1] = 3 + (~0ULL / 120 - 3) + sym_ubits(3, "huge"); ts[0] = 1000; for (unsigned i = 1; i < n; i++) ts[i] = 1000 + sym_ubits(7, "time"); } if (n > 1) sym_assume(cd[n - 1] > cd[0]);
  uint32_t idx = 0; uint8_t ver = 0; if (form) { ver = (uint8_t)(1 + sym_choice(2, "version")); static const uint32_t I[4] = {5, 12749, 12750, 13500}; idx = I[sym_choice(4, "index")]; } uint64_t r = form ? c.nextDifficulty(ver, idx, ts, cd) : c.nextDifficulty(ts, cd); sym_observe("d", r);
  if (form && idx >= 12750 && idx < 13500) { sym_assert(r == 2160, "fixed difficulty of heights 12750 to 13499"); sym_cover("fixed"); return; } if (n <= 1) { sym_assert(r == 1, "start"); return; }
  uint64_t mn = ts[0], mx = ts[0]; for (unsigned i = 1; i < n; i++) { if (ts[i] < mn) mn = ts[i]; if (ts[i] > mx) mx = ts[i]; } uint64_t span = mx - mn; if (!span) span = 1; u128 lw = (u128)(cd[n - 1] - cd[0]) * 120; 
  if ((uint64_t)(lw >> 64) || (uint64_t)lw > ~0ULL - (span - 1)) { sym_assert(r == 0, "overflow reports zero"); sym_cover("overflow"); return; } sym_assert(r == ((uint64_t)lw + (ver < 2 ? span - 1 : 0)) / span, "work over time span, rounded up (down from version 2)"); sym_cover("rule");
}
extern "C" void legacy_cut() { // windows so long that the outermost stamps are cut
  Cur k; const Currency &c = k.c(); static const unsigned NS[5] = {600, 601, 602, 719, 722}; unsigned n = NS[sym_choice(5, "n")], form = (unsigned)sym_choice(2, "form"); std::vector<uint64_t> ts(n), cd(n); for (unsigned i = 0; i < n; i++) { ts[i] = 1000 + 50 * i + i * i; cd[i] = i ? 1000 * i : 0; }
  unsigned m = n > 720 ? 720 : n, b = m <= 600 ? 0 : (m - 600 + 1) / 2, e = m <= 600 ? m : b + 600; uint64_t wb = sym_ubits(40, "work first"), we = sym_ubits(50, "work last"); sym_assume(we > wb); cd[b] = wb; cd[e - 1] = we; if (sym_choice(2, "shuffled")) { std::swap(ts[3], ts[n > 720 ? 700 : n - 4]); std::swap(ts[0], ts[b]); }
  uint64_t r = form ? c.nextDifficulty(2, 20000, ts, cd) : c.nextDifficulty(ts, cd); sym_observe("d", r); uint64_t span = (1000 + 50 * (e - 1) + (uint64_t)(e - 1) * (e - 1)) - (1000 + 50 * b + (uint64_t)b * b); sym_assert(r == ((we - wb) * 120 + (form ? 0 : span - 1)) / span, "the 60 outermost stamps on each side are cut"); sym_cover("cut");
}
