// Native replay of a harness: sym_* values come from a file of "width hexvalue" lines.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>
static std::vector<std::pair<unsigned, unsigned long long>> vals; static size_t pos; static bool loaded;
static void load() { if (loaded) return; loaded = true; const char *fn = getenv("SYM_REPLAY"); FILE *f = fn ? fopen(fn, "r") : nullptr; if (!f) { fprintf(stderr, "SYM_REPLAY missing\n"); _exit(90); } unsigned w; unsigned long long v; while (fscanf(f, "%u %llx", &w, &v) == 2) vals.push_back({w, v}); fclose(f); }
static uint64_t next(unsigned w, const char *n) { load(); if (pos >= vals.size()) { fprintf(stderr, "REPLAY-DIVERGED: more inputs requested (%s)\n", n); fflush(stdout); _exit(91); } if (vals[pos].first != w) { fprintf(stderr, "REPLAY-DIVERGED: width of %s: %u, recorded %u\n", n, w, vals[pos].first); fflush(stdout); _exit(91); } return vals[pos++].second; }
extern "C" {
uint8_t sym_u8(const char *n) { return next(8, n); }
uint16_t sym_u16(const char *n) { return next(16, n); }
uint32_t sym_u32(const char *n) { return next(32, n); }
uint64_t sym_u64(const char *n) { return next(64, n); }
uint64_t sym_ubits(unsigned w, const char *n) { return next(w, n); }
bool sym_bool(const char *n) { return next(1, n); }
void sym_bytes(void *p, size_t k, const char *n) { for (size_t i = 0; i < k; i++) ((uint8_t *)p)[i] = next(8, n); }
uint64_t sym_choice(uint64_t n, const char *nm) { return next(32, nm); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(92); } }
void sym_assert(bool c, const char *m) { if (!c) { printf("REPLAY-VIOLATION assert: %s\n", m); fflush(stdout); _exit(93); } }
void sym_fail(const char *m) { printf("REPLAY-VIOLATION assert: %s\n", m); fflush(stdout); _exit(93); }
void sym_cover(const char *l) {}
void sym_observe(const char *l, uint64_t v) { printf("OBS %s %llu\n", l, (unsigned long long)v); }
void sym_stop() { printf("REPLAY-END stop\n"); fflush(stdout); _exit(0); }
void sym_print(const char *l, uint64_t v) { fprintf(stderr, "PRINT %s = %llu\n", l, (unsigned long long)v); }
bool sym_is_symbolic(uint64_t) { return false; }
uint64_t sym_max(uint64_t v) { return v; }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void ENTRY();
}
static void onTerm() { printf("REPLAY-VIOLATION abort: terminate\n"); fflush(stdout); _exit(93); }
int main() {
  std::set_terminate(onTerm);
  try { ENTRY(); } catch (std::exception &e) { printf("REPLAY-VIOLATION exception: uncaught %s\n", e.what()); fflush(stdout); _exit(93); } catch (...) { printf("REPLAY-VIOLATION exception: uncaught\n"); fflush(stdout); _exit(93); }
  printf("REPLAY-END return\n"); fflush(stdout); _exit(0);
}
