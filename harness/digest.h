// Ideal collision-free cn_fast_hash with concrete digests.
#pragma once
#include "sym.h"
#include <vector>
#include <cstring>
static bool same(const void *a, const void *b, size_t n) { uint8_t acc = 0; for (size_t i = 0; i < n; i++) acc |= ((const uint8_t *)a)[i] ^ ((const uint8_t *)b)[i]; return acc == 0; }
// ideal hash with concrete digests: different contents, different digests
struct HashedBlob { std::vector<uint8_t> d; };
static std::vector<HashedBlob> &hashed() { static std::vector<HashedBlob> v; return v; }
extern "C" void cn_fast_hash(const void *data, size_t n, char *out) {
  const uint8_t *p = (const uint8_t *)data; auto &T = hashed(); size_t at = T.size();
  for (size_t k = 0; k < T.size(); k++) { auto &c = T[k]; if (c.d.size() != n) continue; bool apart = false; for (size_t i = 0; i < n && !apart; i++) { uint8_t x = p[i] ^ c.d[i]; if (!sym_is_symbolic(x) && x) apart = true; } if (apart) continue;
    uint8_t diff = 0; for (size_t i = 0; i < n; i++) diff |= p[i] ^ c.d[i]; if (diff == 0) { at = k; break; } }
  if (at == T.size()) { HashedBlob c; c.d.assign(p, p + n); T.push_back(c); }
  memset(out, 0x5c, 32); uint32_t v = (uint32_t)at + 1; memcpy(out, &v, 4); out[31] = (char)v;
}
