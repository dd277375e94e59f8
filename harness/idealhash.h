// cn_fast_hash as an ideal collision-free function: equal inputs have equal digests, different inputs different ones.
// Digest = 8 symbolic bytes + 24 fixed bytes.
#pragma once
#include "sym.h"
#include <vector>
#include <cstring>
struct IdealHashCall { std::vector<uint8_t> d; uint64_t h; };
static std::vector<IdealHashCall> &idealHashCalls() { static std::vector<IdealHashCall> v; return v; }
struct IdealForce { bool on = false; uint32_t v = 0; }; static IdealForce gIdealForce;
static void idealHashForce(uint32_t first4) { gIdealForce.on = true; gIdealForce.v = first4; } // the next new digest starts with these bytes
extern "C" void cn_fast_hash(const void *data, size_t n, char *out) {
  const uint8_t *p = (const uint8_t *)data; uint64_t h = sym_u64("digest"); auto &T = idealHashCalls(); if (gIdealForce.on) { h = (h >> 32 << 32) | gIdealForce.v; gIdealForce.on = false; }
  for (auto &c : T) {
    if (c.d.size() != n) { sym_assume(h != c.h); continue; }
    uint64_t diff = 0; for (size_t i = 0; i < n; i++) diff |= (uint64_t)(p[i] ^ c.d[i]);
    if (!sym_is_symbolic(diff) && diff == 0) { h = c.h; memcpy(out, &h, 8); memset(out + 8, 0x5c, 24); return; }
    sym_assume(((diff == 0) & (h == c.h)) | ((diff != 0) & (h != c.h)));
  }
  IdealHashCall c; c.d.assign(p, p + n); c.h = h; T.push_back(c);
  memcpy(out, &h, 8); memset(out + 8, 0x5c, 24);
}
