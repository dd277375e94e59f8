// Per-height indexes of the chain: deposits, block ids, checkpoints, upgrade votes, generated transactions.
#include "sym.h"
#include <algorithm>
#include <set>
#include "CryptoNoteCore/DepositIndex.h"
#include "CryptoNoteCore/BlockIndex.h"
#include "CryptoNoteCore/Checkpoints.h"
#include "CryptoNoteCore/UpgradeDetector.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteSerialization.h"
#include "Serialization/SerializationOverloads.h"
#include "Logging/ILogger.h"
using namespace cn;
static logging::ILogger &LG() { return *reinterpret_cast<logging::ILogger *>(&LG); }
static bool same(const void *a, const void *b, size_t n) { uint8_t acc = 0; for (size_t i = 0; i < n; i++) acc |= ((const uint8_t *)a)[i] ^ ((const uint8_t *)b)[i]; return acc == 0; }
// ---- deposit index ----
namespace { struct DRef { std::vector<int64_t> a; std::vector<uint64_t> i; int64_t amt(size_t h) const { int64_t s = 0; for (size_t k = 0; k < a.size() && k <= h; k++) s += a[k]; return s; } uint64_t in(size_t h) const { uint64_t s = 0; for (size_t k = 0; k < i.size() && k <= h; k++) s += i[k]; return s; } }; }
static void dpush(DepositIndex &d, DRef &r) {
  int64_t a = (int64_t)sym_ubits(58, "amount") - (1LL << 57); uint64_t i = sym_ubits(58, "interest"); r.a.push_back(a); r.i.push_back(i); sym_assume(r.amt(r.a.size()) >= 0); d.pushBlock(a, i); }
static void dcheck(const DepositIndex &d, const DRef &r, bool any) {
  sym_assert(d.size() == r.a.size(), "one entry per block"); sym_assert(d.fullDepositAmount() == r.amt(r.a.size()), "locked total"); sym_assert(d.fullInterestAmount() == r.in(r.a.size()), "interest total");
  uint32_t h = any ? sym_u32("height") : (uint32_t)sym_choice(r.a.size() + 1, "height"); int64_t ea = 0; uint64_t ei = 0; for (size_t k = 0; k < r.a.size(); k++) { ea += (int64_t)sym_ite(k <= h, (uint64_t)r.a[k], 0); ei += sym_ite(k <= h, r.i[k], 0); }
  int64_t ga = d.depositAmountAtHeight(h); uint64_t gi = d.depositInterestAtHeight(h); sym_observe("amount", (uint64_t)ga); sym_observe("interest", gi); sym_assert(ga == ea, "locked amount at a height is the sum of all changes up to it"); sym_assert(gi == ei, "interest at a height is the sum of all interest up to it"); sym_cover("query"); }
extern "C" void deposit_history() {
  DepositIndex d; if (sym_choice(2, "reserve")) d.reserve(3); DRef r; unsigned n = (unsigned)sym_choice(DEPOPS + 1, "ops");
  for (unsigned k = 0; k < n; k++) switch (sym_choice(r.a.size() ? 3 : 1, "op")) {
    case 0: dpush(d, r); break;
    case 1: d.popBlock(); r.a.pop_back(); r.i.pop_back(); sym_cover("pop"); break;
    default: { uint32_t f = (uint32_t)sym_choice(r.a.size() + 2, "from"); size_t c = d.popBlocks(f), e = f < r.a.size() ? r.a.size() - f : 0; sym_assert(c == e, "number of popped blocks"); r.a.resize(r.a.size() - e); r.i.resize(r.i.size() - e); sym_cover("pop many"); } }
  dcheck(d, r, true); }
extern "C" void deposit_saved() { // the index survives being stored and loaded
  DepositIndex d; DRef r; unsigned n = (unsigned)sym_choice(4, "n"); for (unsigned k = 0; k < n; k++) { int64_t a = k == 1 ? 0 : (int64_t)sym_ubits(12, "amount"); uint64_t i = k == 1 && sym_choice(2, "none") ? 0 : sym_ubits(12, "interest"); r.a.push_back(a); r.i.push_back(i); d.pushBlock(a, i); }
  BinaryArray b = toBinaryArray(d); DepositIndex e; bool ok = fromBinaryArray(e, b); sym_assert(ok, "stored index can be loaded"); dcheck(e, r, false); if (n > 0) { e.popBlock(); r.a.pop_back(); r.i.pop_back(); dcheck(e, r, false); } sym_cover("loaded"); }
// ---- block ids ----
static crypto::Hash H(uint64_t head, const char *n) { crypto::Hash h; sym_bytes(&h, 32, n); memcpy(&h, &head, 8); return h; }
extern "C" void block_index() { // same and different bucket, equal and different ids
  BlockIndex x; std::vector<crypto::Hash> ref; unsigned n = (unsigned)sym_choice(BIN + 1, "n"); static const uint64_t heads[3] = {7, 7, 9};
  auto find = [&](const crypto::Hash &h) { int at = -1; for (size_t i = 0; i < ref.size(); i++) if (same(&ref[i], &h, 32)) at = (int)i; return at; };
  for (unsigned k = 0; k < n; k++) { if (k && sym_choice(4, "op") == 3) { if (ref.empty()) continue; x.pop(); ref.pop_back(); sym_cover("pop"); continue; } crypto::Hash h = H(heads[k % 3], "id"); bool isNew = find(h) < 0; bool r = x.push(h); sym_assert(r == isNew, "an id is added exactly when it is new"); if (isNew) ref.push_back(h); else sym_cover("duplicate"); }
  sym_assert(x.size() == ref.size(), "size"); for (size_t i = 0; i < ref.size(); i++) sym_assert(same(&ref[i], &(const crypto::Hash &)x.getBlockId((uint32_t)i), 32), "ids in order"); if (ref.size()) sym_assert(x.getTailId() == ref.back(), "tail id");
  crypto::Hash q = H(heads[sym_choice(2, "q") * 2], "query"); int at = find(q); uint32_t h = 77; bool f = x.getBlockHeight(q, h); sym_observe("found", f); sym_assert(f == (at >= 0) && x.hasBlock(q) == f, "present exactly when pushed and not popped"); if (f) { sym_assert(h == (uint32_t)at, "height of an id"); sym_cover("found"); } else sym_cover("absent");
  uint32_t s = sym_u32("start"), c = sym_u32("count"); std::vector<crypto::Hash> v = x.getBlockIds(s, c); size_t e = s >= ref.size() ? 0 : sym_ite(c < ref.size() - s, c, ref.size() - s); sym_assert(v.size() == e, "number of listed ids"); for (size_t i = 0; i < v.size(); i++) sym_assert(same(&v[i], &ref[sym_concretize(s) + i], 32), "listed ids");
}
extern "C" void sparse_chain() { // concrete ids, every length and start
  BlockIndex x; unsigned n = 1 + (unsigned)sym_choice(SPARSE, "n"); auto id = [](unsigned i) { crypto::Hash h; memset(&h, 0, 32); h.data[0] = (uint8_t)(i + 1); h.data[31] = (uint8_t)~i; return h; }; for (unsigned i = 0; i < n; i++) x.push(id(i)); unsigned s = (unsigned)sym_choice(n, "start");
  std::vector<crypto::Hash> v = x.buildSparseChain(id(s)), e; for (unsigned st = 1; st <= s + 1; st *= 2) e.push_back(id(s + 1 - st)); if (e.back() != id(0)) e.push_back(id(0)); sym_observe("n", v.size()); sym_assert(v == e, "sparse chain: the start, then distances doubling back, then the first block"); sym_cover("chain");
  std::vector<crypto::Hash> ids; unsigned k = (unsigned)sym_choice(4, "common"); unsigned m = 3; int first = -1; for (unsigned i = 0; i < m; i++) { bool known = k & (1u << i) || i == 2; unsigned hgt = known ? (s * (i + 1)) % n : 200 + i; ids.push_back(id(hgt)); if (known && first < 0) first = (int)hgt; } if (sym_choice(2, "unknown")) { ids.assign(1, id(201)); first = -1; } uint32_t off = 12345; bool f = x.findSupplement(ids, off); sym_assert(f == (first >= 0) && (!f || off == (uint32_t)first), "supplement starts at the first common block"); 
}
// ---- checkpoints ----
static std::vector<std::string> dnsRecords; static bool dnsOk;
namespace common { bool fetch_dns_txt(const std::string, std::vector<std::string> &r) { r = dnsRecords; return dnsOk; } }
static std::string hexOf(unsigned i) { std::string s(64, '0'); s[0] = (char)('1' + i); s[63] = (char)('a' + i); return s; }
static crypto::Hash hashOf(unsigned i) { crypto::Hash h; memset(&h, 0, 32); h.data[0] = (uint8_t)((i + 1) << 4); h.data[31] = (uint8_t)(10 + i); return h; }
extern "C" void checkpoint_rules() {
  Checkpoints c(LG()); unsigned n = (unsigned)sym_choice(4, "points"); std::vector<std::pair<uint32_t, unsigned>> ref;
  for (unsigned i = 0; i < n; i++) { uint32_t h = sym_u32("checkpoint"); bool dup = false; for (auto &p : ref) if (p.first == h) dup = true; bool ok = c.add_checkpoint(h, hexOf(i)); sym_assert(ok == !dup, "a height gets one checkpoint"); if (!dup) ref.push_back({h, i}); else sym_cover("duplicate"); }
  bool bad = c.add_checkpoint(sym_u32("bad point"), sym_choice(2, "bad") ? std::string(63, 'a') : std::string("zz") + std::string(62, '0')); sym_assert(!bad, "a malformed hash is refused");
  sym_assert(c.getCheckpointHeights().size() == ref.size(), "checkpoints kept");
  switch (sym_choice(3, "query")) {
  case 0: { uint32_t q = sym_u32("height"); crypto::Hash b; sym_bytes(&b, 32, "block"); int at = -1; for (size_t i = 0; i < ref.size(); i++) if (ref[i].first == q) at = (int)i; bool is = false, r = c.check_block(q, b, is); crypto::Hash e = hashOf(at < 0 ? 0 : ref[(size_t)at].second); bool eq = same(&e, &b, 32); sym_observe("r", r); sym_assert(is == (at >= 0) && r == (at < 0 || eq) && c.check_block(q, b) == r, "a block at a checkpoint height is accepted exactly when its id matches"); sym_cover(at < 0 ? "free" : r ? "match" : "mismatch"); break; }
  case 1: { uint32_t q = sym_u32("height"); bool z = false; for (auto &p : ref) z |= q <= p.first; bool r = c.is_in_checkpoint_zone(q); sym_assert(r == z, "in the zone exactly up to the last checkpoint"); break; }
  default: { uint32_t ch = sym_u32("chain height"), q = sym_u32("height"); bool z = false, past = true; for (auto &p : ref) { z |= q <= p.first; past &= !(p.first <= ch && q <= p.first); } bool deep = (uint64_t)q + 10 < ch; bool r = c.is_alternative_block_allowed(ch, q); sym_observe("r", r);
    sym_assert(r == (q != 0 && past && !(deep && !z)), "an alternative block is allowed only above the last checkpoint passed and at most ten blocks deep"); sym_cover(r ? "allowed" : "refused"); } }
}
extern "C" void checkpoint_dns() { // records from the network never replace a known checkpoint and malformed ones are ignored
  Checkpoints c(LG()); c.set_testnet(sym_choice(2, "testnet")); bool have = c.add_checkpoint(100, hexOf(0)); sym_assert(have, "added"); dnsOk = sym_choice(2, "ok"); dnsRecords.clear(); unsigned k = (unsigned)sym_choice(6, "record");
  static const char R[6][8] = {"100:", "101:", "1x1:", "101", ":", "102:"}; std::string rec = R[k]; rec += k == 5 ? hexOf(1).substr(0, 63) : hexOf(1); if (dnsOk) dnsRecords.push_back(rec); c.load_checkpoints_from_dns(); std::vector<uint32_t> hs = c.getCheckpointHeights();
  bool add = dnsOk && k == 1; sym_assert(hs.size() == (add ? 2u : 1u), "only well-formed records for new heights are used"); sym_assert(c.check_block(100, hashOf(0)) && !c.check_block(100, hashOf(1)), "the built-in checkpoint stands"); if (add) sym_assert(c.check_block(101, hashOf(1)) && !c.check_block(101, hashOf(0)), "the new checkpoint counts"); sym_cover(add ? "added" : "ignored");
}
// ---- upgrade voting ----
namespace { struct FB { Block bl; }; typedef std::vector<FB> FChain; }
extern "C" void upgrade_votes() { // any history of pushes and pops; a restart finds the same upgrade height
  CurrencyBuilder b(LG()); Currency &c = b.m_currency; unsigned win = 2 + (unsigned)sym_choice(2, "window"); c.m_upgradeHeightV2 = UpgradeDetectorBase::UNDEF_HEIGHT; c.m_upgradeVotingThreshold = sym_choice(2, "threshold") ? 60 : 100; c.m_upgradeVotingWindow = win; c.m_upgradeWindow = 2;
  FChain ch; BasicUpgradeDetector<FChain> d(c, ch, 2, LG()); bool i0 = d.init(); sym_assert(i0, "init");
  auto done = [&](size_t h) { unsigned v = 0; if (h + 1 < win) return false; for (size_t i = h + 1 - win; i <= h; i++) v += (unsigned)sym_ite(ch[i].bl.majorVersion == 1 && ch[i].bl.minorVersion == 1, 1, 0); return c.m_upgradeVotingThreshold * win <= 100 * v; };
  auto ref = [&]() { for (size_t h = 0; h < ch.size(); h++) if (done(h)) return (uint32_t)h; return (uint32_t)UpgradeDetectorBase::UNDEF_HEIGHT; };
  unsigned n = (unsigned)sym_choice(VOTEOPS + 1, "ops"); for (unsigned k = 0; k < n; k++) if (!ch.empty() && sym_choice(2, "pop")) { ch.pop_back(); d.blockPopped(); } else { FB f; f.bl.minorVersion = (uint8_t)sym_ubits(1, "vote"); uint32_t up = d.upgradeHeight(); f.bl.majorVersion = up != UpgradeDetectorBase::UNDEF_HEIGHT && ch.size() > up ? 2 : 1; ch.push_back(f); d.blockPushed(); }
  uint32_t e = ref(); sym_observe("height", d.votingCompleteHeight()); sym_assert(d.votingCompleteHeight() == e, "voting is complete at the first height whose window holds enough votes"); sym_assert(d.upgradeHeight() == (e == UpgradeDetectorBase::UNDEF_HEIGHT ? e : e + 2), "upgrade height"); sym_cover(e == UpgradeDetectorBase::UNDEF_HEIGHT ? "pending" : "complete");
  BasicUpgradeDetector<FChain> r(c, ch, 2, LG()); bool ok = r.init(); sym_assert(ok && r.votingCompleteHeight() == e, "a restart finds the same voting height");
}
extern "C" void upgrade_fixed() { // fixed upgrade heights: start-up check of the stored chain
  CurrencyBuilder b(LG()); Currency &c = b.m_currency; uint32_t at = (uint32_t)sym_choice(4, "at"); c.m_upgradeHeightV2 = at; FChain ch; unsigned n = (unsigned)sym_choice(7, "n"); for (unsigned i = 0; i < n; i++) { FB f; f.bl.minorVersion = 0; f.bl.majorVersion = (uint8_t)(1 + sym_ubits(1, "version")); ch.push_back(f); }
  BasicUpgradeDetector<FChain> d(c, ch, 2, LG()); bool ok = d.init(); bool e = n == 0 || (n <= at + 1 ? ch.back().bl.majorVersion < 2 : ch[at + 1].bl.majorVersion == 2); sym_observe("ok", ok); sym_assert(ok == e, "a chain whose version does not match the upgrade height is refused"); sym_assert(d.upgradeHeight() == at, "fixed height"); sym_cover(ok ? "ok" : "refused");
}
