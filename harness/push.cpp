// Adding blocks through Blockchain::pushBlock: header rules, spending rules, atomicity.
#include "chain.h"
static uint64_t gPow[4];
namespace crypto { void cn_gpu_hash_v0(cn_context &, const void *, size_t, Hash &h) { memcpy(&h, gPow, 32); } void cn_slow_hash_v0(cn_context &, const void *, size_t, Hash &h) { memcpy(&h, gPow, 32); } void cn_fast_slow_hash_v1(cn_context &, const void *, size_t, Hash &h) { memcpy(&h, gPow, 32); } void cn_conceal_slow_hash_v0(cn_context &, const void *, size_t, Hash &h) { memcpy(&h, gPow, 32); } }
struct Push : World {
  block_verification_context bvc; uint64_t reward;
  Push() { memset(gPow, 0, sizeof gPow); memset(&bvc, 0, sizeof bvc); }
  uint64_t rewardFor(size_t size, uint64_t fee) { uint64_t r = 0; int64_t e = 0; std::vector<size_t> sz; bc.get_last_n_blocks_sizes(sz, c.rewardBlocksWindow()); bool ok = c.getBlockReward(common::medianValue(sz), size, bc.m_blocks.empty() ? 0 : bc.m_blocks.back().already_generated_coins, fee, (uint32_t)bc.m_blocks.size(), r, e); sym_assert(ok, "reward"); return r; }
  Block candidate(const std::vector<Transaction> &txs, uint64_t fee) { uint32_t h = (uint32_t)bc.m_blocks.size(); return block(mkMiner(h, {rewardFor(500, fee)}), txs); }
  // offer the block the way the node does: its transactions wait in the pool
  bool offer(const Block &b, const std::vector<Transaction> &txs) { gPool.clear(); tx_verification_context tvc; for (auto &t : txs) (*reinterpret_cast<tx_memory_pool *>(gPoolMem)).add_tx(t, tvc, false, 0); memset(&bvc, 0, sizeof bvc); bool ok = bc.pushBlock(b, get_block_hash(b), bvc, (uint32_t)bc.m_blocks.size() + 1); return ok; }
  void verdict(bool ok, bool want, const Snap &before, const Block &b, const std::vector<Transaction> &txs, const char *what) {
    sym_observe("accepted", ok); sym_assert(ok == want, what); Snap z(bc);
    if (!ok) { checkSame(before, z); sym_assert(!bvc.m_added_to_main_chain, "a refused block is not reported as added"); for (auto &t : txs) { bool f = false; crypto::Hash h = getObjectHash(t); for (auto &p : gPool) f |= same(&p.id, &h, 32); sym_assert(f, "transactions of a refused block are back in the pool"); } sym_cover("refused"); }
    else { sym_assert(bvc.m_added_to_main_chain && !bvc.m_verification_failed, "an accepted block is reported as added"); crypto::Hash h = get_block_hash(b), tl = bc.m_blockIndex.getTailId(); sym_assert(z.blocks == before.blocks + 1 && z.ids.size() == before.ids.size() + 1 && same(&tl, &h, 32), "an accepted block becomes the tip"); sym_assert(z.txs.size() == before.txs.size() + 1 + txs.size(), "its transactions are indexed"); sym_cover("accepted"); } }
};
extern "C" void header_rules() { // version, parent, proof of work, time limit
  Push w; w.base(); Block b = w.candidate({}, 0); b.majorVersion = sym_u8("version"); bool parent = sym_choice(2, "parent"); if (!parent) { uint8_t x = sym_u8("bit"); sym_assume(x != 0); b.previousBlockHash.data[5] ^= x; }
  b.timestamp = sym_range(1ULL << 28, (1ULL << 35) - 1, "time stamp"); uint64_t w3 = sym_u64("proof of work"); gPow[3] = w3; uint64_t diff = w.bc.getDifficultyForNextBlock(); sym_assert(diff > 0, "difficulty");
  Snap a(w.bc); bool ok = w.offer(b, {}); bool want = parent & (b.majorVersion == 8) & (b.timestamp <= gNow + 7200) & ((((unsigned __int128)w3 * diff) >> 64) == 0); w.verdict(ok, want, a, b, {}, "a block is accepted exactly when version, parent, time stamp and proof of work are right");
}
static void oldStamp(unsigned window, unsigned n, unsigned every) {
  Push w; sym_assert(w.c.timestampCheckWindow() == 30 && w.c.blockFutureTimeLimit() == 7200, "window of 30 blocks, two hours into the future"); w.c.m_timestampCheckWindow = window; std::vector<uint64_t> ts; for (unsigned i = 0; i < n; i++) { uint64_t t = i % every ? 1600000000 + 1000 * ((i * 7) % 31) : sym_range(1599990000, 1600040000, "stamp"); ts.push_back(t); w.attach(mkMiner(i, {COIN}), {}, t); }
  Block b = w.candidate({}, 0); b.timestamp = sym_range(1599980000, 1600050000, "time stamp"); unsigned lo = 0, hi = 0; for (unsigned i = n > window ? n - window : 0; i < n; i++) { lo += 2 * ts[i] <= 2 * b.timestamp; }
  bool ok = w.bc.check_block_timestamp_main(b); sym_observe("ok", ok); if (n < window) sym_assert(ok, "too few blocks to compare with"); else if (window % 2) sym_assert(ok == (lo > window / 2), "a block is not older than the median of the window"); else { if (lo > window / 2) sym_assert(ok, "a block newer than the median is acceptable"); if (lo < window / 2) sym_assert(!ok, "a block older than the median is refused"); } if (ok) sym_cover("accepted"); else sym_cover("refused"); }
extern "C" void old_stamp() { oldStamp(5, 4 + (unsigned)sym_choice(3, "blocks"), 1); }
extern "C" void old_stamp30() { oldStamp(30, 29 + (unsigned)sym_choice(3, "blocks"), 64); }
extern "C" void miner_rules() { // the coinbase: one base input with the height, unlock time height + 10, amounts equal to the reward (a surplus of up to 10 units is tolerated)
  Push w; w.base(); uint64_t r = w.rewardFor(500, 0); unsigned kind = (unsigned)sym_choice(5, "kind"); uint64_t a0 = r, a1 = 0; Transaction m = mkMiner(2, {}); m.unlockTime = 12; uint64_t hgt = 2, unl = 12; bool want = true;
  switch (kind) { case 0: hgt = sym_u32("height"); boost::get<BaseInput>(m.inputs[0]).blockIndex = (uint32_t)hgt; want = hgt == 2; break;
    case 1: unl = sym_u64("unlock"); m.unlockTime = unl; want = unl == 12; break;
    case 2: a0 = sym_u64("amount"); want = (a0 >= r) & (a0 - r <= 10); break;
    case 3: { a1 = anyAmount("amount 2"); a0 = sym_range(r - 20000, r + 30, "amount 1"); unsigned __int128 s = (unsigned __int128)a0 + a1; want = (a0 != 0) & (a1 != 0) & (s >= r) & (s <= (unsigned __int128)r + 10); break; }
    default: if (sym_choice(2, "input")) m.inputs.push_back(m.inputs[0]); else m.inputs.clear(); want = false; }
  outKey(m, a0, 42); if (kind == 3) outKey(m, a1, 43); Block b = w.block(m, {}); Snap a(w.bc); bool ok = w.offer(b, {}); w.verdict(ok, want, a, b, {}, "a coinbase is accepted exactly when it claims the block reward under the coinbase rules");
  if (ok) { sym_assert(w.bc.m_blocks.back().already_generated_coins == 2000000 + r, "generated coins grow by the reward"); sym_assert(w.bc.m_blocks.back().cumulative_difficulty == 200 + w.bc.m_blocks.back().cumulative_difficulty - 200, "difficulty"); }
}

extern "C" void reset_chain() { // resetting an old chain gives the state of a new one
  Push f; Block g = f.block(mkMiner(0, {f.rewardFor(100, 0)}), {}); bool ok = f.bc.resetAndSetGenesisBlock(g); sym_assert(ok, "a new chain takes its first block"); Snap a(f.bc); sym_assert(a.blocks == 1, "one block");
  Push w; w.base(); unsigned n = (unsigned)sym_choice(2, "blocks"); if (n) { Transaction t = mkTx(9); crypto::KeyImage k = KI(100); sym_bytes(k.data, 4, "image"); inKey(t, COIN, {0}, k); inMs(t, MSIG, 0, 0, {3}); outMs(t, anyAmount("amount"), (uint32_t)sym_range(128, 16383, "term"), 1, {6}); outKey(t, anyAmount("key amount"), 9); w.attach(mkMiner(2, {anyAmount("reward")}), {t}); }
  ok = w.bc.resetAndSetGenesisBlock(g); sym_assert(ok, "an old chain can be reset"); Snap z(w.bc); checkSame(a, z); sym_cover("reset"); }

// ---- spending ----
static void extend(World &w, unsigned n) { for (unsigned i = 0; i < n; i++) w.attach(mkMiner((uint32_t)w.bc.m_blocks.size(), {77}), {}); }
static void zone(World &w) { bool ok = w.bc.m_checkpoints.add_checkpoint(1000, std::string(64, 'a')); sym_assert(ok, "checkpoint"); }
static bool unlocked(uint64_t unlock, uint64_t size) { return unlock < 500000000 ? size >= unlock : gNow + 120 >= unlock; }
extern "C" void spend_key() { // COIN outputs 0 and 1 are coinbases of heights 0 and 1, 2 and 3 belong to a transaction with its own unlock time
  Push w; unsigned form = (unsigned)sym_choice(4, "form"); uint64_t unlock = form == 1 ? sym_range(500000000, 1ULL << 34, "unlock time") : form == 2 ? sym_range(0, 40, "unlock height") : 0; w.base(5000, unlock); static const unsigned EX[3] = {0, 7, 8}; extend(w, form == 3 ? 2 : EX[sym_choice(3, "blocks")]); crypto::KeyImage spent = KI(100); sym_bytes(spent.data, 2, "spent"); Transaction s = mkTx(9); inKey(s, COIN, {2}, spent); w.attach(mkMiner((uint32_t)w.bc.m_blocks.size(), {77}), {s}); size_t size = w.bc.m_blocks.size();
  std::vector<Transaction> txs; bool own = form == 3; if (own) { Transaction f = mkTx(11); crypto::KeyImage k = KI(200); k.data[20] = 8; inKey(f, COIN, {3}, k); outKey(f, COIN, 60); txs.push_back(f); } bool zn = form == 0 && sym_choice(2, "zone"); if (zn) zone(w);
  Transaction t = mkTx(10); uint64_t amount = form == 0 ? anyAmount("amount") : COIN; sym_assume(amount != 600); unsigned ring = form == 0 ? 1 : 1 + (unsigned)sym_choice(2, "ring"); std::vector<uint32_t> off(ring); for (auto &o : off) o = form == 0 ? sym_u32("offset") : (uint32_t)sym_ubits(3, "offset"); crypto::KeyImage ki = KI(100); if (form == 0) sym_bytes(ki.data, 2, "image"); else ki.data[20] = 9; uint8_t sig = form == 0 ? (uint8_t)sym_ubits(1, "signature") : 1, grp = form == 0 ? (uint8_t)sym_u8("group") : 0; ki.data[1] = (char)grp; if (form == 0) spent.data[1] = spent.data[1];
  inKey(t, amount, off, ki, sig); if (form == 0 && sym_choice(2, "signatures")) t.signatures[0].push_back(t.signatures[0][0]); bool sigCount = t.signatures[0].size() == ring; outKey(t, amount, 50); txs.push_back(t);
  uint64_t un[4] = {10, 11, unlock, unlock}; bool want = sigCount & (amount == COIN) & !same(&ki, &spent, 32); uint32_t at = 0; std::vector<uint8_t> keys; for (auto o : off) { at += o; bool ok = false; uint8_t key = 0; static const uint8_t K[4] = {40, 41, 7, 8}; for (unsigned i = 0; i < 4; i++) { ok |= (at == i) & unlocked(un[i], size); key = (uint8_t)sym_ite(at == i, K[i], key); } want &= ok; keys.push_back(key); } if (!zn) want &= (sig == 1) & ((uint8_t)ki.data[1] != 0xbd);
  Block b = w.block(mkMiner((uint32_t)size, {w.rewardFor(500, 0)}), txs); Snap a(w.bc); if (!sigCount) { /* the wire format cannot express a wrong number of signatures */ bool r = w.bc.checkTransactionInputs(t); sym_assert(!r, "wrong number of signatures"); return; } bool ok = w.offer(b, txs);
  w.verdict(ok, want, a, b, txs, "a key input is accepted exactly when its ring consists of existing unlocked outputs, its key image is new and its signature is valid"); if (ok) { sym_assert(w.bc.have_tx_keyimg_as_spent(ki), "the key image is spent now"); if (!zn) { crypto::Hash ph = getObjectHash(*static_cast<const TransactionPrefix *>(&t)); bool r = gRing.size() == ring && same(&gRingHash, &ph, 32); for (unsigned i = 0; r && i < ring; i++) r &= gRing[i] == keys[i]; sym_assert(r, "the signature is checked against the referenced outputs and the whole transaction prefix"); } } }
extern "C" void spend_msig() {
  Push w; unsigned form = (unsigned)sym_choice(4, "form"); uint32_t D = form == 1 ? (sym_choice(2, "huge") ? 0x7fffffffu : (uint32_t)sym_range(1, 4095, "deposit term")) : 5; uint64_t unlock = form == 2 ? sym_range(0, 20, "unlock height") : 0; w.base(D, unlock); extend(w, form == 1 ? (unsigned)sym_choice(6, "blocks") : 6); bool used = false; if (form == 3) { used = sym_choice(2, "spent"); if (used) { Transaction s = mkTx(9); inMs(s, MSIG, 2, 0, {3, 4}); w.attach(mkMiner((uint32_t)w.bc.m_blocks.size(), {77}), {s}); } } size_t size = w.bc.m_blocks.size(); bool zn = form == 3 && sym_choice(2, "zone"); if (zn) zone(w);
  uint64_t amount = form == 0 ? anyAmount("amount") : MSIG; uint32_t idx = form == 1 ? 1 : form == 0 ? sym_u32("index") : (uint32_t)sym_ubits(2, "index"), term = form == 1 || form == 0 ? (D == 0x7fffffffu ? D : (uint32_t)sym_ubits(12, "term")) : (uint32_t)sym_ite(idx == 1, D, 0); unsigned n = form == 0 || form == 3 ? (unsigned)sym_choice(4, "signatures") : 0; if (form == 1) n = 1; if (form == 2) n = 1 + (unsigned)sym_choice(2, "signatures"); std::vector<uint8_t> sg(n); for (auto &x : sg) x = (uint8_t)sym_ubits(3, "signer");
  Transaction t = mkTx(10); inMs(t, amount, idx, term, sg); outKey(t, amount, 50); std::vector<Transaction> txs(1, t);
  static const uint8_t K[3][2] = {{3, 4}, {5, 0}, {3, 4}}; static const unsigned KN[3] = {2, 1, 2}, RQ[3] = {1, 1, 2}; bool want = false; for (unsigned i = 0; i < 3; i++) { bool ok = (idx == i) & (amount == MSIG) & unlocked(unlock, size) & !(used && i == 2) & (n == RQ[i]) & (term == (i == 1 ? D : 0)) & (i != 1 || 1 + (uint64_t)D <= size); bool sigs = n == 1 ? (sg[0] == K[i][0]) | (KN[i] == 2 && sg[0] == K[i][1]) : n == 2 ? (sg[0] == K[i][0]) & (sg[1] == K[i][1]) & (KN[i] == 2) : false; want |= ok & (sigs | zn); }
  Block b = w.block(mkMiner((uint32_t)size, {w.rewardFor(500, 0)}), txs); Snap a(w.bc); uint64_t dep = w.bc.fullDepositAmount(); bool ok = w.offer(b, txs); w.verdict(ok, want, a, b, txs, "a multisignature input is accepted exactly when the output exists, is unspent, unlocked and mature, and carries the required signatures in key order"); if (ok) { sym_assert(w.bc.m_multisignatureOutputs[MSIG][sym_concretize(idx)].isUsed, "the output is marked spent"); sym_assert(w.bc.fullDepositAmount() == dep - sym_ite(idx == 1, MSIG, 0), "locked total shrinks by a withdrawn deposit"); } }
extern "C" void double_spend() { // chain, first and second transaction of one block
  Push w; w.base(); extend(w, 10); bool ms = sym_choice(2, "multisignature"); Transaction s = mkTx(9), t1 = mkTx(10), t2 = mkTx(11); bool want;
  if (!ms) { crypto::KeyImage P = KI(1), A = KI(1), B = KI(1); sym_bytes(P.data + 2, 3, "spent"); sym_bytes(A.data + 2, 3, "first"); sym_bytes(B.data + 2, 3, "second"); inKey(s, COIN, {0}, P); inKey(t1, COIN, {1}, A); inKey(t2, COIN, {2}, B); want = !same(&A, &P, 32) & !same(&B, &P, 32) & !same(&A, &B, 32); }
  else { uint32_t p = (uint32_t)sym_choice(2, "spent") * 2, i = (uint32_t)sym_ubits(2, "first"), j = (uint32_t)sym_ubits(2, "second"); unsigned ni = 1 + (unsigned)sym_choice(2, "signatures"), nj = 1 + (unsigned)sym_choice(2, "signatures"); inMs(s, MSIG, p, 0, p ? std::vector<uint8_t>{3, 4} : std::vector<uint8_t>{4}); inMs(t1, MSIG, i, 0, ni == 2 ? std::vector<uint8_t>{3, 4} : std::vector<uint8_t>{3}); inMs(t2, MSIG, j, 0, nj == 2 ? std::vector<uint8_t>{3, 4} : std::vector<uint8_t>{4}); want = (i != p) & (j != p) & (i != j) & (i == (ni == 2 ? 2u : 0u)) & (j == (nj == 2 ? 2u : 0u)); }
  outKey(t1, 200, 50); outKey(t2, 200, 51); if (!ms) { t1.outputs[0].amount = t2.outputs[0].amount = COIN; } else t1.outputs[0].amount = t2.outputs[0].amount = MSIG; w.attach(mkMiner((uint32_t)w.bc.m_blocks.size(), {77}), {s}); bool split = sym_choice(2, "two blocks"); std::vector<Transaction> txs(1, t1); if (!split) txs.push_back(t2);
  if (split) { bool w1 = w.bc.checkTransactionInputs(t1); Block b1 = w.block(mkMiner((uint32_t)w.bc.m_blocks.size(), {w.rewardFor(500, 0)}), txs); bool ok1 = w.offer(b1, txs); sym_assert(ok1 == w1, "first block"); if (!ok1) { sym_assert(!want, "the first spend is refused only when it must be"); return; } txs.assign(1, t2); }
  Block b = w.block(mkMiner((uint32_t)w.bc.m_blocks.size(), {w.rewardFor(500, 0)}), txs); Snap a(w.bc); bool ok = w.offer(b, txs); w.verdict(ok, want, a, b, txs, "no output is spent twice, in one block or across blocks"); }
extern "C" void refuse_late() { // blocks whose flaw is found late
  Push w; w.base(); extend(w, 10); unsigned flaw = (unsigned)sym_choice(6, "flaw"); std::vector<Transaction> txs; for (unsigned i = 0; i < 2; i++) { Transaction t = mkTx((uint8_t)(10 + i)); crypto::KeyImage k = KI((uint8_t)(50 + i)); k.data[3] = (char)sym_u8("image"); if (i == 0) inKey(t, COIN, {i}, k); else inMs(t, MSIG, 0, 0, {3}); outKey(t, i ? MSIG - 128 : COIN, 9); if (i) outMs(t, 128, 0, 1, {6}); txs.push_back(t); } uint64_t fee = 0, lim = 0, rw = w.rewardFor(500, fee), paid = rw; bool want = true;
  size_t size = getObjectBinarySize(txs[0]) + getObjectBinarySize(txs[1]); uint32_t h = (uint32_t)w.bc.m_blocks.size();
  switch (flaw) { case 0: lim = sym_ubits(12, "size limit"); w.c.m_maxBlockSizeInitial = lim; w.c.m_maxBlockSizeGrowthSpeedNumerator = 0; break; case 1: paid = sym_range(rw - 30000, rw + 30000, "paid"); want = (paid >= rw) & (paid <= rw + 10); break;
    case 2: inKey(txs[1], COIN, {(uint32_t)sym_ubits(3, "own output")}, KI(77)); txs[1].outputs[0].amount += COIN; want = boost::get<KeyInput>(txs[1].inputs[1]).outputIndexes[0] < 4; break; case 3: { uint32_t oi = (uint32_t)sym_range(1, 5, "own multisignature output"); Transaction t = mkTx(12); inMs(t, MSIG - 0, oi, 0, {6}); outKey(t, MSIG, 9); boost::get<MultisignatureInput>(t.inputs[0]).amount = sym_choice(2, "amount") ? 128 : MSIG; t.outputs[0].amount = boost::get<MultisignatureInput>(t.inputs[0]).amount; if (t.outputs[0].amount == 128) boost::get<MultisignatureInput>(t.inputs[0]).outputIndex = oi - 1; txs.push_back(t); want = false; break; }
    case 4: txs[1].outputs[0].amount = 0; txs[1].outputs[0].amount = MSIG - 128; outMs(txs[1], 128, (uint32_t)sym_range(1, 100, "short term"), 1, {6}); want = false; break; default: break; }
  Block b = w.block(mkMiner(h, {paid}), txs); if (flaw == 0) { size += getObjectBinarySize(b.baseTransaction); want = size <= lim; } std::vector<Transaction> pool = txs; if (flaw == 5) { pool.erase(pool.begin() + (ptrdiff_t)sym_choice(2, "missing")); want = false; } Snap a(w.bc); bool ok = w.offer(b, pool); w.verdict(ok, want, a, b, flaw == 5 && ok ? txs : pool, "a flawed block is refused, a sound one accepted"); }
