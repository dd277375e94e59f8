// A Blockchain object over in-memory storage, small worlds and state snapshots.
#pragma once
#include "sym.h"
#include "digest.h"
#include <algorithm>
#include <chrono>
#include <ctime>
#include "CryptoNoteCore/Blockchain.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "crypto/crypto.h"
#include "Common/Math.h"
#include "Logging/ILogger.h"
using namespace cn;
static logging::ILogger &LG() { return *reinterpret_cast<logging::ILogger *>(&LG); }
// ---- environment ----
static uint64_t gNow = 1700000000;
extern "C" time_t time(time_t *t) noexcept { if (t) *t = (time_t)gNow; return (time_t)gNow; }
// signatures and keys: uninterpreted, the answer for each is a symbolic bit fixed by the signature contents
static bool gKeysOk = true; static std::vector<uint8_t> gRing; static crypto::Hash gRingHash; // the ring and message of the last signature check
namespace crypto {
  bool crypto_ops::check_key(const PublicKey &k) { return gKeysOk || k.data[31] != 0xee; }
  bool crypto_ops::check_signature(const Hash &, const PublicKey &k, const Signature &s) { return ((const uint8_t *)&s)[0] == (uint8_t)k.data[0]; } // signature byte 0 names the signing key
  bool crypto_ops::check_ring_signature(const Hash &h, const KeyImage &, const PublicKey *const *k, size_t n, const Signature *s) { gRing.clear(); for (size_t i = 0; i < n; i++) gRing.push_back((uint8_t)k[i]->data[0]); gRingHash = h; return ((const uint8_t *)s)[0] == 1; }
  KeyImage crypto_ops::scalarmultKey(const KeyImage &P, const KeyImage &) { KeyImage I; memset(&I, 0, 32); I.data[0] = P.data[1] == 0xbd ? 2 : 1; return I; } // images marked 0xbd lie outside the prime-order group
}
// transaction pool stand-in: a list of transactions
struct PoolEntry { Transaction tx; crypto::Hash id; }; static std::vector<PoolEntry> gPool; static int gPoolFailAt = -1;
namespace cn {
  void tx_memory_pool::lock() const {} void tx_memory_pool::unlock() const {}
  bool tx_memory_pool::take_tx(const crypto::Hash &id, Transaction &tx, size_t &blobSize, uint64_t &fee) { for (size_t i = 0; i < gPool.size(); i++) if (same(&gPool[i].id, &id, 32)) { tx = gPool[i].tx; blobSize = 100; fee = 0; gPool.erase(gPool.begin() + (ptrdiff_t)i); return true; } return false; }
  bool tx_memory_pool::add_tx(const Transaction &tx, tx_verification_context &, bool, uint32_t) { PoolEntry e; e.tx = tx; e.id = getObjectHash(tx); gPool.push_back(e); return true; }
}
alignas(64) static char gPoolMem[sizeof(tx_memory_pool)];
// ---- building transactions and blocks ----
static crypto::PublicKey PK(uint8_t a) { crypto::PublicKey k; memset(&k, 0, 32); k.data[0] = a; k.data[5] = 0x77; return k; }
static crypto::KeyImage KI(uint8_t a) { crypto::KeyImage k; memset(&k, 0, 32); k.data[0] = a; k.data[9] = 0x33; return k; }
static Transaction mkTx(uint8_t tag, uint8_t version = 2) { Transaction t; t.version = version; t.unlockTime = 0; t.extra.push_back(0x00); for (unsigned i = 1; i < 2; i++) t.extra.push_back(0); (void)tag; t.extra.clear(); t.extra.push_back(0x05); t.extra.push_back(tag); return t; }
static void outKey(Transaction &t, uint64_t amount, uint8_t key) { TransactionOutput o; o.amount = amount; KeyOutput k; k.key = PK(key); o.target = k; t.outputs.push_back(o); }
static void outMs(Transaction &t, uint64_t amount, uint32_t term, uint8_t req, std::vector<uint8_t> keys) { TransactionOutput o; o.amount = amount; MultisignatureOutput m; for (auto k : keys) m.keys.push_back(PK(k)); m.requiredSignatureCount = req; m.term = term; o.target = m; t.outputs.push_back(o); }
static void inKey(Transaction &t, uint64_t amount, std::vector<uint32_t> idx, const crypto::KeyImage &ki, uint8_t sigOk = 1) { KeyInput k; k.amount = amount; k.outputIndexes = idx; k.keyImage = ki; t.inputs.push_back(k); std::vector<crypto::Signature> s(idx.size()); for (auto &x : s) { memset(&x, 0, sizeof x); ((uint8_t *)&x)[0] = sigOk; } t.signatures.push_back(s); }
static void inMs(Transaction &t, uint64_t amount, uint32_t idx, uint32_t term, std::vector<uint8_t> signers) { MultisignatureInput m; m.amount = amount; m.signatureCount = (uint8_t)signers.size(); m.outputIndex = idx; m.term = term; t.inputs.push_back(m); std::vector<crypto::Signature> s(signers.size()); for (size_t i = 0; i < s.size(); i++) { memset(&s[i], 0, sizeof s[i]); ((uint8_t *)&s[i])[0] = signers[i]; } t.signatures.push_back(s); }
static Transaction mkMiner(uint32_t height, std::vector<uint64_t> amounts) { Transaction t; t.version = 1; t.unlockTime = height + 10; BaseInput b; b.blockIndex = height; t.inputs.push_back(b); for (auto a : amounts) outKey(t, a, (uint8_t)(40 + height)); t.extra.push_back(0x05); t.extra.push_back((uint8_t)(0x80 + height)); return t; }
static const uint64_t COIN = 300, MSIG = 500;
static uint64_t anyAmount(const char *n) { return sym_range(128, 16383, n); } // two-byte varints
struct World {
  CurrencyBuilder b; Currency &c; Blockchain bc;
  World(bool indexes = true) : b(LG()), c(b.m_currency), bc(c, *reinterpret_cast<tx_memory_pool *>(gPoolMem), LG(), indexes, false) { c.m_upgradeHeightV2 = c.m_upgradeHeightV3 = c.m_upgradeHeightV6 = c.m_upgradeHeightV7 = c.m_upgradeHeightV8 = 0; gPool.clear(); gKeysOk = true; }
  crypto::Hash tail() { return bc.m_blocks.empty() ? NULL_HASH : bc.m_blockIndex.getTailId(); }
  Block block(Transaction miner, const std::vector<Transaction> &txs, uint64_t ts = 0) { Block x; uint32_t h = (uint32_t)bc.m_blocks.size(); x.majorVersion = h ? 8 : 1; x.minorVersion = 0; x.nonce = 0; x.timestamp = ts ? ts : 1600000000 + 120 * h; x.previousBlockHash = tail(); x.baseTransaction = miner; for (auto &t : txs) x.transactionHashes.push_back(getObjectHash(t)); return x; }
  // attach without validation, through the same bookkeeping functions the node uses
  Blockchain::BlockEntry attach(Transaction miner, const std::vector<Transaction> &txs, uint64_t ts = 0) {
    Block x = block(miner, txs, ts); Blockchain::BlockEntry e; e.bl = x; e.height = (uint32_t)bc.m_blocks.size(); e.block_cumulative_size = 500; e.cumulative_difficulty = 100 * (e.height + 1); e.already_generated_coins = 1000000 * (uint64_t)(e.height + 1);
    e.transactions.resize(1); e.transactions[0].tx = x.baseTransaction; Blockchain::TransactionIndex ti = {e.height, 0}; uint64_t interest = 0; bool ok = bc.pushTransaction(e, getObjectHash(x.baseTransaction), ti);
    for (size_t i = 0; i < txs.size(); i++) { e.transactions.resize(e.transactions.size() + 1); e.transactions.back().tx = txs[i]; ++ti.transaction; ok = bc.pushTransaction(e, x.transactionHashes[i], ti) && ok; interest += c.calculateTotalTransactionInterest(txs[i], e.height); }
    sym_assert(ok, "set-up block attaches"); bc.pushBlock(e); bc.pushToDepositIndex(e, interest); return e; }
  // heights 0 and 1: plain outputs of COIN (indexes 0-3), 600; multisignature outputs of MSIG: 0 = one of two keys, no term; 1 = term; 2 = two of two
  uint32_t depTerm = 0; 
  void base(uint32_t term = 5000, uint64_t unlock = 0) { depTerm = term; attach(mkMiner(0, {COIN, 600}), {}); Transaction t = mkTx(1); t.unlockTime = unlock; outKey(t, COIN, 7); outMs(t, MSIG, 0, 1, {3, 4}); outKey(t, COIN, 8); outMs(t, MSIG, term, 1, {5}); outMs(t, MSIG, 0, 2, {3, 4}); attach(mkMiner(1, {COIN}), {t}); }
};
// ---- snapshots ----
struct Snap {
  Blockchain::key_images_container keys; Blockchain::outputs_container outs; Blockchain::MultisignatureOutputsContainer ms; Blockchain::TransactionMap txs; std::vector<crypto::Hash> ids; DepositIndex dep; std::multimap<uint64_t, crypto::Hash> ts; uint64_t gen; size_t genN, pay, blocks; 
  explicit Snap(Blockchain &b) : keys(b.m_spent_keys), outs(b.m_outputs), ms(b.m_multisignatureOutputs), txs(b.m_transactionMap), ids(b.m_blockIndex.getBlockIds(0, 1000)), dep(b.m_depositIndex), ts(b.m_timestampIndex.index), gen(b.m_generatedTransactionsIndex.lastGeneratedTxNumber), genN(b.m_generatedTransactionsIndex.index.size()), pay(b.m_paymentIdIndex.index.size()), blocks(b.m_blocks.size()) {}
};
static bool eq(const uint32_t &a, const uint32_t &b) { return a == b; }
static bool eqTI(const Blockchain::TransactionIndex &a, const Blockchain::TransactionIndex &b) { return (a.block == b.block) & (a.transaction == b.transaction); }
static bool eq(const Blockchain::TransactionIndex &a, const Blockchain::TransactionIndex &b) { return eqTI(a, b); }
static bool eq(const std::vector<std::pair<Blockchain::TransactionIndex, uint16_t>> &a, const std::vector<std::pair<Blockchain::TransactionIndex, uint16_t>> &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= eqTI(a[i].first, b[i].first) & (a[i].second == b[i].second); return r; }
static bool eq(const std::vector<Blockchain::MultisignatureOutputUsage> &a, const std::vector<Blockchain::MultisignatureOutputUsage> &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= eqTI(a[i].transactionIndex, b[i].transactionIndex) & (a[i].outputIndex == b[i].outputIndex) & (a[i].isUsed == b[i].isUsed); return r; }
template <class M> static bool eqMap(const M &a, const M &b) { if (a.size() != b.size()) return false; bool all = true; for (auto &x : a) { bool one = false; for (auto &y : b) one |= same(&x.first, &y.first, sizeof x.first) & eq(x.second, y.second); all &= one; } return all; }
static bool eqDep(const DepositIndex &a, const DepositIndex &b) { if (a.index.size() != b.index.size()) return false; bool r = a.blockCount == b.blockCount; for (size_t i = 0; i < a.index.size(); i++) r &= (a.index[i].height == b.index[i].height) & (a.index[i].amount == b.index[i].amount) & (a.index[i].interest == b.index[i].interest); return r; }
static bool eqTs(const std::multimap<uint64_t, crypto::Hash> &a, const std::multimap<uint64_t, crypto::Hash> &b) { if (a.size() != b.size()) return false; bool r = true; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= (i->first == j->first) & same(&i->second, &j->second, 32); return r; }
static void checkSame(const Snap &a, const Snap &b, bool explorer = true) {
  sym_assert(a.blocks == b.blocks && a.ids.size() == b.ids.size() && (a.ids.empty() || same(a.ids.data(), b.ids.data(), 32 * a.ids.size())), "the same blocks"); sym_assert(eqMap(a.keys, b.keys), "the same spent key images"); sym_assert(eqMap(a.outs, b.outs), "the same spendable outputs"); sym_assert(eqMap(a.ms, b.ms), "the same multisignature outputs and usage marks"); sym_assert(eqMap(a.txs, b.txs), "the same transaction index"); sym_assert(eqDep(a.dep, b.dep), "the same deposit totals");
  if (explorer) { sym_assert(eqTs(a.ts, b.ts), "the same time stamp index"); sym_assert(a.gen == b.gen && a.genN == b.genN && a.pay == b.pay, "the same explorer counters"); } }
