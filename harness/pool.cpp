// The transaction pool (TransactionPool.cpp): admission, bookkeeping, expiry, block templates, persistence.
#include "sym.h"
#include "digest.h"
#include <algorithm>
#include <ctime>
#include "CryptoNoteCore/TransactionPool.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/CryptoNoteSerialization.h"
#include "Serialization/SerializationOverloads.h"
#include "Logging/ILogger.h"
using namespace cn;
static logging::ILogger &LG() { return *reinterpret_cast<logging::ILogger *>(&LG); }
static uint64_t gNow = 1700000000;
extern "C" time_t time(time_t *t) noexcept { if (t) *t = (time_t)gNow; return (time_t)gNow; }
namespace {
struct Clock : ITimeProvider { time_t now() override { return (time_t)gNow; } };
// the verdicts of the chain about each transaction (named by its unlock time) are inputs of the harness
struct Chain : ITransactionValidator { bool valid[8], ready[8], spent[8]; size_t limit = 1 << 20; Chain() { for (int i = 0; i < 8; i++) { valid[i] = ready[i] = true; spent[i] = false; } }
  bool checkTransactionInputs(const Transaction &t, BlockInfo &m) override { m.height = 5; return valid[t.unlockTime]; }
  bool checkTransactionInputs(const Transaction &t, BlockInfo &, BlockInfo &) override { return ready[t.unlockTime]; }
  bool haveSpentKeyImages(const Transaction &t) override { return spent[t.unlockTime]; }
  bool checkTransactionSize(size_t n) override { return n <= limit; } };
struct Pool { CurrencyBuilder b; Currency &c; Chain v; Clock k; tx_memory_pool p; tx_verification_context tvc;
  Pool() : b(LG()), c(b.m_currency), p(c, v, k, LG()) { c.m_mempoolTxLiveTime = 1000; c.m_mempoolTxFromAltBlockLiveTime = 5000; c.m_numberOfPeriodsToForgetTxDeletedFromPool = 7; c.m_blockFutureTimeLimit = 300; c.m_upgradeHeightV8 = 100; gNow = 1700000000; memset(&tvc, 0, sizeof tvc); }
  bool add(const Transaction &t, const crypto::Hash &id, size_t size, bool kept, uint32_t h = 200) { memset(&tvc, 0, sizeof tvc); return p.add_tx(t, id, size, tvc, kept, h); } };
crypto::Hash ID(uint8_t a) { crypto::Hash h; memset(&h, 0, 32); h.data[0] = a; h.data[17] = 0x44; return h; }
crypto::KeyImage KI(uint8_t a) { crypto::KeyImage k; memset(&k, 0, 32); k.data[0] = a; k.data[9] = 0x33; return k; }
Transaction mk(uint8_t tag, uint8_t version = 2) { Transaction t; t.version = version; t.unlockTime = tag; return t; }
void outKey(Transaction &t, uint64_t amount) { TransactionOutput o; o.amount = amount; KeyOutput k; memset(&k, 0, sizeof k); k.key.data[0] = 9; o.target = k; t.outputs.push_back(o); }
void inKey(Transaction &t, uint64_t amount, const crypto::KeyImage &ki) { KeyInput k; k.amount = amount; k.outputIndexes.push_back(3); k.keyImage = ki; t.inputs.push_back(k); }
void inMs(Transaction &t, uint64_t amount, uint32_t idx, uint32_t term = 0) { MultisignatureInput m; m.amount = amount; m.signatureCount = 1; m.outputIndex = idx; m.term = term; t.inputs.push_back(m); }
void payId(Transaction &t, const crypto::Hash &p) { BinaryArray n; setPaymentIdToTransactionExtraNonce(n, p); bool ok = addExtraNonceToTransactionExtra(t.extra, n); sym_assert(ok, "payment id fits"); }
uint64_t anyAmount(const char *n) { return sym_range(128, 16383, n); }
// what is known about a transaction that should be in the pool
struct Known { const Transaction *tx; crypto::Hash id; bool in = false, kept = false; uint64_t ttl = 0, fee = 0, at = 0; size_t size = 0; int pay = -1; };
bool hasIn(std::vector<crypto::Hash> &v, const crypto::Hash &h) { for (auto &x : v) if (same(&x, &h, 32)) return true; return false; }
// every derived structure of the pool agrees with its contents
void consistent(tx_memory_pool &p, std::vector<Known *> ks) {
  size_t n = 0, nout = 0, nttl = 0; for (auto k : ks) n += k->in; sym_assert(p.get_transactions_count() == n, "the pool holds the expected number of transactions");
  std::vector<std::pair<crypto::KeyImage, crypto::Hash>> uses; std::vector<std::pair<uint64_t, uint64_t>> outs;
  for (auto k : ks) { sym_assert(p.have_tx(k->id) == k->in, "a transaction is in the pool exactly when it was added and not removed"); Transaction got; sym_assert(p.getTransaction(k->id, got) == k->in, "transactions are retrievable"); if (!k->in) continue;
    sym_assert(got.unlockTime == k->tx->unlockTime && got.inputs.size() == k->tx->inputs.size() && got.outputs.size() == k->tx->outputs.size() && got.extra.size() == k->tx->extra.size(), "the stored transaction is the one added");
    auto it = p.m_transactions.find(k->id); sym_assert((it->fee == k->fee) & (it->blobSize == k->size) & (it->keptByBlock == k->kept) & ((uint64_t)it->receiveTime == k->at), "fee, size, origin and time of arrival are kept");
    for (auto &in : k->tx->inputs) if (in.type() == typeid(KeyInput)) uses.push_back(std::make_pair(boost::get<KeyInput>(in).keyImage, k->id)); else if (!k->kept) outs.push_back(std::make_pair((uint64_t)boost::get<MultisignatureInput>(in).amount, (uint64_t)boost::get<MultisignatureInput>(in).outputIndex));
    auto t = p.m_ttlIndex.find(k->id); sym_assert((t != p.m_ttlIndex.end()) == (k->ttl != 0), "times to live are recorded"); if (k->ttl) { nttl++; sym_assert(t->second == k->ttl, "time to live"); } }
  sym_assert(p.m_ttlIndex.size() == nttl, "no other times to live");
  size_t seen = 0; for (auto &e : p.m_spent_key_images) { sym_assert(!e.second.empty(), "no stale key image"); for (auto &h : e.second) { seen++; bool f = false; for (auto &u : uses) f |= same(&u.first, &e.first, 32) & same(&u.second, &h, 32); sym_assert(f, "every recorded key image is one of a transaction in the pool"); } } sym_assert(seen == uses.size(), "every key image of the pool is recorded");
  sym_assert(p.m_spentOutputs.size() == outs.size(), "every multisignature output used in the pool is recorded"); for (auto &o : outs) { bool f = false; for (auto &s : p.m_spentOutputs) f |= (s.first == o.first) & (s.second == o.second); sym_assert(f, "recorded multisignature output"); }
  for (int pid = 0; pid < 2; pid++) { crypto::Hash ph = ID((uint8_t)(70 + pid)); std::vector<crypto::Hash> ids; p.getTransactionIdsByPaymentId(ph, ids); size_t want = 0; for (auto k : ks) if (k->in && k->pay == pid) { want++; crypto::Hash h = getObjectHash(*k->tx); sym_assert(hasIn(ids, h), "a transaction in the pool is found by its payment id"); } sym_assert(ids.size() == want, "only transactions in the pool are found by payment id"); }
  std::vector<crypto::Hash> ids; uint64_t total = 0; p.getTransactionIdsByTimestamp(0, ~0ull, 100, ids, total); sym_assert(total == n && ids.size() == n, "time index size"); for (auto k : ks) if (k->in) { ids.clear(); p.getTransactionIdsByTimestamp(k->at, k->at, 100, ids, total); sym_assert(hasIn(ids, k->id), "a transaction is found by its time of arrival"); } }
void added(Known &k, const Transaction &t, bool kept, uint64_t fee, size_t size) { k.tx = &t; k.in = true; k.kept = kept; k.fee = fee; k.size = size; k.at = gNow; }
}
extern "C" void pool_admit() { // one transaction in the pool, another offered
  Pool w; Transaction a = mk(1), b = mk(2, (uint8_t)(1 + sym_choice(2, "version"))); crypto::KeyImage A = KI(1), B = KI(1); sym_bytes(A.data + 12, 2, "first image"); sym_bytes(B.data + 12, 2, "second image"); uint32_t oi = (uint32_t)sym_ubits(2, "first output"), oj = (uint32_t)sym_ubits(2, "second output"); bool akept = sym_choice(2, "first from a block"); inKey(a, 1000, A); inMs(a, 500, oi); outKey(a, 1500);
  Known ka, kb; ka.id = ID(1); kb.id = ID(2); bool ok = w.add(a, ka.id, 300, akept); sym_assert(ok, "first transaction is admitted"); added(ka, a, akept, 0, 300); consistent(w.p, {&ka});
  unsigned kind = (unsigned)sym_choice(4, "inputs"); uint64_t in = anyAmount("input"), in2 = sym_choice(2, "amount") ? 500 : 501, total = 0, out = anyAmount("output"); if (kind == 3) { BaseInput bi; bi.blockIndex = 1; b.inputs.push_back(bi); } if (kind != 1) { inKey(b, in, B); total += in; } if (kind == 1 || kind == 2) { inMs(b, in2, oj); total += in2; } outKey(b, out);
  unsigned ttlKind = (unsigned)sym_choice(2, "time to live"); if (ttlKind) { kb.ttl = sym_range(1ull << 28, (1ull << 35) - 1, "ttl"); appendTTLToExtra(b.extra, kb.ttl); } bool kept = sym_choice(2, "from a block"); w.v.valid[2] = sym_bool("inputs valid"); size_t size = sym_ubits(16, "size"); w.v.limit = sym_ubits(16, "limit"); bool deleted = sym_choice(2, "expired recently"); if (deleted) w.p.m_recentlyDeletedTransactions.emplace(kb.id, gNow - 10);
  uint32_t height = sym_choice(2, "height") ? 100 : 99; bool msIn = kind == 1 || kind == 2; bool types = kind != 3 && !(msIn && b.version < 2); bool enough = out <= total; uint64_t fee = total - out;
  bool clash = ((kind == 0 || kind == 2) & same(&A, &B, 32)) | (msIn && in2 == 500 && !akept && oi == oj); bool valid = w.v.valid[2]; bool ttlOk = kb.ttl == 0 || ((kb.ttl > gNow) & (kb.ttl - gNow <= 1300) & (fee == 0));
  bool good = enough & (kept | (ttlOk & !clash & valid & (size <= w.v.limit))); bool ret = w.add(b, kb.id, size, kept, height), in_pool = w.p.have_tx(kb.id); sym_observe("in pool", in_pool);
  sym_assert(in_pool == (types & good & (kept | !deleted)), "a transaction is admitted exactly when it satisfies the rules"); sym_assert(w.tvc.m_added_to_pool == in_pool, "the caller learns whether it was added"); sym_assert(w.tvc.m_verification_failed == !(types & good), "the caller learns whether it is invalid"); sym_assert(ret == (types & good), "result");
  if (in_pool) { added(kb, b, kept, fee, size); bool relay = valid & ((kb.ttl != 0) | (height >= 100 ? (fee == 1000) | msIn : fee > 0)); sym_assert(w.tvc.m_should_be_relayed == relay, "a transaction is relayed exactly when its inputs are valid and it pays the required fee, withdraws a deposit or has a time to live"); sym_cover("admitted"); } else { sym_assert(!w.tvc.m_should_be_relayed, "a refused transaction is not relayed"); sym_cover("refused"); }
  consistent(w.p, {&ka, &kb}); }
extern "C" void pool_deposit() { // withdrawals may pay out the interest, not more
  Pool w; uint64_t h = w.c.m_upgradeHeightV7 ? 0 : 0; (void)h; uint32_t height = 700000, term = 21900 * (1 + (uint32_t)sym_choice(2, "months")); uint64_t amount = 20000000000ull * (1 + sym_choice(2, "amount")); uint64_t interest = w.c.calculateInterest(amount, term, height); Transaction t = mk(1); inMs(t, amount, 0, term); outKey(t, 0); uint64_t out = sym_ubits(40, "output"); t.outputs[0].amount = out; sym_assume(out >= 1ull << 28); bool kept = sym_choice(2, "from a block"); bool ok = w.add(t, ID(1), 300, kept, height); sym_assert(ok == (out <= amount + interest), "a withdrawal pays out at most the deposit and its interest"); if (ok) { auto it = w.p.m_transactions.find(ID(1)); sym_assert(it->fee == amount + interest - out, "fee of a withdrawal"); sym_cover("admitted"); } else sym_cover("refused"); }
extern "C" void pool_duplicate() { // the same transaction twice
  Pool w; Transaction t = mk(1); inKey(t, 1000, KI(1)); if (sym_choice(2, "second input")) inMs(t, 500, 0); outKey(t, 900); payId(t, ID(70)); bool k1 = sym_choice(2, "from a block"), k2 = sym_choice(2, "again from a block"); Known k; k.id = ID(1); k.pay = 0; bool ok = w.add(t, k.id, 300, k1); sym_assert(ok, "admitted"); added(k, t, k1, t.inputs.size() == 2 ? 600 : 100, 300); consistent(w.p, {&k}); gNow += 50; ok = w.add(t, k.id, 300, k2); sym_assert(!ok && !w.tvc.m_added_to_pool && !w.tvc.m_should_be_relayed, "a transaction already in the pool is not added again"); consistent(w.p, {&k}); sym_cover("duplicate"); }
extern "C" void pool_history() { // add, take, let time pass
  Pool w; Transaction t[3] = {mk(1), mk(2), mk(3)}; crypto::KeyImage B = KI(1); B.data[12] = (char)sym_u8("image"); uint32_t oj = (uint32_t)sym_bool("output"); inKey(t[0], 1000, KI(1)); inMs(t[0], 500, 0); inKey(t[1], 1000, B); inMs(t[2], 500, oj); inKey(t[2], 1000, KI(2)); outKey(t[0], 1500 - 1000); outKey(t[1], 1000); outKey(t[2], 1300); payId(t[0], ID(70)); payId(t[2], ID(70)); uint64_t ttl = gNow + sym_range(1, 1300, "ttl"); appendTTLToExtra(t[1].extra, ttl);
  Known k[3]; uint64_t forgot[3] = {0, 0, 0}; bool dead[3] = {false, false, false}; for (int i = 0; i < 3; i++) { k[i].tx = &t[i]; k[i].id = ID((uint8_t)(i + 1)); } uint64_t fees[3] = {1000, 0, 200}; k[0].pay = k[2].pay = 0;
  for (unsigned op = 0; op < POOLOPS; op++) { unsigned o = (unsigned)sym_choice(10, "operation");
    if (o < 6) { unsigned i = o % 3; bool kept = o >= 3, was = k[i].in; if (i == 1 && ttl <= gNow) kept = true; bool clash = false; for (int j = 0; j < 3; j++) if (k[j].in) { if (i != 2 && j != 2) clash |= j == (int)i || same(&B, &boost::get<KeyInput>(t[0].inputs[0]).keyImage, 32); else if (i == 2 && j == 2) clash = true; else if (i != 1 && j != 1) clash |= !k[j].kept && oj == 0; }
      bool ret = w.add(t[i], k[i].id, 300 + i, kept); bool want = !was && (kept || (!clash && !dead[i])); sym_assert(w.tvc.m_added_to_pool == want, "added exactly when new, free of conflicts and not expired recently"); (void)ret; if (want) { k[i].ttl = i == 1 ? ttl : 0; added(k[i], t[i], kept, fees[i], 300 + i); } else if (!was && !clash && dead[i]) sym_cover("expired recently"); }
    else if (o < 9) { unsigned i = o - 6; Transaction x; size_t sz = 0; uint64_t fee = 0; bool ok = w.p.take_tx(k[i].id, x, sz, fee); sym_assert(ok == k[i].in, "a transaction can be taken exactly when it is in the pool"); if (ok) { sym_assert(sz == 300 + i && fee == fees[i] && x.unlockTime == i + 1, "the transaction taken, with size and fee"); k[i].in = false; sym_cover("taken"); } }
    else { gNow += sym_ubits(14, "time passes"); w.p.removeExpiredTransactions(); for (int i = 0; i < 3; i++) { if (dead[i] && gNow - forgot[i] > 7000) dead[i] = false; if (k[i].in) { bool gone = (gNow - k[i].at > (k[i].kept ? 5000u : 1000u)) || (k[i].ttl != 0 && k[i].ttl <= gNow); if (gone) { k[i].in = false; if (!dead[i]) { dead[i] = true; forgot[i] = gNow; } sym_cover("expired"); } } } }
    consistent(w.p, {&k[0], &k[1], &k[2]}); } }
extern "C" void pool_template() { // choosing transactions for a block
  Pool w; Transaction t[3] = {mk(1), mk(2), mk(3)}; uint64_t fee[3]; size_t size[3]; bool ttl[3]; crypto::KeyImage img[3]; uint32_t oi[3]; unsigned n = 3; unsigned hard = (unsigned)sym_choice(3, "focus"); // conflicts, sizes, readiness
  for (unsigned i = 0; i < n; i++) { img[i] = KI(1); if (hard == 0) img[i].data[12] = (char)sym_u8("image"); else img[i].data[12] = (char)i; oi[i] = hard == 0 ? (uint32_t)sym_ubits(1, "output") : i; bool ms = i > 0; uint64_t pay = hard == 1 ? sym_ubits(FEEB, "fee") : 15000 - 100 * i, out = 16383 + (ms ? 500 : 0) - pay; inKey(t[i], 16383, img[i]); if (ms) inMs(t[i], 500, oi[i]); outKey(t[i], out); fee[i] = pay; size[i] = hard == 1 ? (size_t)sym_range(100, 4095, "size") : 300 + i; ttl[i] = hard == 2 && sym_choice(2, "ttl"); if (ttl[i]) { appendTTLToExtra(t[i].extra, gNow + 100); } w.v.ready[i + 1] = hard == 2 ? sym_bool("ready") : true; w.v.spent[i + 1] = hard == 2 ? sym_bool("spent") : false; gNow += sym_choice(2, "later") ? 1 : 0; bool ok = w.add(t[i], ID((uint8_t)(i + 1)), size[i], true); sym_assert(ok, "in the pool"); }
  size_t median = hard == 1 ? (size_t)sym_range(4000, 8191, "median") : 100000, maxc = hard == 1 ? (size_t)sym_ubits(14, "limit") : 1 << 20; size_t lim = 125 * median / 100 - w.c.minerTxBlobReservedSize(); sym_assume(median <= maxc); lim = sym_ite(lim < maxc, lim, maxc); Block bl; size_t total = 1; uint64_t fees = 1; uint32_t h = 200; bool ok = w.p.fill_block_template(bl, median, maxc, 0, total, fees, h); sym_assert(ok, "template"); sym_assert(w.p.get_transactions_count() == 3, "the pool keeps its transactions");
  uint64_t sf = 0; size_t ss = 0; bool in[3] = {false, false, false}; std::vector<unsigned> seq; for (auto &x : bl.transactionHashes) { bool f = false; for (unsigned i = 0; i < n; i++) { crypto::Hash id = ID((uint8_t)(i + 1)); if (same(&x, &id, 32)) { sym_assert(!in[i], "no transaction twice"); in[i] = f = true; seq.push_back(i); sf += fee[i]; ss += size[i]; } } sym_assert(f, "only transactions of the pool"); }
  sym_assert(ss == total && sf == fees, "size and fees of the template are those of the chosen transactions"); sym_assert(ss <= lim, "the chosen transactions fit in the block"); auto clash = [&](unsigned i, unsigned j) { return same(&img[i], &img[j], 32) | (i > 0 && j > 0 && oi[i] == oi[j]); }; size_t upto = 0; for (unsigned q = 0; q < seq.size(); q++) { upto += size[seq[q]]; unsigned i = seq[q]; sym_assert(!(fee[i] == 0 && upto > median), "transactions without fee stay below the median size"); sym_assert(w.v.ready[i + 1] & !w.v.spent[i + 1], "only transactions valid now are chosen"); sym_assert(!ttl[i], "transactions with a time to live are not mined"); for (unsigned r = 0; r < q; r++) { sym_assert(!clash(i, seq[r]), "chosen transactions do not conflict"); unsigned e = seq[r]; sym_assert(fee[e] * size[i] >= fee[i] * size[e], "better paying transactions come first"); } }
  for (unsigned i = 0; i < n; i++) if (!in[i]) { bool why = ttl[i] | !w.v.ready[i + 1] | w.v.spent[i + 1] | (total + size[i] > (size_t)sym_ite(fee[i] == 0, median, lim)); for (unsigned j = 0; j < n; j++) if (in[j]) why |= clash(i, j); sym_assert(why, "a transaction is left out only for a reason"); sym_cover("left out"); } if (seq.size() == 3) sym_cover("all chosen"); }
extern "C" void pool_saved() { // store, load, rebuild the indexes
  Pool w, v; Transaction t[2] = {mk(1), mk(2)}; crypto::KeyImage B = KI(1); B.data[12] = (char)sym_u8("image"); bool same1 = sym_choice(2, "same image"); if (same1) B = KI(1); inKey(t[0], 1000, KI(1)); inMs(t[0], 500, sym_bool("output")); inKey(t[1], 1000, B); outKey(t[0], anyAmount("output") & 1023); outKey(t[1], 1000); t[0].outputs[0].amount |= 128; payId(t[0], ID(70)); uint64_t ttl = sym_choice(2, "ttl") ? gNow + 100 : 0; if (ttl) appendTTLToExtra(t[1].extra, ttl); for (auto &x : t) for (size_t i = 0; i < x.inputs.size(); i++) { crypto::Signature s; memset(&s, (int)(5 + i), sizeof s); x.signatures.push_back(std::vector<crypto::Signature>(1, s)); } Known k[2]; k[0].id = ID(1); k[1].id = ID(2); k[0].pay = 0; bool kept = sym_choice(2, "from a block"); bool clash = same(&t[0].inputs, &t[0].inputs, 0) && same(&B, &boost::get<KeyInput>(t[0].inputs[0]).keyImage, 32); bool ok = w.add(t[0], k[0].id, 300, kept); sym_assert(ok, "admitted"); added(k[0], t[0], kept, 1500 - t[0].outputs[0].amount, 300); gNow += 7; ok = w.add(t[1], k[1].id, 301, clash); sym_assert(ok, "admitted"); k[1].ttl = ttl; added(k[1], t[1], clash, 0, 301); w.p.m_recentlyDeletedTransactions.emplace(ID(9), gNow - 10); consistent(w.p, {&k[0], &k[1]});
  BinaryArray d = toBinaryArray(w.p); ok = fromBinaryArray(v.p, d); sym_assert(ok, "a stored pool can be loaded"); v.p.buildIndices(); consistent(v.p, {&k[0], &k[1]}); sym_assert(v.p.m_recentlyDeletedTransactions.size() == 1 && v.p.m_recentlyDeletedTransactions.count(ID(9)) == 1, "expired transactions are remembered"); for (int i = 0; i < 2; i++) { auto x = v.p.m_transactions.find(k[i].id); BinaryArray a = toBinaryArray(x->tx), b = toBinaryArray(t[i]); sym_assert(a.size() == b.size() && same(a.data(), b.data(), a.size()), "the loaded transaction is the stored one"); sym_assert(x->maxUsedBlock.height == 5, "validation data"); } sym_cover("loaded"); }
extern "C" void pool_difference() { // what a peer lacks, and what it should drop
  Pool w; Transaction t[3] = {mk(1), mk(2), mk(3)}; for (unsigned i = 0; i < 3; i++) { inKey(t[i], 1000, KI((uint8_t)i)); outKey(t[i], 900); w.v.ready[i + 1] = sym_bool("ready"); w.v.spent[i + 1] = sym_bool("spent"); bool ok = w.add(t[i], ID((uint8_t)(i + 1)), 300, false); sym_assert(ok, "admitted"); } unsigned m = (unsigned)sym_choice(16, "known"); std::vector<crypto::Hash> known, fresh, gone; for (unsigned i = 0; i < 4; i++) if (m >> i & 1) known.push_back(ID((uint8_t)(i + 1))); w.p.get_difference(known, fresh, gone); size_t nf = 0, ng = 0;
  for (unsigned i = 0; i < 4; i++) { bool rdy = i < 3 && (w.v.ready[i + 1] & !w.v.spent[i + 1]), kn = m >> i & 1; nf += rdy && !kn; ng += kn && !rdy; sym_assert(hasIn(fresh, ID((uint8_t)(i + 1))) == (rdy && !kn), "transactions valid now and not known are new"); sym_assert(hasIn(gone, ID((uint8_t)(i + 1))) == (kn && !rdy), "known transactions that are gone or not valid now are dropped"); } sym_assert(fresh.size() == nf && gone.size() == ng, "and nothing else"); sym_cover("compared"); }
