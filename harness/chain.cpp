// Chain state: applying, rejecting and undoing blocks; spending rules.
#include "chain.h"
// a transaction with a chosen mix of inputs and outputs, valid with respect to World::base; amounts, terms and key images are symbolic
static std::vector<crypto::KeyImage> gImages;
static crypto::KeyImage anyImage() { crypto::KeyImage k = KI(100); sym_bytes(k.data, 8, "image"); for (auto &o : gImages) sym_assume(!same(&o, &k, 32)); gImages.push_back(k); return k; }
static Transaction someTx(uint8_t tag, unsigned kind) {
  Transaction t = mkTx(tag);
  if (kind & 1) inKey(t, COIN, {0, 1}, anyImage());
  if (kind & 2) inMs(t, MSIG, tag % 2 ? 0 : 2, 0, tag % 2 ? std::vector<uint8_t>{3} : std::vector<uint8_t>{3, 4});
  if (kind & 4) outKey(t, anyAmount("amount"), 9); if (kind & 8) outMs(t, anyAmount("ms amount"), sym_choice(2, "deposit") ? (uint32_t)sym_range(128, 16383, "term") : 0, 1, {6}); if (kind & 16) { uint64_t a = anyAmount("amount"); outKey(t, a, 10); outKey(t, a, 11); }
  return t; }
extern "C" void undo_block() { gImages.clear(); // attach, then detach through popBlock: everything as before
  World w; w.base(); unsigned n = (unsigned)sym_choice(3, "txs"); std::vector<Transaction> txs; for (unsigned i = 0; i < n; i++) txs.push_back(someTx((uint8_t)(2 + i), (unsigned)(1 + sym_choice(TXKINDS, "kind") * 3 % 31))); Snap a(w.bc); gPool.clear();
  w.attach(mkMiner(2, {COIN, anyAmount("reward")}), txs, sym_ubits(40, "time stamp")); Snap m(w.bc); sym_assert(m.blocks == 3 && m.ids.size() == 3 && m.txs.size() == a.txs.size() + 1 + n, "block attached"); 
  for (auto &t : txs) for (auto &in : t.inputs) if (in.type() == typeid(KeyInput)) sym_assert(w.bc.have_tx_keyimg_as_spent(boost::get<KeyInput>(in).keyImage), "key images of an attached block are spent"); else { auto &x = boost::get<MultisignatureInput>(in); sym_assert(w.bc.m_multisignatureOutputs[MSIG][x.outputIndex].isUsed, "multisignature outputs of an attached block are used"); }
  for (size_t i = 0; i < txs.size(); i++) { std::vector<uint32_t> gi; bool ok = w.bc.getTransactionOutputGlobalIndexes(getObjectHash(txs[i]), gi); if (txs[i].outputs.empty()) { sym_assert(!ok, "no outputs, no indexes"); continue; } sym_assert(ok && gi.size() == txs[i].outputs.size(), "global indexes recorded"); for (size_t o = 0; o < gi.size(); o++) { uint64_t am = txs[i].outputs[o].amount; if (txs[i].outputs[o].target.type() == typeid(KeyOutput)) { auto &v = w.bc.m_outputs[am]; sym_assert(gi[o] < v.size() && v[gi[o]].first.block == 2 && v[gi[o]].first.transaction == i + 1 && v[gi[o]].second == o, "global index finds the output"); } else { auto &v = w.bc.m_multisignatureOutputs[am]; sym_assert(gi[o] < v.size() && v[gi[o]].transactionIndex.block == 2 && v[gi[o]].transactionIndex.transaction == i + 1 && v[gi[o]].outputIndex == o && !v[gi[o]].isUsed, "global index finds the multisignature output"); } } }
  w.bc.popBlock(m.ids.back()); Snap z(w.bc); checkSame(a, z); sym_assert(gPool.size() == n, "transactions of the undone block return to the pool"); for (auto &t : txs) { bool f = false; crypto::Hash h = getObjectHash(t); for (auto &p : gPool) f |= same(&p.id, &h, 32); sym_assert(f, "every transaction returns"); } sym_cover("undone");
}
extern "C" void rollback() { gImages.clear(); // rollbackBlockchainTo
  World w; w.base(); Snap a(w.bc); unsigned n = 1 + (unsigned)sym_choice(2, "blocks"); for (unsigned i = 0; i < n; i++) { unsigned k = (unsigned)sym_choice(4, "kind"); std::vector<Transaction> t; if (k) t.push_back(someTx((uint8_t)(2 + i), k == 1 ? 5 : k == 2 ? 10 : 24)); w.attach(mkMiner(2 + i, {anyAmount("reward")}), t); } bool ok = w.bc.rollbackBlockchainTo(1); sym_assert(ok, "rollback"); Snap z(w.bc); checkSame(a, z); sym_cover("rolled back"); }
extern "C" void rebuild() { gImages.clear(); // recomputing the caches from the stored blocks gives the state kept while adding them
  World w; w.base(); unsigned n = (unsigned)sym_choice(3, "blocks"); for (unsigned i = 0; i < n; i++) { unsigned k = (unsigned)sym_choice(5, "kind"); std::vector<Transaction> t; if (k) t.push_back(someTx((uint8_t)(2 + i), k == 1 ? 5 : k == 2 ? 10 : k == 3 ? 24 : 31)); w.attach(mkMiner(2 + i, {anyAmount("reward")}), t); } Snap a(w.bc); bool ok = w.bc.rebuildCache(); sym_assert(ok, "rebuilt"); Snap z(w.bc); checkSame(a, z, false); sym_cover("rebuilt"); }
