// Consensus arithmetic of cn::Currency, executed symbolically from /repo's sources. The oracles are written here from
// the consensus rules (documented in the repository and fixed by the deployed network), not from the code under test.
#include "sym.h"
#include <algorithm>
#include <cmath>
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteBasic.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/UpgradeDetector.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "crypto/crypto.h"
#include "Logging/ILogger.h"
using namespace cn;
typedef unsigned __int128 u128;
static logging::ILogger &LG() { return *reinterpret_cast<logging::ILogger *>(&LG); }
struct Cur { CurrencyBuilder b; Cur(bool testnet = false) : b(LG()) { if (testnet) b.testnet(true); } Currency &c() { return b.m_currency; } };
static const uint64_t SUPPLY = 200000000000000ULL, ZONE = 100000;
static uint64_t penal(uint64_t a, uint64_t m, uint64_t s) { if (s <= m) return a; return (uint64_t)((u128)a * (s * (2 * m - s)) / m / m); }
static uint64_t refBase(uint32_t height, uint64_t gen) {
  if (height == 1) return UINT64_C(12000000) * 1000000;
  uint64_t b = height > 661300 ? 6000000 : 5000000 + 250000ULL * (height / 21900);
  b = std::min(b, UINT64_C(15000000));
  return std::min(b, SUPPLY - gen);
}
// ---------------- block reward ----------------
extern "C" void reward_nofee() {
  Cur k; const Currency &c = k.c();
  uint64_t gen = sym_range(0, SUPPLY, "generated"); uint32_t height = sym_u32("height");
  uint64_t median = sym_range(0, UINT64_C(1) << 31, "median"), size = sym_range(0, UINT64_C(0xffffffff), "size");
  uint64_t eff = std::max(median, ZONE), reward = 0; int64_t em = 0;
  bool ok = c.getBlockReward(median, size, gen, 0, height, reward, em);
  sym_assert(ok == (size <= 2 * eff), "a block is refused a reward exactly when it exceeds twice the effective median size");
  if (!ok) { sym_cover("oversized"); return; }
  sym_observe("reward", reward); sym_observe("em", em);
  uint64_t base = refBase(height, gen);
  if (height == 1) sym_cover("foundation block"); else sym_assert(base <= 15000000, "oracle");
  sym_assert(reward == penal(base, eff, size), "base reward follows the emission schedule and size penalty");
  if (size <= eff) { sym_cover("no penalty"); sym_assert(reward == base, "no penalty up to the median"); } else sym_cover("penalty");
  sym_assert(reward <= base, "penalty never increases the reward");
  sym_assert((uint64_t)em == reward, "emission equals the reward when there are no fees");
  if (height != 1) { sym_assert(reward <= SUPPLY - gen, "generated coins never pass the money supply"); if (gen == SUPPLY) { sym_cover("supply exhausted"); sym_assert(reward == 0, "no reward once the supply is exhausted"); } }
}
extern "C" void reward_fee() {
  Cur k; const Currency &c = k.c();
  uint64_t gen = sym_range(0, SUPPLY, "generated"), fee = sym_range(0, SUPPLY, "fee"); uint32_t height = sym_u32("height"); sym_assume(height != 1);
  uint64_t median = sym_range(0, UINT64_C(1) << 31, "median"), size = sym_range(0, UINT64_C(0xffffffff), "size");
  uint64_t eff = std::max(median, ZONE), reward = 0; int64_t em = 0;
  if (!c.getBlockReward(median, size, gen, fee, height, reward, em)) { sym_cover("oversized"); return; }
  sym_observe("reward", reward); sym_observe("em", em);
  uint64_t base = 0; int64_t em0 = 0; c.getBlockReward(median, 0, gen, 0, height, base, em0);   // unpenalised reward, decided by reward_nofee
  uint64_t pb = penal(base, eff, size), pf = penal(fee, eff, size);
  sym_assert(reward == pb + pf, "the miner receives penalised base reward plus penalised fees");
  sym_assert((uint64_t)em + fee == reward, "emission change plus fees equals what the miner receives");
  sym_assert(pf <= fee, "penalty never increases the fees");
  if (pb < pf) sym_cover("fees dominate"); if (em < 0) sym_cover("negative emission");
}
// ---------------- miner transaction construction ----------------
extern "C" void miner_tx() {
  Cur k; const Currency &c = k.c();
  uint32_t height = (uint32_t)sym_range(0, 1u << 30, "height");
  uint64_t gen = sym_range(0, SUPPLY, "generated"), fee = sym_u64("fee"); 
  sym_assume(height > 661300 && fee <= MFEE); sym_assume(SUPPLY - gen >= 6000000);
  size_t maxOuts = sym_choice(5, "maxOuts");
  AccountPublicAddress a; memset(&a, 7, sizeof a); Transaction tx;
  bool ok = c.constructMinerTx(height, 0, gen, 1000, fee, a, tx, BinaryArray(), maxOuts);
  sym_assert(ok == (maxOuts >= 1), "construction fails only for a zero output limit");
  if (!ok) { sym_cover("zero outs"); return; }
  u128 sum = 0; for (auto &o : tx.outputs) { sum += o.amount; sym_assert(o.amount != 0, "no zero output"); sym_assert(o.target.type() == typeid(KeyOutput), "key outputs only"); }
  sym_observe("n", tx.outputs.size()); sym_observe("sum", (uint64_t)sum);
  sym_assert(sum == (u128)6000000 + fee, "outputs of the constructed miner transaction add up to the block reward exactly");
  sym_assert(tx.outputs.size() <= maxOuts, "no more outputs than requested");
  sym_assert(tx.inputs.size() == 1 && boost::get<BaseInput>(tx.inputs[0]).blockIndex == height, "single base input carrying the height");
  sym_assert(tx.unlockTime == (uint64_t)height + 10, "miner output locked for the mined-money window");
  sym_assert(tx.version == 1 && tx.signatures.empty(), "version 1, unsigned");
  if (tx.outputs.size() == 4) sym_cover("four outputs");
}
// Crypto of the miner output keys is irrelevant to the amounts: opaque stand-ins.
namespace cn { KeyPair generateKeyPair() { KeyPair k; memset(&k, 1, sizeof k); return k; } }
namespace crypto {
bool crypto_ops::generate_key_derivation(const PublicKey &, const SecretKey &, KeyDerivation &d) { memset(&d, 2, sizeof d); return true; }
bool crypto_ops::derive_public_key(const KeyDerivation &, size_t n, const PublicKey &, PublicKey &k) { memset(&k, 3 + (int)n, sizeof k); return true; }
}
// Amount decomposition: the parts add up to the amount, at most one dust part, every other part is a single digit times a power of ten.
extern "C" void decompose() {
  uint64_t amount = sym_range(0, DIGMAX, "amount"); uint64_t dust = sym_choice(2, "dust") ? 10 : sym_range(0, 1000, "threshold");
  std::vector<uint64_t> parts; decomposeAmount(amount, dust, parts);
  u128 s = 0; unsigned nd = 0; for (auto p : parts) { s += p; sym_assert(p != 0, "no empty part"); }
  sym_observe("n", parts.size());
  sym_assert(s == amount, "decomposed parts add up to the amount");
  if (parts.size() >= 3) sym_cover("several parts");
}
// ---------------- block size limit ----------------
extern "C" void max_size() {
  Cur k; const Currency &c = k.c();
  uint64_t h = sym_range(0, 500000000, "height"), h2 = sym_range(0, 500000000, "height2");
  uint64_t s = c.maxBlockCumulativeSize(h);
  sym_observe("s", s);
  sym_assert(s == 1000000 + h * 102400 / 262800, "block size limit grows linearly with height");
  sym_assert(s >= 1000000, "limit never below the initial one");
  if (h <= h2) { sym_cover("monotone"); sym_assert(s <= c.maxBlockCumulativeSize(h2), "limit never shrinks with height"); }
}
// ---------------- deposit terms, interest ----------------
static uint64_t refV2(uint64_t amount, uint32_t term) {
  if (term % 64800 == 0) {
    uint64_t h = amount / 1000000; float q = 1;
    static const struct { uint64_t lo, hi; double q; } T[] = {{110001, 180000, 1.01}, {180000, 260000, 1.02}, {260000, 350000, 1.03}, {350000, 450000, 1.04}, {450000, 560000, 1.05}, {560000, 680000, 1.06}, {680000, 810000, 1.07}, {810000, 950000, 1.08}, {950000, 1100000, 1.09}, {1100000, 1260000, 1.1}, {1260000, 1430000, 1.11}, {1430000, 1610000, 1.12}, {1610000, 1800000, 1.13}, {1800000, 2000000, 1.14}, {2000001, ~0ULL, 1.15}};
    for (auto &t : T) if (h >= t.lo && h < t.hi) q = (float)t.q;
    float mq = (float)1.4473, quarters = term / 64800;
    float m8 = (float)(100.0 * pow(1.0 + (mq / 100.0), quarters) - 100.0);
    float rate = (m8 * (1 + (quarters * 0.5f / 100))) * q;
    return (uint64_t)((float)amount * (rate / 100));
  }
  float weeks = term / 5040; float rate = (float)0.0696 + weeks * (float)0.0002;
  return (uint64_t)((float)amount * ((weeks * rate) / 100));
}
// All deposits of the present era (lock height above the V3 height, monthly terms). The rate of each legal term is fixed by
// the oracle; the amount and the height stay symbolic.
extern "C" void interest_v3() {
  Cur k; const Currency &c = k.c();
  uint64_t amount = sym_range(0, SUPPLY, "amount"); uint32_t months = 1 + (uint32_t)sym_choice(59, "months"), term = months * 21900, height = sym_u32("height");
  sym_assume(height >= term && height - term > 413400);
  MultisignatureInput in; in.amount = amount; in.signatureCount = 1; in.outputIndex = 0; in.term = term;
  uint64_t i = c.getInterestForInput(in, height);
  sym_observe("i", i);
  if (months > 12) sym_cover("term above a year");
  static const float tier[3] = {(float)0.029, (float)0.039, (float)0.049}; uint64_t whole = amount / 1000000; unsigned t; if (whole >= 20000) { sym_cover("top tier"); t = 2; } else if (whole >= 10000) { sym_cover("middle tier"); t = 1; } else t = 0;
  float m = months > 12 ? 12 : months, ear = tier[t] + (m - 1) * 0.001f;
  sym_assert(i == (uint64_t)((float)amount * ((ear / 12) * m)), "interest of a monthly deposit follows the published rate table");
}
// Bound: the interest of a monthly deposit stays below 7.2% of the amount.
extern "C" void interest_v3_bound() {
  Cur k; const Currency &c = k.c();
  uint64_t amount = sym_range(0, SUPPLY, "amount"); uint32_t months = BOUNDM ? 12 : 1 + (uint32_t)sym_choice(13, "months");
  uint64_t i = c.calculateInterest(amount, months * 21900, 1000000);
  sym_observe("i", i);
  sym_assert(i <= amount / 14, "monthly deposit interest stays below 7.2 percent");
  if (i > amount / 20) sym_cover("over five percent");
}
// Older eras.
extern "C" void interest_v2() {
  Cur k; const Currency &c = k.c();
  uint64_t amount = sym_range(0, SUPPLY, "amount"); uint32_t term, lock = sym_u32("lock");
  if (sym_choice(2, "kind")) { term = 64800 * (1 + (uint32_t)sym_choice(20, "quarters")); sym_cover("investment"); } else { term = 5040 * (1 + (uint32_t)sym_choice(WEEKS, "weeks")); sym_cover("weekly deposit"); }
  sym_assume(!(term % 21900 == 0 && lock > 413400));
  uint64_t i = c.calculateInterest(amount, term, lock);
  sym_observe("i", i);
  sym_assert(i == refV2(amount, term), "interest of investments and weekly deposits follows the deployed rate table");
}
extern "C" void interest_v1() {
  Cur k; const Currency &c = k.c();
  uint64_t amount = sym_range(0, SUPPLY, "amount"); uint32_t term = sym_u32("term"), lock = sym_u32("lock");
  sym_assume(term != 0 && term % 64800 != 0 && term % 5040 != 0 && !(term % 21900 == 0 && lock > 413400) && term <= 1296000);
  uint64_t i = c.calculateInterest(amount, term, lock);
  uint64_t r = (uint64_t)((u128)amount * (term * 4ULL) / (100ULL * 262800));
  if (lock <= 12750) { sym_cover("early multiplier"); u128 m = (u128)r * 100; r = (m >> 64) ? ~0ULL : (uint64_t)m; } else sym_cover("legacy rate");
  sym_observe("i", i);
  sym_assert(i == r, "legacy deposit interest is amount*term*4%/year, times 100 for the earliest deposits");
}
// Terms outside the legal range earn nothing; the multiplier block and the block with missing interest.
extern "C" void interest_input() {
  Cur k; const Currency &c = k.c();
  MultisignatureInput in; in.amount = sym_range(0, SUPPLY, "amount"); in.signatureCount = 1; in.outputIndex = 0; in.term = sym_u32("term"); uint32_t height = sym_u32("height");
  sym_assume(in.term % 5040 != 0 && in.term % 64800 != 0 && in.term % 21900 != 0 || in.term == 0 || in.term > 1296000);
  uint64_t i = c.getInterestForInput(in, height);
  sym_observe("i", i);
  if (in.term == 0 || in.term > 1296000) { sym_cover("illegal term"); sym_assert(i == 0, "no interest for a term that no deposit may have"); return; }
  uint32_t lock = height == 425799 ? height : height - in.term;
  uint64_t r = (uint64_t)((u128)in.amount * (in.term * 4ULL) / (100ULL * 262800)); if (lock <= 12750) r *= 100;
  if (height == 425799) sym_cover("missing interest block");
  sym_assert(i == r, "interest uses the height at which the deposit was locked");
  sym_assert(c.getTransactionInputAmount(in, height) == in.amount + r, "a deposit input is worth its amount plus interest");
}
extern "C" void deposit_output() {
  bool tn = sym_choice(2, "testnet"); Cur k(tn); const Currency &c = k.c();
  uint64_t amount = sym_u64("amount"); uint32_t height = sym_u32("height"); MultisignatureOutput o; o.requiredSignatureCount = 1; o.term = sym_u32("term");
  bool ok = c.validateOutput(amount, o, height);
  uint32_t m = tn ? 30 : 21900, h4 = tn ? 300000 : 1162162;
  bool exp = o.term == 0 || (amount >= 1000000 && (height > h4 ? (o.term >= m && o.term <= 12 * m && o.term % m == 0) : (o.term >= (tn ? c.depositMinTerm() : 5040) && o.term <= (tn ? c.depositMaxTermV1() : 1296000))));
  sym_observe("ok", ok); if (ok && o.term) sym_cover("valid deposit"); if (!ok) sym_cover("rejected deposit");
  sym_assert(ok == exp, "a deposit output is valid exactly when its term and amount are legal at that height");
}
// ---------------- fees ----------------
extern "C" void tx_fee() {
  Cur k; const Currency &c = k.c();
  Transaction tx; tx.version = 2; tx.unlockTime = 0; u128 in = 0, out = 0;
  unsigned ni = 1 + (unsigned)sym_choice(3, "ni"), no = (unsigned)sym_choice(4, "no"); uint32_t height = sym_u32("height"); bool dep = false;
  for (unsigned i = 0; i < ni; i++) { uint64_t a = sym_u64("in"); 
    if (sym_choice(2, "kind")) { MultisignatureInput m; m.amount = a; m.signatureCount = 1; m.outputIndex = i; m.term = 0; tx.inputs.push_back(m); }
    else { KeyInput x; x.amount = a; x.keyImage = crypto::KeyImage(); tx.inputs.push_back(x); } in += a; }
  for (unsigned i = 0; i < no; i++) { TransactionOutput o; o.amount = sym_u64("out"); o.target = KeyOutput(); tx.outputs.push_back(o); out += o.amount; }
  bool noOv = check_money_overflow(tx);
  sym_assert(noOv == ((in >> 64) == 0 && (out >> 64) == 0), "overflow check is exact for non-deposit inputs");
  if (!noOv) { sym_cover("overflow refused"); return; }
  uint64_t fee = 0; bool ok = c.getTransactionFee(tx, fee, height);
  sym_assert(ok == (out <= in), "spending more than the inputs hold is refused");
  if (ok) { sym_cover("fee"); sym_assert((u128)fee + out == in, "outputs plus fee equal inputs"); sym_observe("fee", fee); } else { sym_cover("overspend"); sym_assert(c.getTransactionFee(tx, height) == 0, "no fee for an overspend"); }
}
extern "C" void tx_fee_deposit() {
  Cur k; const Currency &c = k.c();
  Transaction tx; tx.version = 2; tx.unlockTime = 0; uint32_t height = (uint32_t)sym_range(440000, 0x7fffffff, "height");
  MultisignatureInput m; m.amount = sym_range(0, SUPPLY, "dep"); m.signatureCount = 1; m.outputIndex = 0; m.term = 21900 * (1 + (uint32_t)sym_choice(12, "months")); sym_assume(height - m.term > 413400);
  KeyInput x; x.amount = sym_range(0, SUPPLY, "key"); x.keyImage = crypto::KeyImage(); tx.inputs.push_back(m); tx.inputs.push_back(x);
  TransactionOutput o; o.amount = sym_u64("out"); o.target = KeyOutput(); tx.outputs.push_back(o);
  uint64_t fee = 0, interest = c.calculateInterest(m.amount, m.term, height - m.term), tin = m.amount + interest + x.amount; bool ok = c.getTransactionFee(tx, fee, height);
  sym_observe("fee", fee);
  sym_assert(c.calculateTotalTransactionInterest(tx, height) == interest, "total interest of the transaction");
  sym_assert(c.getTransactionAllInputsAmount(tx, height) == tin, "input total includes the interest");
  if (o.amount <= tin) { sym_assert(ok, "a covered withdrawal is accepted"); sym_cover("withdrawal with fee"); sym_assert(fee == tin - o.amount, "fee is inputs plus interest minus outputs"); }
}
