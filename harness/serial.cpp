// Wire format of varints, transactions and blocks. The reference encoder below is written from the CryptoNote wire format.
#include "sym.h"
#include "idealhash.h"
#include <algorithm>
#include "Common/Varint.h"
#include "Common/StreamTools.h"
#include "Common/MemoryInputStream.h"
#include "Common/VectorOutputStream.h"
#include "CryptoNoteCore/CryptoNoteBasic.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteSerialization.h"
#include "Serialization/SerializationOverloads.h"
#include "crypto/hash.h"
using namespace cn;
typedef std::vector<uint8_t> Bytes;
// ---- varints ----
// An encoding is legal iff it is minimal and its value fits in `bits`.
static bool refParse(const uint8_t *p, size_t n, unsigned bits, uint64_t &v, size_t &used) {
  v = 0;
  for (size_t i = 0; i < n; i++) {
    unsigned s = 7 * i; uint8_t d = p[i] & 0x7f;
    if (s >= bits) return false;
    if (s + 7 > bits && (d >> (bits - s)) != 0) return false;
    v |= (uint64_t)d << s;
    if (!(p[i] & 0x80)) { if (p[i] == 0 && i) return false; used = i + 1; return true; }
  }
  return false;
}
static void refWrite(Bytes &o, uint64_t v) { while (v >= 128) { o.push_back((uint8_t)(v & 127) | 128); v >>= 7; } o.push_back((uint8_t)v); }
template <class T> static void vstream(unsigned n) {
  uint8_t buf[12]; sym_bytes(buf, n, "bytes"); uint64_t rv = 0; size_t used = 0; bool rok = refParse(buf, n, sizeof(T) * 8, rv, used);
  bool ok = true; T v = 0; size_t pos = 0;
  common::MemoryInputStream in(buf, n);
  try { common::readVarint(in, v); Bytes rest; while (!in.endOfStream()) { common::read<uint8_t>(in); pos++; } } catch (std::exception &) { ok = false; }
  sym_observe("ok", ok); sym_observe("v", v);
  sym_assert(ok == rok, "exactly the minimal in-range encodings are accepted");
  if (ok) { sym_cover("accepted"); sym_assert(v == rv, "decoded value"); sym_assert(n - pos == used, "consumed length"); } else sym_cover("rejected");
}
extern "C" void varint_parse() {
  switch (sym_choice(4, "width")) {
  case 0: vstream<uint8_t>(1 + sym_choice(3, "n")); break;
  case 1: vstream<uint16_t>(1 + sym_choice(4, "n")); break;
  case 2: vstream<uint32_t>(1 + sym_choice(6, "n")); break;
  case 3: vstream<uint64_t>(1 + sym_choice(11, "n")); break;
  }
}
extern "C" void varint_write() {
  uint64_t v = sym_u64("v"); Bytes ref, got; refWrite(ref, v);
  if (sym_choice(2, "w")) { sym_assume(v <= 0xffffffff); common::VectorOutputStream o(got); common::writeVarint(o, (uint32_t)v); } else { common::VectorOutputStream o(got); common::writeVarint(o, v); }
  sym_observe("n", got.size()); if (got.size() == 10) sym_cover("ten bytes");
  sym_assert(got == ref, "encoding is the minimal base-128 one");
  Bytes g2; tools::write_varint(std::back_inserter(g2), v); sym_assert(g2 == ref, "both encoders agree");
  common::MemoryInputStream in(got.data(), got.size()); uint64_t back = 0; common::readVarint(in, back);
  sym_assert(back == v && in.endOfStream(), "decoding an encoding gives the value back");
}
template <class T> static void vtools(unsigned n) {
  uint8_t buf[12]; sym_bytes(buf, n, "bytes"); uint64_t rv = 0; size_t used = 0; bool rok = refParse(buf, n, sizeof(T) * 8, rv, used);
  T v = 0; const uint8_t *b = buf, *e = buf + n; int r = tools::read_varint(b, e, v);
  sym_observe("r", (uint64_t)(int64_t)r); sym_observe("v", v);
  bool complete = r > 0 && !(buf[r - 1] & 0x80);   // a read that ends in the middle reports the bytes seen
  sym_assert(complete == rok, "exactly the minimal in-range encodings are complete reads");
  if (rok) sym_assert(v == rv && (size_t)r == used, "decoded value and length");
}
extern "C" void varint_iter() { switch (sym_choice(3, "width")) { case 0: vtools<uint8_t>(1 + sym_choice(3, "n")); break; case 1: vtools<uint32_t>(1 + sym_choice(6, "n")); break; case 2: vtools<uint64_t>(1 + sym_choice(11, "n")); break; } }

// ---- transactions and blocks ----
// Field values: one field at a time (chosen by `wide`) takes its whole range, the others stay below 128, which bounds the
// number of encoding-length combinations without losing any single field's range.
static unsigned fieldNo, wideField;
static uint64_t F(unsigned bits) { uint64_t v = sym_ubits(bits, "field"); if (fieldNo++ != wideField) sym_assume(v < 128); return v; }
static void raw(Bytes &o, const void *p, size_t n) { o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
template <class T> static T blob(const char *n) { T t; sym_bytes(&t, sizeof t, n); return t; }
struct Built { Transaction tx; Bytes prefix, whole; };
static void buildTx(Built &b, unsigned maxIn, unsigned maxOut, bool coinbase) {
  Transaction &t = b.tx; Bytes &o = b.prefix; Bytes sigs;
  t.version = (uint8_t)(1 + sym_choice(2, "version")); refWrite(o, t.version);
  t.unlockTime = F(64); refWrite(o, t.unlockTime);
  unsigned ni = coinbase ? 1 : (unsigned)sym_choice(maxIn + 1, "ni"); refWrite(o, ni);
  for (unsigned i = 0; i < ni; i++) {
    unsigned kind = coinbase ? 0 : (unsigned)sym_choice(3, "inkind"); std::vector<crypto::Signature> sg; unsigned ns = 0;
    if (kind == 0) { BaseInput x; x.blockIndex = (uint32_t)F(32); o.push_back(0xff); refWrite(o, x.blockIndex); t.inputs.push_back(x); }
    else if (kind == 1) { KeyInput x; x.amount = F(64); o.push_back(2); refWrite(o, x.amount); ns = (unsigned)sym_choice(3, "nidx"); refWrite(o, ns);
      for (unsigned j = 0; j < ns; j++) { x.outputIndexes.push_back((uint32_t)F(32)); refWrite(o, x.outputIndexes.back()); }
      x.keyImage = blob<crypto::KeyImage>("ki"); raw(o, &x.keyImage, 32); t.inputs.push_back(x); }
    else { MultisignatureInput x; x.amount = F(64); ns = x.signatureCount = (uint8_t)sym_choice(3, "nsig"); x.outputIndex = (uint32_t)F(32); x.term = (uint32_t)F(32);
      o.push_back(3); refWrite(o, x.amount); refWrite(o, ns); refWrite(o, x.outputIndex); refWrite(o, x.term); t.inputs.push_back(x); }
    for (unsigned j = 0; j < ns; j++) { sg.push_back(blob<crypto::Signature>("sig")); raw(sigs, &sg.back(), 64); }
    t.signatures.push_back(sg);
  }
  unsigned no = (unsigned)sym_choice(maxOut + 1, "no"); refWrite(o, no);
  for (unsigned i = 0; i < no; i++) {
    TransactionOutput x; x.amount = F(64); refWrite(o, x.amount);
    if (sym_choice(2, "outkind")) { KeyOutput k; k.key = blob<crypto::PublicKey>("key"); o.push_back(2); raw(o, &k.key, 32); x.target = k; }
    else { MultisignatureOutput m; unsigned nk = (unsigned)sym_choice(3, "nkeys"); o.push_back(3); refWrite(o, nk); for (unsigned j = 0; j < nk; j++) { m.keys.push_back(blob<crypto::PublicKey>("mkey")); raw(o, &m.keys.back(), 32); }
      m.requiredSignatureCount = (uint8_t)F(8); m.term = (uint32_t)F(32); refWrite(o, m.requiredSignatureCount); refWrite(o, m.term); x.target = m; }
    t.outputs.push_back(x);
  }
  unsigned ne = (unsigned)sym_choice(3, "nextra"); refWrite(o, ne); for (unsigned i = 0; i < ne; i++) { t.extra.push_back(sym_u8("extra")); o.push_back(t.extra.back()); }
  b.whole = o; raw(b.whole, sigs.data(), sigs.size());
}
static bool same(const void *a, const void *b, size_t n) { uint64_t d = 0; for (size_t i = 0; i < n; i++) d |= (uint64_t)(((const uint8_t *)a)[i] ^ ((const uint8_t *)b)[i]); return d == 0; }
static bool eq(const Bytes &a, const Bytes &b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
static void assertSame(const Transaction &a, const Transaction &b) {
  sym_assert((a.version == b.version) & (a.unlockTime == b.unlockTime), "version and unlock time");
  sym_assert(a.inputs.size() == b.inputs.size() && a.outputs.size() == b.outputs.size() && a.signatures.size() == b.signatures.size(), "counts");
  for (size_t i = 0; i < a.inputs.size(); i++) {
    sym_assert(a.inputs[i].type() == b.inputs[i].type(), "input kind");
    if (a.inputs[i].type() == typeid(BaseInput)) sym_assert(boost::get<BaseInput>(a.inputs[i]).blockIndex == boost::get<BaseInput>(b.inputs[i]).blockIndex, "height");
    else if (a.inputs[i].type() == typeid(KeyInput)) { auto &x = boost::get<KeyInput>(a.inputs[i]); auto &y = boost::get<KeyInput>(b.inputs[i]); sym_assert((x.amount == y.amount) & same(&x.keyImage, &y.keyImage, 32) && x.outputIndexes == y.outputIndexes, "key input"); }
    else { auto &x = boost::get<MultisignatureInput>(a.inputs[i]); auto &y = boost::get<MultisignatureInput>(b.inputs[i]); sym_assert((x.amount == y.amount) & (x.signatureCount == y.signatureCount) & (x.outputIndex == y.outputIndex) & (x.term == y.term), "multisignature input"); }
    sym_assert(a.signatures[i].size() == b.signatures[i].size() && same(a.signatures[i].data(), b.signatures[i].data(), 64 * a.signatures[i].size()), "signatures");
  }
  for (size_t i = 0; i < a.outputs.size(); i++) {
    sym_assert(a.outputs[i].amount == b.outputs[i].amount && a.outputs[i].target.type() == b.outputs[i].target.type(), "output");
    if (a.outputs[i].target.type() == typeid(KeyOutput)) sym_assert(same(&boost::get<KeyOutput>(a.outputs[i].target).key, &boost::get<KeyOutput>(b.outputs[i].target).key, 32), "output key");
    else { auto &x = boost::get<MultisignatureOutput>(a.outputs[i].target); auto &y = boost::get<MultisignatureOutput>(b.outputs[i].target); sym_assert((x.requiredSignatureCount == y.requiredSignatureCount) & (x.term == y.term) && x.keys.size() == y.keys.size() && same(x.keys.data(), y.keys.data(), 32 * x.keys.size()), "multisignature output"); }
  }
  sym_assert(eq(a.extra, b.extra), "extra");
}
static void txCheck(Built &b) {
  Bytes ba; sym_assert(toBinaryArray(b.tx, ba), "serialisable"); sym_observe("n", ba.size());
  sym_assert(eq(ba, b.whole), "a transaction serialises to its wire encoding");
  size_t sz = 0; sym_assert(getObjectBinarySize(b.tx, sz) && sz == ba.size(), "reported size");
  Transaction back; sym_assert(fromBinaryArray(back, ba), "own encoding is accepted"); assertSame(b.tx, back);
  switch (sym_choice(4, "damage")) {
  case 0: { Bytes x = ba; x.push_back(sym_u8("junk")); Transaction t; sym_assert(!fromBinaryArray(t, x), "trailing bytes are refused"); break; }
  case 1: { size_t cut = sym_choice(ba.size() < 12 ? ba.size() : 12, "cut"); Bytes x(ba.begin(), ba.end() - 1 - cut); Transaction t; sym_assert(!fromBinaryArray(t, x), "truncated transactions are refused"); break; }
  case 2: { Transaction t = b.tx; t.version = (uint8_t)(3 + sym_choice(2, "badver")); Bytes x; sym_assert(!toBinaryArray(t, x), "unknown version is not serialised"); x = ba; x[0] = t.version; sym_assert(!fromBinaryArray(t, x), "unknown version is refused"); break; }
  default: { Hash_check: Transaction t; crypto::Hash h, ph, h2, ph2; sym_assert(parseAndValidateTransactionFromBinaryArray(ba, t, h, ph), "accepted"); cn_fast_hash(b.whole.data(), b.whole.size(), (char *)&h2); cn_fast_hash(b.prefix.data(), b.prefix.size(), (char *)&ph2);
    sym_assert(same(&h, &h2, 32) && same(&ph, &ph2, 32), "transaction id is the hash of the encoding, prefix hash that of the unsigned part"); crypto::Hash h3 = getObjectHash(b.tx), ph3 = getObjectHash(static_cast<TransactionPrefix &>(b.tx)); sym_assert(same(&h3, &h2, 32) && same(&ph3, &ph2, 32), "same id from the object"); sym_cover("hash"); }
  }
}
#ifndef MAXIN
#define MAXIN 1
#define MAXOUT 1
#endif
extern "C" void tx_inputs() { fieldNo = 0; wideField = (unsigned)sym_choice(3 + 3 * MAXIN, "wide"); Built b; buildTx(b, MAXIN, 0, false); txCheck(b); }
extern "C" void tx_outputs() { fieldNo = 0; wideField = (unsigned)sym_choice(2 + 3 * MAXOUT, "wide"); Built b; buildTx(b, 0, MAXOUT, true); txCheck(b); }
extern "C" void block_rt() {
  fieldNo = 0; wideField = (unsigned)sym_choice(6, "wide"); Block k; Bytes hdr;
  k.majorVersion = (uint8_t)(sym_choice(9, "major")); k.minorVersion = (uint8_t)F(8); k.timestamp = F(64); k.previousBlockHash = blob<crypto::Hash>("prev"); k.nonce = sym_u32("nonce");
  refWrite(hdr, k.majorVersion); refWrite(hdr, k.minorVersion); refWrite(hdr, k.timestamp); raw(hdr, &k.previousBlockHash, 32); raw(hdr, &k.nonce, 4);
  Built b; buildTx(b, 0, 0, true); k.baseTransaction = b.tx; Bytes ref = hdr; raw(ref, b.whole.data(), b.whole.size());
  unsigned nh = (unsigned)sym_choice(4, "nh"); refWrite(ref, nh); for (unsigned i = 0; i < nh; i++) { k.transactionHashes.push_back(blob<crypto::Hash>("txh")); raw(ref, &k.transactionHashes.back(), 32); }
  Bytes ba; sym_assert(toBinaryArray(k, ba), "serialisable"); sym_observe("n", ba.size()); sym_assert(eq(ba, ref), "a block serialises to its wire encoding");
  Block q; sym_assert(fromBinaryArray(q, ba), "own encoding is accepted");
  sym_assert((q.majorVersion == k.majorVersion) & (q.minorVersion == k.minorVersion) & (q.timestamp == k.timestamp) & (q.nonce == k.nonce) & same(&q.previousBlockHash, &k.previousBlockHash, 32), "header");
  assertSame(q.baseTransaction, k.baseTransaction); sym_assert(q.transactionHashes.size() == nh && same(q.transactionHashes.data(), k.transactionHashes.data(), 32 * nh), "transaction hashes");
  switch (sym_choice(3, "damage")) {
  case 0: { Bytes x = ba; x.push_back(sym_u8("junk")); Block t; sym_assert(!fromBinaryArray(t, x), "trailing bytes are refused"); break; }
  case 1: { size_t cut = sym_choice(8, "cut"); Bytes x(ba.begin(), ba.end() - 1 - cut); Block t; sym_assert(!fromBinaryArray(t, x), "truncated blocks are refused"); break; }
  case 2: { Bytes x = ba; x[0] = sym_u8("ver"); sym_assume(x[0] > 8); Block t; sym_assert(!fromBinaryArray(t, x), "unknown block version is refused"); sym_cover("version"); break; }
  }
}
// Arbitrary bytes: whatever is accepted is the encoding of what was read (no two byte strings decode to one object).
#ifndef PARSEN
#define PARSEN 11
#endif
extern "C" void parse_canonical() {
  unsigned n = 7 + (unsigned)sym_choice(PARSEN - 6, "n"); Bytes x(n); sym_bytes(x.data(), n, "bytes");
  Transaction t; if (!fromBinaryArray(t, x)) { sym_cover("refused"); return; }
  sym_cover("accepted"); Bytes y; sym_assert(toBinaryArray(t, y), "re-serialisable"); sym_observe("n", y.size()); sym_assert(eq(x, y), "accepted bytes are the canonical encoding of the decoded transaction");
}
// A block id commits to the header, the miner transaction, every transaction hash and their number and order.
extern "C" void block_id() {
  Block k[2]; unsigned nh[2]; Bytes hb[2];
  for (int i = 0; i < 2; i++) {
    k[i].majorVersion = 7; k[i].minorVersion = (uint8_t)sym_range(0, 127, "minor"); k[i].timestamp = sym_range(0, 127, "ts"); k[i].nonce = sym_u32("nonce"); k[i].previousBlockHash = blob<crypto::Hash>("prev");
    Transaction &t = k[i].baseTransaction; t.version = 1; t.unlockTime = sym_range(0, 127, "unlock"); BaseInput bi; bi.blockIndex = (uint32_t)sym_range(0, 127, "height"); t.inputs.push_back(bi); t.signatures.resize(1);
    nh[i] = (unsigned)sym_choice(NHASH, "nh"); for (unsigned j = 0; j < nh[i]; j++) { crypto::Hash h; memset(&h, 0x5c, 32); uint64_t v = sym_u64("txh"); memcpy(&h, &v, 8); k[i].transactionHashes.push_back(h); }
    sym_assert(get_block_hashing_blob(k[i], hb[i]), "hashing blob");
  }
  bool blobEq = eq(hb[0], hb[1]);
  bool same2 = (k[0].minorVersion == k[1].minorVersion) & (k[0].timestamp == k[1].timestamp) & (k[0].nonce == k[1].nonce) & same(&k[0].previousBlockHash, &k[1].previousBlockHash, 32) & (k[0].baseTransaction.unlockTime == k[1].baseTransaction.unlockTime)
    & (boost::get<BaseInput>(k[0].baseTransaction.inputs[0]).blockIndex == boost::get<BaseInput>(k[1].baseTransaction.inputs[0]).blockIndex) & (nh[0] == nh[1]);
  if (nh[0] == nh[1]) same2 = same2 & same(k[0].transactionHashes.data(), k[1].transactionHashes.data(), 32 * nh[0]);
  sym_observe("eq", blobEq); sym_assert(blobEq == same2, "two blocks have the same id exactly when header, miner transaction and ordered transaction hashes agree");
  if (blobEq) sym_cover("same"); else sym_cover("different");
}
// Merkle root against the textbook definition, and branches verify against it.
static void refTree(const std::vector<crypto::Hash> &l, crypto::Hash &r) {
  if (l.size() == 1) { r = l[0]; return; }
  size_t p = 1; while (p * 2 < l.size() ) p *= 2; std::vector<crypto::Hash> v;   // p = largest power of two strictly below n
  size_t keep = 2 * p - l.size(); for (size_t i = 0; i < keep; i++) v.push_back(l[i]);
  for (size_t i = keep; i < l.size(); i += 2) { crypto::Hash h; cn_fast_hash(&l[i], 64, (char *)&h); v.push_back(h); }
  while (v.size() > 1) { std::vector<crypto::Hash> w; for (size_t i = 0; i < v.size(); i += 2) { crypto::Hash h; cn_fast_hash(&v[i], 64, (char *)&h); w.push_back(h); } v = w; }
  r = v[0];
}
extern "C" void merkle() {
  unsigned n = 1 + (unsigned)sym_choice(MERKLE, "n"); std::vector<crypto::Hash> l(n); for (auto &h : l) { memset(&h, 0x5c, 32); uint64_t v = sym_u64("leaf"); memcpy(&h, &v, 8); }
  crypto::Hash root, ref; crypto::tree_hash(l.data(), n, root); refTree(l, ref); sym_assert(same(&root, &ref, 32), "Merkle root");
  size_t depth = crypto::tree_depth(n); sym_observe("depth", depth); unsigned rd = 0; while ((2u << rd) <= n) rd++; sym_assert(depth == rd, "tree depth");
  std::vector<crypto::Hash> br(depth + 1); crypto::tree_branch(l.data(), n, br.data());
  crypto::Hash r2; crypto::tree_hash_from_branch(br.data(), depth, l[0], nullptr, r2); sym_assert(same(&r2, &root, 32), "the branch of the first leaf leads to the root");
  if (n == 5) sym_cover("five leaves");
}
