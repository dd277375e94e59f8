// Transaction extra: fields written are read back, arbitrary bytes are read as the field grammar says.
#include "sym.h"
#include "idealhash.h"
#include <algorithm>
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "Common/StringTools.h"
#include "Common/Varint.h"
#include "crypto/crypto.h"
#include "crypto/chacha8.h"
using namespace cn;
typedef std::vector<uint8_t> Bytes;
static bool same(const void *a, const void *b, size_t n) { uint64_t d = 0; for (size_t i = 0; i < n; i++) d |= (uint64_t)(((const uint8_t *)a)[i] ^ ((const uint8_t *)b)[i]); return d == 0; }
struct Fld { int kind; size_t size; crypto::Hash h; Bytes d; uint64_t v; };   // 0 padding 1 pubkey 2 nonce 3 merge-mining 4 message 5 ttl
static bool rdVar(const Bytes &x, size_t &p, unsigned bits, uint64_t &v) {
  v = 0; for (unsigned s = 0;; s += 7) { if (p >= x.size()) return false; uint8_t b = x[p++], d = b & 127; if (s >= bits) return false; if (s + 7 > bits && (d >> (bits - s))) return false; v |= (uint64_t)d << s; if (!(b & 128)) { if (b == 0 && s) return false; return true; } }
}
static bool refParse(const Bytes &x, std::vector<Fld> &out) {
  size_t p = 0;
  while (p < x.size()) {
    uint8_t tag = x[p++]; Fld f; f.kind = tag;
    if (tag == 0) { size_t n = 1; while (p < x.size()) { if (x[p++] != 0) return false; n++; } if (n > 255) return false; f.size = n; }
    else if (tag == 1) { if (x.size() - p < 32) return false; memcpy(&f.h, &x[p], 32); p += 32; }
    else if (tag == 2) { if (p >= x.size()) return false; size_t n = x[p++]; if (x.size() - p < n) return false; f.d.assign(x.begin() + p, x.begin() + p + n); p += n; }
    else if (tag == 3) { uint64_t n; if (!rdVar(x, p, 64, n) || n > x.size() - p) return false; Bytes in(x.begin() + p, x.begin() + p + n); p += n; size_t q = 0; if (!rdVar(in, q, 64, f.v) || in.size() - q < 32) return false; memcpy(&f.h, &in[q], 32); }
    else if (tag == 4) { uint64_t n; if (!rdVar(x, p, 64, n) || n > x.size() - p) return false; f.d.assign(x.begin() + p, x.begin() + p + n); p += n; }
    else if (tag == 5) { uint64_t n; if (!rdVar(x, p, 8, n) || !rdVar(x, p, 64, f.v)) return false; }
    else continue;
    out.push_back(f);
  }
  return true;
}
static void assertField(const TransactionExtraField &g, const Fld &f) {
  sym_assert(g.which() == f.kind, "field kind");
  switch (f.kind) {
  case 0: sym_assert(boost::get<TransactionExtraPadding>(g).size == f.size, "padding length"); break;
  case 1: sym_assert(same(&boost::get<TransactionExtraPublicKey>(g).publicKey, &f.h, 32), "public key"); break;
  case 2: { auto &n = boost::get<TransactionExtraNonce>(g).nonce; sym_assert(n.size() == f.d.size() && same(n.data(), f.d.data(), n.size()), "nonce"); break; }
  case 3: { auto &m = boost::get<TransactionExtraMergeMiningTag>(g); sym_assert((m.depth == f.v) & same(&m.merkleRoot, &f.h, 32), "merge-mining tag"); break; }
  case 4: { auto &m = boost::get<tx_extra_message>(g).data; sym_assert(m.size() == f.d.size() && same(m.data(), f.d.data(), m.size()), "message"); break; }
  case 5: sym_assert(boost::get<TransactionExtraTTL>(g).ttl == f.v, "time to live"); break;
  }
}
static void compare(const Bytes &x) {
  std::vector<Fld> ref; bool rok = refParse(x, ref); std::vector<TransactionExtraField> got; bool ok = parseTransactionExtra(x, got);
  sym_observe("ok", ok); sym_observe("n", got.size()); sym_assert(ok == rok, "extra is readable exactly when it follows the field grammar");
  if (!ok) { sym_cover("unreadable"); return; }
  sym_cover("readable"); sym_assert(got.size() == ref.size(), "number of fields"); for (size_t i = 0; i < ref.size(); i++) assertField(got[i], ref[i]);
}
extern "C" void extra_parse() { unsigned n = (unsigned)sym_choice(EXTN + 1, "n"); Bytes x(n); if (n) sym_bytes(x.data(), n, "bytes"); compare(x); }
extern "C" void extra_parse_key() { unsigned a = (unsigned)sym_choice(4, "before"), b = (unsigned)sym_choice(4, "after"); Bytes x(a + 33 + b); sym_bytes(x.data(), x.size(), "bytes"); sym_assume(x[a] == 1); for (unsigned i = 0; i < a; i++) sym_assume(x[i] > 5); compare(x); }
extern "C" void extra_parse_mm() { unsigned b = 1 + (unsigned)sym_choice(3, "depthbytes"); Bytes x(2 + b + 32 + 1); sym_bytes(x.data(), x.size(), "bytes"); x[0] = 3; sym_assume(x[1] < 128); compare(x); }
// Round trip of what the code itself writes.
extern "C" void extra_roundtrip() {
  unsigned n = (unsigned)sym_choice(NFIELDS + 1, "n"), wide = (unsigned)sym_choice(n ? n : 1, "wide"); std::vector<TransactionExtraField> in; std::vector<Fld> ref;
  for (unsigned i = 0; i < n; i++) {
    Fld f; f.kind = (int)sym_choice(6, "kind"); f.v = 0;
    switch (f.kind) {
    case 0: { static const size_t z[4] = {1, 2, 3, 255}; f.size = z[sym_choice(4, "pad")]; sym_assume(i + 1 == n); in.push_back(TransactionExtraPadding{f.size}); sym_cover("padding"); break; }
    case 1: { TransactionExtraPublicKey k; sym_bytes(&k, 32, "key"); memcpy(&f.h, &k, 32); in.push_back(k); break; }
    case 2: { static const size_t z[4] = {0, 1, 5, 255}; TransactionExtraNonce k; k.nonce.resize(z[sym_choice(i == wide ? 4 : 2, "noncelen")]); if (k.nonce.size()) sym_bytes(k.nonce.data(), k.nonce.size(), "nonce"); f.d = k.nonce; in.push_back(k); break; }
    case 3: { TransactionExtraMergeMiningTag k; k.depth = f.v = sym_u64("depth"); if (i != wide) sym_assume(f.v < 128); sym_bytes(&k.merkleRoot, 32, "root"); f.h = k.merkleRoot; in.push_back(k); break; }
    case 4: { static const size_t z[4] = {0, 1, 127, 130}; tx_extra_message k; k.data.resize(z[sym_choice(i == wide ? 4 : 2, "msglen")]); if (k.data.size()) sym_bytes(&k.data[0], k.data.size(), "msg"); f.d.assign(k.data.begin(), k.data.end()); in.push_back(k); break; }
    case 5: { TransactionExtraTTL k; k.ttl = f.v = sym_u64("ttl"); if (i != wide) sym_assume(f.v < 128); in.push_back(k); break; }
    }
    ref.push_back(f);
  }
  Bytes x; sym_assert(writeTransactionExtra(x, in), "writable"); sym_observe("len", x.size()); std::vector<TransactionExtraField> got;
  sym_assert(parseTransactionExtra(x, got), "written extra is readable"); sym_assert(got.size() == n, "number of fields"); for (unsigned i = 0; i < n; i++) assertField(got[i], ref[i]);
  // first public key / merge-mining tag
  crypto::PublicKey pk = getTransactionPublicKeyFromExtra(x); const Fld *fk = nullptr, *fm = nullptr; for (auto &f : ref) { if (f.kind == 1 && !fk) fk = &f; if (f.kind == 3 && !fm) fm = &f; }
  crypto::Hash zero; memset(&zero, 0, 32); sym_assert(same(&pk, fk ? &fk->h : &zero, 32), "the transaction key is the first key field"); 
  TransactionExtraMergeMiningTag mt; bool hm = getMergeMiningTagFromExtra(x, mt); sym_assert(hm == (fm != nullptr), "merge-mining tag present"); if (fm) sym_assert((mt.depth == fm->v) & same(&mt.merkleRoot, &fm->h, 32), "merge-mining tag");
}
extern "C" void extra_limits() {
  std::vector<TransactionExtraField> in; Bytes x;
  if (sym_choice(2, "k")) { TransactionExtraNonce k; k.nonce.resize(256 + sym_choice(2, "n")); in.push_back(k); } else in.push_back(TransactionExtraPadding{256 + (size_t)sym_choice(2, "n")});
  sym_assert(!writeTransactionExtra(x, in), "oversized nonce or padding is refused");
}
// Payment ids: hex string -> extra -> id.
extern "C" void payment_id() {
  crypto::Hash h; sym_bytes(&h, 32, "id"); std::string hex = common::podToHex(h); Bytes x; if (sym_choice(2, "first")) { crypto::PublicKey k; sym_bytes(&k, 32, "key"); addTransactionPublicKeyToExtra(x, k); }
  sym_assert(createTxExtraWithPaymentId(hex, x), "accepted"); crypto::Hash g; sym_assert(getPaymentIdFromTxExtra(x, g), "found"); sym_assert(same(&g, &h, 32), "payment id read back"); sym_observe("len", x.size());
  std::string s; sym_assert(addPaymentIdToExtra(hex, s), "accepted"); Bytes y(s.begin(), s.end()); sym_assert(getPaymentIdFromTxExtra(y, g) && same(&g, &h, 32), "payment id read back");
  std::string bad = hex; size_t pos = sym_choice(64, "pos"); uint8_t c = sym_u8("c"); bad[pos] = (char)c; bool isHex = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); Bytes z;
  sym_assert(createTxExtraWithPaymentId(bad, z) == isHex, "only hexadecimal ids are accepted"); if (!isHex) sym_cover("bad id"); std::string sh = hex.substr(0, sym_choice(64, "len")); sym_assert(!createTxExtraWithPaymentId(sh, z), "short ids are refused");
}
extern "C" void nonce_id() { // a nonce holds a payment id exactly when it is the tag byte and 32 bytes
  unsigned n = 31 + (unsigned)sym_choice(4, "n"); Bytes x(n); sym_bytes(x.data(), n, "nonce"); crypto::Hash h; bool ok = getPaymentIdFromTransactionExtraNonce(x, h); sym_assert(ok == (n == 33 && x[0] == 0), "payment id nonce"); if (ok) { sym_cover("id"); sym_assert(same(&h, &x[1], 32), "id bytes"); } }
// Encrypted messages. The key exchange is an opaque stand-in giving both sides the same secret.
static crypto::KeyDerivation gD; 
namespace crypto { bool crypto_ops::generate_key_derivation(const PublicKey &, const SecretKey &, KeyDerivation &d) { d = gD; return true; } }
extern "C" void message() {
  sym_bytes(&gD, 32, "secret"); unsigned n = (unsigned)sym_choice(4, "n"); static const unsigned L[4] = {0, 1, 60, 72}; std::string m(L[n], 0); if (m.size()) sym_bytes(&m[0], m.size(), "msg"); size_t index = sym_u64("index"); AccountPublicAddress a; KeyPair kp; memset(&a, 0, sizeof a); memset(&kp, 0, sizeof kp); bool priv = sym_choice(2, "private");
  tx_extra_message t; sym_assert(t.encrypt(index, m, priv ? &a : nullptr, kp), "encrypted"); sym_assert(t.data.size() == m.size() + 4, "length"); sym_observe("len", t.data.size());
  std::string back; sym_assert(t.decrypt(index, kp.publicKey, priv ? &kp.secretKey : nullptr, back), "the recipient can read the message"); sym_assert(back.size() == m.size() && same(back.data(), m.data(), m.size()), "message read back"); sym_cover(priv ? "private" : "public");
  tx_extra_message u; unsigned k = (unsigned)sym_choice(4, "short"); u.data.assign(k, 0); sym_assert(!u.decrypt(0, kp.publicKey, nullptr, back), "too short to be a message");
  tx_extra_message w; w.data.resize(6); sym_bytes(&w.data[0], 6, "raw"); bool z = w.data[2] == 0 && w.data[3] == 0 && w.data[4] == 0 && w.data[5] == 0; sym_assert(w.decrypt(0, kp.publicKey, nullptr, back) == z, "checksum decides"); 
}
