// Base58 and address strings, hex, amounts.
#include "sym.h"
#include "idealhash.h"
#include <algorithm>
#include "Common/Base58.h"
#include "Common/StringTools.h"
#include "Common/Varint.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "crypto/crypto.h"
#include "Logging/ILogger.h"
using namespace cn;
static logging::ILogger &LG() { return *reinterpret_cast<logging::ILogger *>(&LG); }
struct Cur { CurrencyBuilder b; Cur(bool testnet = false) : b(LG()) { if (testnet) b.testnet(true); } Currency &c() { return b.m_currency; } };
static bool same(const void *a, const void *b, size_t n) { uint64_t d = 0; for (size_t i = 0; i < n; i++) d |= (uint64_t)(((const uint8_t *)a)[i] ^ ((const uint8_t *)b)[i]); return d == 0; }
static bool eqs(const std::string &a, const std::string &b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
static std::string symstr(size_t n, const char *l) { std::string s(n, 0); if (n) sym_bytes(&s[0], n, l); return s; }
static const unsigned ENC[9] = {0, 2, 3, 5, 6, 7, 9, 10, 11};
// ---- base58 ----
// Every block is written as a sum of base-58 digits (each 64-bit number has exactly one such form), so digits are the symbolic inputs.
static const char AL58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
typedef unsigned __int128 u128;
struct Blk { uint64_t num; u128 wide; std::string text; };
static char sym58(uint64_t d) { static char t[58]; if (!t[0]) memcpy(t, AL58, 58); return t[d]; }
static Blk block(unsigned len, uint64_t max = 0) { // max: only numbers up to max, split by the first non-zero digit or the first digit that is below max's digit (so that no sum wraps)
  Blk b; b.num = 0; b.wide = 0; b.text.assign(len, '1'); unsigned lo[11], hi[11]; uint64_t p[11]; for (unsigned i = 0; i < len; i++) { lo[i] = 0; hi[i] = 57; p[i] = i ? p[i - 1] * 58 : 1; }
  if (max) {
    uint64_t m = max; unsigned dg[11]; for (unsigned i = 0; i < len; i++) { dg[i] = (unsigned)(m % 58); m /= 58; } unsigned k = (unsigned)sym_choice(2 * len + 1, "digits");
    if (k <= len) { for (unsigned i = 0; i <= k && i < len; i++) { unsigned x = len - 1 - i; if (i < k) lo[x] = hi[x] = dg[x]; else { if (!dg[x] || (!i && dg[x] == 1)) sym_assume(false); if (!i) lo[x] = 1; hi[x] = dg[x] - 1; } } }
    else { unsigned z = k - len; for (unsigned i = 0; i < z; i++) lo[len - 1 - i] = hi[len - 1 - i] = 0; if (z < len) lo[len - 1 - z] = 1; }
  }
  for (unsigned i = 0; i < len; i++) { uint64_t d = lo[i] == hi[i] ? lo[i] : lo[i] + (uint64_t)(sym_u8("d") % (hi[i] - lo[i] + 1)); b.num += p[i] * d; b.wide += (u128)p[i] * d; b.text[len - 1 - i] = sym58(d); }
  return b;
}
static std::string be(uint64_t v, unsigned n) { std::string s(n, 0); for (unsigned i = 0; i < n; i++) s[i] = (char)(uint8_t)(v >> (8 * (n - 1 - i))); return s; }
extern "C" void b58_encode() {
  unsigned n = 1 + (unsigned)sym_choice(8, "n"); Blk b = block(ENC[n], n == 8 ? ~0ULL : (1ULL << 8 * n) - 1);
  std::string e = tools::base_58::encode(be(b.num, n)); sym_observe("n", e.size()); sym_assert(e.size() == ENC[n], "encoded length"); sym_assert(eqs(e, b.text), "encoding is the base-58 number, most significant digit first, padded"); if (n == 8) sym_cover("full block");
}
extern "C" void b58_decode() {
  unsigned n = 1 + (unsigned)sym_choice(11, "n"); unsigned bs = 0; for (unsigned i = 1; i <= 8; i++) if (ENC[i] == n) bs = i; 
  Blk b = block(n); std::string d; bool ok = tools::base_58::decode(b.text, d); sym_observe("ok", ok); bool fits = bs == 8 ? b.wide <= ~0ULL : bs && b.wide < ((u128)1 << (8 * bs));
  sym_assert(ok == fits, "accepted exactly when the length exists and the number fits the block"); if (!ok) { sym_cover("refused"); return; }
  sym_cover("accepted"); sym_assert(d.size() == bs, "decoded length"); uint64_t v = 0; for (unsigned i = 0; i < bs; i++) v = v << 8 | (uint8_t)d[i]; sym_assert(v == b.num, "decoded number");
}
extern "C" void b58_symbols() { // one arbitrary byte anywhere in a text, and every length up to two blocks and a part
  unsigned n = (unsigned)sym_choice(SYMN + 1, "n"); std::string e(n, '1'), d, back; unsigned r = n % 11, bs = 0; bool okl = !r; for (unsigned i = 1; i <= 8; i++) if (ENC[i] == r) { okl = true; bs = i; } bool in = true;
  if (n) { unsigned p = (unsigned)sym_choice(n, "pos"); uint8_t c = sym_u8("c"); e[p] = (char)c; unsigned within = p % 11, blen = p / 11 < n / 11 ? 11 : r; in = false; for (int i = 0; i < 58; i++) in = in | (c == (uint8_t)AL58[i]); if (within == 0 && blen != 11) in = in; unsigned dig = 0; for (unsigned i = 0; i < 58; i++) dig += c == (uint8_t)AL58[i] ? i : 0;
    u128 o = 1; for (unsigned i = within + 1; i < blen; i++) o *= 58; u128 lim = (u128)1 << (8 * (blen == 11 ? 8 : bs)); in = in & (dig <= (uint64_t)((lim - 1) / o)); }
  bool ok = tools::base_58::decode(e, d); sym_observe("ok", ok); sym_assert(ok == (okl && in), "accepted exactly when the length exists, every symbol is of the alphabet and no block overflows");
  if (ok) { sym_cover("accepted"); sym_assert(d.size() == n / 11 * 8 + bs, "decoded length"); sym_assert(eqs(tools::base_58::encode(d), e), "encoding gives the text back"); } else sym_cover("refused");
}
// ---- addresses ----
static uint32_t le32(const std::string &s, size_t at) { uint32_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | (uint8_t)s[at + i]; return v; }
extern "C" void addr_encode() { // prefix, payload and checksum are laid out in this order, and the whole text is accepted again
  static const uint64_t TAGS[] = {0, 1, 127, 128, 0x7ad4, 1ULL << 21, 0x1234567890ULL, (1ULL << 56) - 1}; uint64_t tag = TAGS[sym_choice(8, "tag")]; unsigned n = 4 + (unsigned)sym_choice(5, "n"); std::string head; for (uint64_t t = tag; ; t >>= 7) { head += (char)(uint8_t)(t > 127 ? (t & 127) | 128 : t); if (t <= 127) break; }
  unsigned tl = (unsigned)head.size(); while (head.size() < 8) head += (char)(uint8_t)(head.size() * 57 + 129); Blk b = block(ENC[n], n == 8 ? ~0ULL : (1ULL << 8 * n) - 1); std::string raw = head + be(b.num, n), data = raw.substr(tl, 8 + n - 4 - tl); idealHashForce(le32(raw, raw.size() - 4));
  std::string t = tools::base_58::encode_addr(tag, data); sym_observe("n", t.size()); sym_assert(eqs(t.substr(11), b.text) && eqs(t.substr(0, 11), tools::base_58::encode(head)), "text of prefix, payload, checksum"); 
  uint64_t t2 = 0; std::string back; sym_assert(tools::base_58::decode_addr(t, t2, back), "own text is accepted"); sym_assert(t2 == tag && eqs(back, data), "prefix and payload come back"); sym_cover("ok");
}
extern "C" void addr_decode() { // whatever is accepted carries a matching checksum and a minimal prefix
  static const char HEAD[8][9] = {"\x05_23456\xff", "\x7f_2\x80_\xff_6", "\x80\x01-3456-", "\xd4\xf5\x01kkkkk", "\x80\x80\x80\x80\x80\x80\x80\x01", "\x80\x00_3_5__", "\xff\x80\x00_3_5_", "\xff\xff\xff\xff\xff\xff\xff\x7f"};
  unsigned hd = (unsigned)sym_choice(HEADS, "head") * 8 / HEADS, n = (unsigned)sym_choice(9, "n"); std::string head; for (unsigned i = 0; i < 8; i++) head += HEAD[hd][i]; std::string raw = head, text = tools::base_58::encode(head); if (n) { Blk b = block(ENC[n], n == 8 ? ~0ULL : (1ULL << 8 * n) - 1); raw += be(b.num, n); text += b.text; } n += 8;
  bool sum = true; if (n > 8) { unsigned p = (unsigned)sym_choice(5, "wrong byte"); std::string want = raw.substr(n - 4); if (p < 4) { want[p] = (char)(uint8_t)(want[p] + (sym_choice(2, "delta") ? 1 : 128)); sum = false; } idealHashForce(le32(want, 0)); }
  uint64_t tag = 0; std::string data; bool ok = tools::base_58::decode_addr(text, tag, data); sym_observe("ok", ok); if (n == 8) { crypto::Hash h; cn_fast_hash(raw.data(), n - 4, (char *)&h); sum = same(&h, raw.data() + n - 4, 4); } if (!sum) { sym_assert(!ok, "checksum must match"); sym_cover("bad checksum"); return; }
  uint64_t rt = 0; unsigned used = 0; bool pok = false; for (unsigned i = 0; i < 8 && i + 4 < n; i++) { uint8_t x = (uint8_t)raw[i]; rt |= (uint64_t)(x & 127) << (7 * i); if (!(x & 128)) { used = i + 1; pok = !(i && !x); break; } }
  if (!used) return; if (!pok) { sym_assert(!ok, "prefix must be minimal"); sym_cover("refused"); return; }
  sym_assert(ok, "a correct address text is accepted"); sym_cover("accepted"); sym_assert(tag == rt, "prefix"); sym_assert(eqs(data, raw.substr(used, n - 4 - used)), "payload");
}
extern "C" void addr_short() { unsigned n = (unsigned)sym_choice(5, "n"); std::string raw(n, 'x'), data; for (auto &c : raw) c = (char)sym_u8("byte"); uint64_t tag = 0; sym_assert(!tools::base_58::decode_addr(tools::base_58::encode(raw), tag, data), "too short for a checksum"); sym_observe("n", n); sym_cover("short"); }
static bool gKey[2]; static unsigned gKeys = 0; static crypto::PublicKey gSeen[2];
namespace crypto { bool crypto_ops::check_key(const PublicKey &k) { if (gKeys > 1) gKeys = 1; gSeen[gKeys] = k; return gKey[gKeys++]; } }
static std::string addrRaw(unsigned blk) { // the 71 bytes of an address, block blk symbolic
  std::string raw("\xd4\xf5\x01", 3); while (raw.size() < 71) raw += (char)(uint8_t)(raw.size() * 73 + 41);
  if (!blk) { unsigned p = 3 + (unsigned)sym_choice(5, "byte"); raw[p] = (char)sym_u8("byte value"); return raw; }
  unsigned n = blk == 8 ? 7 : 8; Blk b = block(ENC[n], n == 8 ? ~0ULL : (1ULL << 8 * n) - 1); return raw.replace(8 * blk, n, be(b.num, n));
}
extern "C" void address() {
  Cur k; const Currency &c = k.c(); unsigned blk = (unsigned)sym_choice(9, "block"); std::string raw = addrRaw(blk); AccountPublicAddress a, b; memcpy((char *)&a, raw.data() + 3, 64); gKey[0] = sym_bool("spend key valid"); gKey[1] = sym_bool("view key valid"); 
  idealHashForce(le32(raw, 67)); std::string s = c.accountAddressAsString(a); sym_observe("len", s.size()); sym_assert(s.size() == 98, "address length"); sym_assert(eqs(s.substr(0, 4), "ccx7"), "address begins with ccx7");
  gKeys = 0; bool ok = c.parseAccountAddressString(s, b); sym_assert(ok == (gKey[0] & gKey[1]), "own address is accepted when both keys are valid"); sym_assert(same(&a.spendPublicKey, &gSeen[0], 32), "spend key is checked"); if (!ok) { sym_cover("bad key"); return; }
  sym_assert(same(&a.spendPublicKey, &b.spendPublicKey, 32) & same(&a.viewPublicKey, &b.viewPublicKey, 32), "the same keys come back"); sym_assert(same(&a.viewPublicKey, &gSeen[1], 32), "view key is checked"); sym_cover("ok");
}
extern "C" void addr_foreign() { // texts with another prefix or a payload of another size
  Cur k; const Currency &c = k.c(); gKey[0] = gKey[1] = true; unsigned len = 62 + (unsigned)sym_choice(5, "len"); uint64_t tag = sym_choice(2, "which") ? 0x7ad4 : sym_choice(2, "near") ? 0x7a00 + sym_ubits(8, "prefix") : sym_ubits(7, "small prefix"); std::string data(len, 'k'); idealHashForce(0x5eadbeef);
  AccountPublicAddress b; bool ok = c.parseAccountAddressString(tools::base_58::encode_addr(tag, data), b); sym_observe("ok", ok); sym_assert(ok == (tag == 0x7ad4 && len == 64), "only this network's prefix and exactly two keys"); if (ok) sym_cover("ours"); else sym_cover("foreign");
}
// ---- hex ----
extern "C" void hex() {
  unsigned n = (unsigned)sym_choice(5, "n"); std::string d = symstr(n, "data"); std::string t = common::toHex(d.data(), n); sym_assert(t.size() == 2 * n, "two digits per byte"); sym_observe("n", t.size());
  for (size_t i = 0; i < t.size(); i++) { unsigned v = i & 1 ? (uint8_t)d[i / 2] & 15 : (uint8_t)d[i / 2] >> 4; sym_assert((uint8_t)t[i] == (v < 10 ? '0' + v : 'a' + v - 10), "lower-case digit"); }
  std::vector<uint8_t> back; sym_assert(common::fromHex(t, back) && back.size() == n && same(back.data(), d.data(), n), "decoding hex gives the bytes back");
  unsigned m = (unsigned)sym_choice(6, "m"); std::string x = symstr(m, "text"); bool good = !(m & 1); for (char ch : x) { uint8_t u = (uint8_t)ch; good = good & ((u >= '0' && u <= '9') || (u >= 'a' && u <= 'f') || (u >= 'A' && u <= 'F')); }
  std::vector<uint8_t> out; bool ok = common::fromHex(x, out); sym_assert(ok == good, "only complete hexadecimal text is accepted"); uint8_t buf[2]; size_t sz = 0; bool ok2 = common::fromHex(x, buf, 2, sz); sym_assert(ok2 == (good && m <= 4), "buffer size is respected"); bool thr = false; try { common::fromHex(x); } catch (std::exception &) { thr = true; } sym_assert(thr == !good, "throws on malformed text");
  if (ok) { sym_cover("accepted"); sym_assert(out.size() == m / 2, "length"); for (size_t i = 0; i < out.size(); i++) { unsigned v = 0; for (int j = 0; j < 2; j++) { uint8_t u = (uint8_t)x[2 * i + j]; v = v * 16 + (u <= '9' ? u - '0' : u >= 'a' ? u - 'a' + 10 : u - 'A' + 10); } sym_assert(out[i] == v, "value"); } } else sym_cover("refused");
}
// ---- amounts ----
extern "C" void amount_format() {
  Cur k; const Currency &c = k.c(); unsigned dg = 1 + (unsigned)sym_choice(AMDIG, "digits"); uint64_t lo = 1, a; for (unsigned i = 1; i < dg; i++) lo *= 10; a = sym_u64("amount"); sym_assume(a >= (dg == 1 ? 0 : lo)); if (dg < 20) sym_assume(a <= lo * 9 + (lo - 1)); 
  std::string s = c.formatAmount(a); sym_observe("n", s.size()); size_t dot = s.find('.'); sym_assert(dot != std::string::npos && s.size() - dot == 7 && dot >= 1, "six decimals");
  std::string d = s.substr(0, dot) + s.substr(dot + 1); size_t n = d.size(); if (n > dg) { for (size_t i = 0; i < n - dg; i++) sym_assert(d[i] == '0', "zero padding"); d = d.substr(n - dg); n = dg; } sym_assert(n == dg && (n >= 7 || dg < 7 ), "digits");
  uint64_t r = a; while (n) { unsigned q = (unsigned)(r % 100); sym_assert((uint8_t)d[n - 1] == '0' + q % 10, "digit"); if (n > 1) sym_assert((uint8_t)d[n - 2] == '0' + q / 10, "digit"); n = n > 1 ? n - 2 : 0; r /= 100; } 
  sym_cover("formatted");
}
extern "C" void amount_parse() { // reference: optional digits, at most one point, at most six significant decimals, no overflow
  Cur k; const Currency &c = k.c(); unsigned n = (unsigned)sym_choice(AMN + 1, "n"); std::string s = symstr(n, "text"); for (char ch : s) sym_assume((ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'x' || ch == ' ');
  size_t b = 0, e = n; while (b < e && s[b] == ' ') b++; while (e > b && s[e - 1] == ' ') e--; std::string t = s.substr(b, e - b); size_t dot = t.find('.'); bool ok = true; std::string ip = t.substr(0, dot), fp = dot == std::string::npos ? "" : t.substr(dot + 1); while (fp.size() > 6 && fp.back() == '0') fp.pop_back(); if (fp.size() > 6) ok = false; 
  unsigned __int128 v = 0; for (char ch : ip + fp) { if (!(ch >= '0' && ch <= '9')) ok = false; v = v * 10 + (uint8_t)(ch - '0'); } if (ip.empty() && fp.empty()) ok = false; for (size_t i = fp.size(); i < 6; i++) v *= 10; if (ok && v > ~0ULL) ok = false;
  uint64_t a = 0; bool got = c.parseAmount(s, a); sym_observe("ok", got); sym_assert(got == ok, "amount text is accepted exactly when it is a decimal number in range"); if (got) { sym_cover("accepted"); sym_assert(a == (uint64_t)v, "parsed amount"); } else sym_cover("refused");
}
extern "C" void amount_big() { // long numbers: the 64-bit limit
  Cur k; const Currency &c = k.c(); unsigned n = 13 + (unsigned)sym_choice(3, "n"); std::string s(n, '0'); unsigned __int128 v = 0; for (unsigned i = 0; i < n; i++) { uint8_t d = (uint8_t)sym_range(0, 9, "d"); if (i < 11) sym_assume(d == "18446744073"[i] - '0'); s[i] = (char)('0' + d); v = v * 10 + d; } s += "."; for (int i = 0; i < 6; i++) { uint8_t d = i < 3 ? (uint8_t)sym_range(0, 9, "d") : 0; s += (char)('0' + d); v = v * 10 + d; }
  uint64_t a = 0; bool ok = c.parseAmount(s, a); sym_observe("ok", ok); sym_assert(ok == (v <= ~0ULL), "amounts beyond 64 bits are refused"); if (ok) { sym_cover("fits"); sym_assert(a == (uint64_t)v, "value"); } else sym_cover("overflow");
}
extern "C" void amount_decimals() { // many decimals: beyond the sixth only zeros are acceptable
  Cur k; const Currency &c = k.c(); unsigned ni = (unsigned)sym_choice(3, "whole"), nf = (unsigned)sym_choice(17, "decimals"); std::string s; unsigned __int128 v = 0; bool ok = ni + nf > 0;
  for (unsigned i = 0; i < ni; i++) { uint8_t d = (uint8_t)sym_range(0, 9, "d"); s += (char)('0' + d); v = v * 10 + d; } s += "."; for (unsigned i = 0; i < nf; i++) { uint8_t d = (uint8_t)sym_range(0, 9, "d"); s += (char)('0' + d); if (i < 6) v = v * 10 + d; else ok &= d == 0; } for (unsigned i = nf; i < 6; i++) v *= 10;
  uint64_t a = 0; bool got = c.parseAmount(s, a); sym_observe("ok", got); sym_assert(got == ok, "decimals beyond the sixth are accepted only when zero"); if (got) { sym_cover("accepted"); sym_assert(a == (uint64_t)v, "parsed amount"); } else sym_cover("refused");
}
