// Integer (non-linear arithmetic) encoding of a bit-vector query. Wrap-around is encoded exactly where interval analysis
// (seeded with bounds found in the query's own conjuncts) cannot exclude it; operations with no arithmetic meaning
// become fresh variables, so an "unsat" answer is always sound and a "sat" answer is only used after evaluation.
#include "solver.h"
#include <algorithm>
#include <unordered_set>
#include <cstdio>
namespace {
struct Iv { u128 lo, hi; };
struct Enc {
  std::unordered_map<Expr *, Iv> bound, ivm; std::unordered_map<Expr *, unsigned> tzm; std::string out; unsigned fresh = 0;
  std::map<std::pair<std::string, std::string>, std::pair<std::string, std::string>> divs;
  static std::string num(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (unsigned)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
  static std::string pow2(unsigned k) { if (k < 128) return num((u128)1 << k); return "340282366920938463463374607431768211456"; }
  void meet(Expr *e, u128 lo, u128 hi) {
    auto it = bound.find(e); if (it == bound.end()) bound[e] = {lo, hi}; else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); }
    if (e->op == O_ZEXT) meet(e->k[0], lo, std::min(hi, maskw(e->k[0]->w)));
    if (e->op == O_ADD) for (int i = 0; i < 2; i++) if (isConst(e->k[i])) { Expr *y = e->k[1 - i]; u128 c = e->k[i]->c, a = (lo - c) & maskw(e->w), b = (hi - c) & maskw(e->w); if (a <= b) meet(y, a, b); }
    if (e->op == O_CONCAT && isConst(e->k[0]) && e->k[0]->c == 0) meet(e->k[1], lo & maskw(e->k[1]->w), std::min(hi, maskw(e->k[1]->w)));
  }
  void learn(Expr *c, bool neg) {
    if (c->op == O_XOR && c->w == 1) { if (isTrue(c->k[0])) return learn(c->k[1], !neg); if (isTrue(c->k[1])) return learn(c->k[0], !neg); }
    if (c->op == O_AND && c->w == 1 && !neg) { learn(c->k[0], false); learn(c->k[1], false); return; }
    if (c->op == O_OR && c->w == 1 && neg) { learn(c->k[0], true); learn(c->k[1], true); return; }
    if (c->op == O_EQ && !neg) { if (isConst(c->k[0])) meet(c->k[1], c->k[0]->c, c->k[0]->c); else if (isConst(c->k[1])) meet(c->k[0], c->k[1]->c, c->k[1]->c); return; }
    if (c->op == O_ULT || c->op == O_ULE) {
      Expr *a = c->k[0], *b = c->k[1]; bool strict = c->op == O_ULT;
      if (neg) { std::swap(a, b); strict = !strict; }     // !(a<b) == b<=a
      if (isConst(b)) { u128 h = b->c; if (strict) { if (!h) return; h--; } meet(a, 0, h); }
      if (isConst(a)) { u128 l = a->c; if (strict) { if (l == maskw(a->w)) return; l++; } meet(b, l, maskw(b->w)); }
    }
  }
  static bool mulOv(u128 a, u128 b, u128 &r) { if (a && b > ~(u128)0 / a) return true; r = a * b; return false; }
  unsigned tz(Expr *e) {
    auto it = tzm.find(e); if (it != tzm.end()) return it->second;
    unsigned r = 0;
    switch (e->op) {
    case O_CONST: r = e->w; for (unsigned i = 0; i < e->w; i++) if ((e->c >> i) & 1) { r = i; break; } break;
    case O_SHL: if (isConst(e->k[1])) r = std::min<u128>(e->w, e->k[1]->c + tz(e->k[0])); break;
    case O_MUL: r = std::min<unsigned>(e->w, tz(e->k[0]) + tz(e->k[1])); break;
    case O_AND: r = std::max(tz(e->k[0]), tz(e->k[1])); break;
    case O_OR: case O_ADD: case O_SUB: case O_XOR: r = std::min(tz(e->k[0]), tz(e->k[1])); break;
    case O_ITE: r = std::min(tz(e->k[1]), tz(e->k[2])); break;
    case O_CONCAT: { unsigned t = tz(e->k[1]); r = t >= e->k[1]->w ? e->k[1]->w + tz(e->k[0]) : t; break; }
    case O_ZEXT: { unsigned t = tz(e->k[0]); r = t >= e->k[0]->w ? e->w : t; break; }
    default: break;
    }
    return tzm[e] = std::min<unsigned>(r, e->w);
  }
  Iv iv(Expr *e) { auto it = ivm.find(e); return it == ivm.end() ? Iv{0, maskw(e->w)} : it->second; }
  Iv computeIv(Expr *e) {
    u128 M = maskw(e->w); Iv r{0, M};
    Iv a{0, M}, b{0, M}; if (e->k[0]) a = iv(e->k[0]); if (e->k[1]) b = iv(e->k[1]);
    switch (e->op) {
    case O_CONST: r = {e->c, e->c}; break;
    case O_ADD: { u128 lo = a.lo + b.lo, hi = a.hi + b.hi; bool ov = hi < a.hi || hi > M; if (!ov) r = {lo, hi};
      else for (int i = 0; i < 2; i++) if (isConst(e->k[i])) { u128 k = (~e->k[i]->c + 1) & M; Iv x = i ? a : b; if (k && x.lo >= k) r = {x.lo - k, x.hi - k}; } break; }
    case O_SUB: if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break;
    case O_MUL: { u128 h; if (!mulOv(a.hi, b.hi, h) && h <= M) r = {a.lo * b.lo, h}; break; }
    case O_UDIV: if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break;
    case O_UREM: if (b.lo) r = {0, std::min(a.hi, b.hi - 1)}; else r = {0, a.hi}; break;
    case O_AND: r = {0, std::min(a.hi, b.hi)}; break;
    case O_OR: { unsigned k = 0; u128 m = a.hi | b.hi; while (k < 128 && (m >> k)) k++; r = {std::max(a.lo, b.lo), std::min(M, maskw(k ? k : 1))}; break; }
    case O_XOR: { unsigned k = 0; u128 m = a.hi | b.hi; while (k < 128 && (m >> k)) k++; r = {0, std::min(M, maskw(k ? k : 1))}; break; }
    case O_SHL: if (isConst(e->k[1]) && e->k[1]->c < e->w) { u128 h; if (!mulOv(a.hi, (u128)1 << (unsigned)e->k[1]->c, h) && h <= M) r = {a.lo << (unsigned)e->k[1]->c, h}; } break;
    case O_LSHR: if (isConst(e->k[1]) && e->k[1]->c < e->w) r = {a.lo >> (unsigned)e->k[1]->c, a.hi >> (unsigned)e->k[1]->c}; else r = {0, a.hi}; break;
    case O_ITE: { Iv x = iv(e->k[1]), y = iv(e->k[2]); r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break; }
    case O_CONCAT: r = {(a.lo << e->k[1]->w) | b.lo, (a.hi << e->k[1]->w) | b.hi}; break;
    case O_EXTRACT: { if (e->aux == 0 && a.hi <= M) r = a; else if ((a.hi >> e->aux) <= M) r = {a.lo >> e->aux, a.hi >> e->aux}; break; }
    case O_ZEXT: r = a; break;
    default: break;
    }
    if (e->w <= 64) { r.lo = std::max<u128>(r.lo, e->lo); r.hi = std::min<u128>(r.hi, e->hi); }
    auto it = bound.find(e); if (it != bound.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
    if (r.lo > r.hi) r = {0, M};
    return r;
  }
  std::string nm(Expr *e) {
    if (e->op == O_CONST) return e->w == 1 ? (e->c ? "true" : "false") : num(e->c);
    char b[32]; snprintf(b, 32, e->op == O_VAR ? "v%u" : "e%u", e->op == O_VAR ? e->aux : e->id); return b;
  }
  std::string in(Expr *e) { return e->w == 1 && e->op != O_CONST ? "(ite " + nm(e) + " 1 0)" : e->w == 1 ? num(e->c) : nm(e); }
  std::string freshVar(u128 lo, const std::string &hiExcl) { char b[32]; snprintf(b, 32, "f%u", fresh++); out += std::string("(declare-fun ") + b + " () Int)\n(assert (and (<= " + num(lo) + " " + b + ") (< " + b + " " + hiExcl + ")))\n"; return b; }
  // quotient and remainder of a by positive (or assumed positive) b
  std::pair<std::string, std::string> dm(const std::string &a, const std::string &b, bool bnz) {
    auto key = std::make_pair(a, b); auto it = divs.find(key); if (it != divs.end()) return it->second;
    char q[32], r[32]; snprintf(q, 32, "q%u", fresh); snprintf(r, 32, "r%u", fresh++);
    out += std::string("(declare-fun ") + q + " () Int)\n(declare-fun " + r + " () Int)\n";
    std::string d = std::string("(and (= ") + a + " (+ (* " + b + " " + q + ") " + r + ")) (<= 0 " + r + ") (< " + r + " " + b + ") (<= 0 " + q + ") (<= " + q + " " + a + "))";
    out += bnz ? "(assert " + d + ")\n" : "(assert (=> (> " + b + " 0) " + d + "))\n";
    return divs[key] = {q, r};
  }
  std::string sgn(Expr *e) { Iv i = iv(e); std::string n = in(e); u128 h = (u128)1 << (e->w - 1); if (i.hi < h) return n; if (i.lo >= h) return "(- " + n + " " + pow2(e->w) + ")"; return "(ite (< " + n + " " + pow2(e->w - 1) + ") " + n + " (- " + n + " " + pow2(e->w) + "))"; }
  std::string term(Expr *e) {
    unsigned w = e->w; u128 M = maskw(w); Expr *A = e->k[0], *B = e->k[1], *C = e->k[2];
    auto F = [&]() { if (w == 1) { char b[32]; snprintf(b, 32, "f%u", fresh++); out += std::string("(declare-fun ") + b + " () Bool)\n"; return std::string(b); } Iv i = iv(e); return freshVar(i.lo, i.hi == ~(u128)0 ? pow2(128) : num(i.hi + 1)); };
    if (w == 1) switch (e->op) {
      case O_AND: return "(and " + nm(A) + " " + nm(B) + ")";
      case O_OR: return "(or " + nm(A) + " " + nm(B) + ")";
      case O_XOR: case O_ADD: case O_SUB: return "(xor " + nm(A) + " " + nm(B) + ")";
      case O_MUL: return "(and " + nm(A) + " " + nm(B) + ")";
      case O_ITE: return "(ite " + nm(A) + " " + nm(B) + " " + nm(C) + ")";
      case O_EQ: return "(= " + nm(A) + " " + nm(B) + ")";
      case O_ULT: return "(< " + in(A) + " " + in(B) + ")";
      case O_ULE: return "(<= " + in(A) + " " + in(B) + ")";
      case O_SLT: return "(< " + sgn(A) + " " + sgn(B) + ")";
      case O_SLE: return "(<= " + sgn(A) + " " + sgn(B) + ")";
      case O_EXTRACT: { std::string x = in(A); if (e->aux) x = dm(x, pow2(e->aux), true).first; if ((iv(A).hi >> e->aux) > 1) x = dm(x, "2", true).second; return "(= 1 " + x + ")"; }
      default: return F();
    }
    Iv a{0, 0}, b{0, 0}; if (A) a = iv(A); if (B) b = iv(B);
    std::string x = A ? in(A) : "", y = B ? in(B) : "";
    switch (e->op) {
    case O_ADD: { u128 h = a.hi + b.hi; if (h >= a.hi && h <= M) return "(+ " + x + " " + y + ")";
      for (int i = 0; i < 2; i++) if (isConst(e->k[i])) { u128 k = (~e->k[i]->c + 1) & M; Iv z = i ? a : b; std::string n = i ? x : y; if (z.lo >= k) return "(- " + n + " " + num(k) + ")"; if (k <= M / 2) return "(ite (>= " + n + " " + num(k) + ") (- " + n + " " + num(k) + ") (+ " + n + " " + num(e->k[i]->c) + "))"; }
      return "(let ((s (+ " + x + " " + y + "))) (ite (< s " + pow2(w) + ") s (- s " + pow2(w) + ")))"; }
    case O_SUB: if (a.lo >= b.hi) return "(- " + x + " " + y + ")"; return "(let ((s (- " + x + " " + y + "))) (ite (>= s 0) s (+ s " + pow2(w) + ")))";
    case O_MUL: { u128 h; std::string p = "(* " + x + " " + y + ")"; if (!mulOv(a.hi, b.hi, h) && h <= M) return p; return dm(p, pow2(w), true).second; }
    case O_UDIV: { auto d = dm(x, y, b.lo > 0); return b.lo > 0 ? d.first : "(ite (= " + y + " 0) " + num(M) + " " + d.first + ")"; }
    case O_UREM: { auto d = dm(x, y, b.lo > 0); return b.lo > 0 ? d.second : "(ite (= " + y + " 0) " + x + " " + d.second + ")"; }
    case O_SDIV: case O_SREM: { u128 h = (u128)1 << (w - 1); if (a.hi < h && b.hi < h && b.lo > 0) { auto d = dm(x, y, true); return e->op == O_SDIV ? d.first : d.second; } return F(); }
    case O_AND: for (int i = 0; i < 2; i++) if (isConst(e->k[i])) { u128 c = e->k[i]->c; std::string n = i ? x : y; Iv z = i ? a : b;
        if (((c + 1) & c) == 0) { if (z.hi <= c) return n; return dm(n, num(c + 1), true).second; }
        u128 nc = ~c & M; if (((nc + 1) & nc) == 0) return "(- " + n + " " + dm(n, num(nc + 1), true).second + ")";
        // contiguous run of ones
        unsigned t = tz(e->k[i]); u128 s = c >> t; if (((s + 1) & s) == 0) { std::string q = dm(n, pow2(t), true).first; if ((z.hi >> t) > s) q = dm(q, num(s + 1), true).second; return "(* " + pow2(t) + " " + q + ")"; } }
      { std::string f = F(); out += "(assert (and (<= " + f + " " + x + ") (<= " + f + " " + y + ")))\n"; return f; }
    case O_OR: case O_XOR: {
      unsigned ta = tz(A), tb = tz(B);
      if ((tb < 128 && a.hi < ((u128)1 << tb)) || (ta < 128 && b.hi < ((u128)1 << ta))) return "(+ " + x + " " + y + ")";
      if (e->op == O_XOR) { if (isConst(A) && A->c == M) return "(- " + num(M) + " " + y + ")"; if (isConst(B) && B->c == M) return "(- " + num(M) + " " + x + ")"; }
      std::string f = F();
      if (ta && ta < 128) out += "(assert (=> (< " + y + " " + pow2(ta) + ") (= " + f + " (+ " + x + " " + y + "))))\n";
      if (tb && tb < 128) out += "(assert (=> (< " + x + " " + pow2(tb) + ") (= " + f + " (+ " + x + " " + y + "))))\n";
      if (e->op == O_OR) out += "(assert (and (>= " + f + " " + x + ") (>= " + f + " " + y + ") (<= " + f + " (+ " + x + " " + y + "))))\n"; return f; }
    case O_SHL: if (isConst(B) && B->c < w) { u128 h; std::string p = "(* " + pow2((unsigned)B->c) + " " + x + ")"; if (!mulOv(a.hi, (u128)1 << (unsigned)B->c, h) && h <= M) return p; return dm(p, pow2(w), true).second; } return F();
    case O_LSHR: if (isConst(B) && B->c < w) return dm(x, pow2((unsigned)B->c), true).first; return F();
    case O_ASHR: if (isConst(B) && B->c < w && a.hi < ((u128)1 << (w - 1))) return dm(x, pow2((unsigned)B->c), true).first; return F();
    case O_ITE: return "(ite " + nm(A) + " " + y + " " + in(C) + ")";
    case O_CONCAT: if (isConst(A) && A->c == 0) return y; return "(+ (* " + pow2(B->w) + " " + x + ") " + y + ")";
    case O_EXTRACT: { std::string z = x; if (e->aux) z = dm(z, pow2(e->aux), true).first; if ((a.hi >> e->aux) > M) z = dm(z, pow2(w), true).second; return z; }
    case O_ZEXT: return x;
    case O_SEXT: { u128 h = (u128)1 << (A->w - 1); if (a.hi < h) return x; std::string add = num(maskw(w) - maskw(A->w)); return "(ite (< " + x + " " + pow2(A->w - 1) + ") " + x + " (+ " + x + " " + add + "))"; }
    default: return F();
    }
  }
};
}
std::string toInt2(const std::vector<Expr *> &cs) {
  Enc E;
  for (auto *c : cs) E.learn(c, false);
  std::unordered_set<Expr *> seen; std::vector<std::pair<Expr *, bool>> stk; std::vector<Expr *> vars;
  E.out = "(set-logic QF_NIA)\n(set-option :produce-models true)\n";
  for (auto *c : cs) stk.push_back({c, false});
  while (!stk.empty()) {
    auto [e, done] = stk.back(); stk.pop_back();
    if (done) {
      E.ivm[e] = E.computeIv(e); std::string t = E.term(e);
      E.out += "(define-fun " + E.nm(e) + " () " + (e->w == 1 ? "Bool " : "Int ") + t + ")\n"; continue;
    }
    if (!seen.insert(e).second) continue;
    if (e->op == O_VAR || e->op == O_CONST) {
      E.ivm[e] = E.computeIv(e);
      if (e->op == O_VAR) { vars.push_back(e); if (e->w == 1) E.out += "(declare-fun " + E.nm(e) + " () Bool)\n"; else { Iv i = E.ivm[e]; E.out += "(declare-fun " + E.nm(e) + " () Int)\n(assert (and (<= " + E.num(i.lo) + " " + E.nm(e) + ") (<= " + E.nm(e) + " " + E.num(i.hi) + ")))\n"; } }
      continue;
    }
    stk.push_back({e, true});
    if (e->op >= O_FADD) { seen.insert(e); stk.pop_back(); E.ivm[e] = E.computeIv(e->w <= 128 ? e : e); std::string t; { // opaque
        if (e->w == 1) { char b[32]; snprintf(b, 32, "f%u", E.fresh++); E.out += std::string("(declare-fun ") + b + " () Bool)\n"; t = b; } else t = E.freshVar(0, E.pow2(e->w)); }
      E.out += "(define-fun " + E.nm(e) + " () " + (e->w == 1 ? "Bool " : "Int ") + t + ")\n"; continue; }
    for (int i = 0; i < 3; i++) if (e->k[i]) stk.push_back({e->k[i], false});
  }
  for (auto *c : cs) E.out += "(assert " + E.nm(c) + ")\n";
  E.out += "(check-sat)\n";
  if (!vars.empty()) { E.out += "(get-value ("; for (auto *v : vars) E.out += E.nm(v) + " "; E.out += "))\n"; }
  return E.out;
}
