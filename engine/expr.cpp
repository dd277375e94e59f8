#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <algorithm>

const char *opNames[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","fptrunc","fpext","uitofp","sitofp","fptoui","fptosi"};
std::vector<VarInfo> gVars;

static std::vector<Expr *> tab(1 << 16, nullptr);
static size_t tabCount = 0;
static uint32_t nextId = 1;
size_t exprCount() { return tabCount; }

static Expr *arenaAlloc() {
  static Expr *cur = nullptr; static size_t left = 0;
  if (!left) { left = 4096; cur = (Expr *)malloc(sizeof(Expr) * left); }
  --left; return cur++;
}

static std::unordered_map<uint64_t, std::vector<VarSet *>> vsTab;
static VarSet *emptyVS() { static VarSet *e = new VarSet(); return e; }
static VarSet *internVS(std::vector<uint32_t> &v) {
  uint64_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; }
  auto &b = vsTab[h];
  for (auto *s : b) if (s->v == v) return s;
  auto *s = new VarSet(); s->v = v; b.push_back(s); return s;
}
struct PairHash { size_t operator()(const std::pair<VarSet*,VarSet*>&p) const { return ((size_t)p.first>>4)*31 + ((size_t)p.second>>4); } };
static std::unordered_map<std::pair<VarSet *, VarSet *>, VarSet *, PairHash> unionMemo;
static VarSet *unionVS(VarSet *a, VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair(a, b);
  auto it = unionMemo.find(key); if (it != unionMemo.end()) return it->second;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  VarSet *s = internVS(r); unionMemo[key] = s; return s;
}

static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

static void setRange(Expr *e) {
  if (e->w > 64) { e->lo = 0; e->hi = ~0ULL; return; }
  uint64_t M = mask64(e->w);
  uint64_t lo = 0, hi = M;
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case O_CONST: lo = hi = (uint64_t)e->c; break;
  case O_ZEXT: lo = a->lo; hi = a->hi; break;
  case O_ADD: { u128 h = (u128)a->hi + b->hi; if (h <= M) { lo = a->lo + b->lo; hi = (uint64_t)h; }
      else { // const negative: x + (-c) with x.lo >= c
        if (a->op == O_CONST) { uint64_t neg = (uint64_t)((0 - (uint64_t)a->c) & M); if (neg && b->lo >= neg) { lo = b->lo - neg; hi = b->hi - neg; } } } break; }
  case O_SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
  case O_MUL: { u128 h = (u128)a->hi * b->hi; if (h <= M) { lo = a->lo * b->lo; hi = (uint64_t)h; } break; }
  case O_UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
  case O_UREM: if (b->lo > 0) { hi = std::min(a->hi, b->hi - 1); } break;
  case O_AND: hi = std::min(a->hi, b->hi); break;
  case O_OR: { lo = std::max(a->lo, b->lo); uint64_t m = a->hi | b->hi; while (m & (m + 1)) m |= m >> 1; m |= m>>1; m|=m>>2;m|=m>>4;m|=m>>8;m|=m>>16;m|=m>>32; hi = m & M; break; }
  case O_XOR: { uint64_t m = a->hi | b->hi; m |= m>>1; m|=m>>2;m|=m>>4;m|=m>>8;m|=m>>16;m|=m>>32; hi = m & M; break; }
  case O_LSHR: if (b->op == O_CONST && b->c < e->w) { lo = a->lo >> (uint64_t)b->c; hi = a->hi >> (uint64_t)b->c; } else hi = a->hi; break;
  case O_ITE: lo = std::min(e->k[1]->lo, e->k[2]->lo); hi = std::max(e->k[1]->hi, e->k[2]->hi); break;
  case O_CONCAT: lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; break;
  case O_EXTRACT: if (a->w <= 64 && e->aux == 0 && a->hi <= M) { lo = a->lo; hi = a->hi; }
      else if (a->w <= 64 && e->aux + e->w == a->w) { lo = a->lo >> e->aux; hi = a->hi >> e->aux; } break;
  default: break;
  }
  e->lo = lo; e->hi = hi;
}

static Expr *intern(Op op, unsigned w, Expr *a, Expr *b, Expr *c3, uint32_t aux, u128 cv) {
  uint64_t h = hmix(op * 1315423911u + w, aux);
  h = hmix(h, a ? a->id : 0); h = hmix(h, b ? b->id : 0); h = hmix(h, c3 ? c3->id : 0);
  h = hmix(h, (uint64_t)cv); h = hmix(h, (uint64_t)(cv >> 64));
  size_t m = tab.size() - 1, i = h & m;
  while (Expr *e = tab[i]) {
    if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->k[0] == a && e->k[1] == b && e->k[2] == c3 && e->c == cv) return e;
    i = (i + 1) & m;
  }
  Expr *e = arenaAlloc();
  e->op = op; e->w = w; e->aux = aux; e->id = nextId++; e->ep = 0; e->k[0] = a; e->k[1] = b; e->k[2] = c3; e->c = cv; e->hash = h;
  VarSet *vs = emptyVS();
  bool fp = op >= O_FADD;
  for (int j = 0; j < 3; j++) if (e->k[j]) { vs = unionVS(vs, e->k[j]->vars); fp |= e->k[j]->isfp; }
  if (op == O_VAR) { std::vector<uint32_t> v{aux}; vs = internVS(v); }
  e->vars = vs; e->isfp = fp;
  setRange(e);
  tab[i] = e; tabCount++;
  if (tabCount * 2 > tab.size()) {
    std::vector<Expr *> nt(tab.size() * 2, nullptr); size_t nm = nt.size() - 1;
    for (auto *x : tab) if (x) { size_t j = x->hash & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
    tab.swap(nt);
  }
  return e;
}

Expr *mkConst(u128 v, unsigned w) {
  if (w > 128) { // wide constants are built from 64-bit pieces (value zero-extended)
    Expr *r = intern(O_CONST, 128, 0, 0, 0, 0, v); unsigned have = 128;
    while (have < w) { unsigned n = std::min(64u, w - have); r = intern(O_CONCAT, have + n, intern(O_CONST, n, 0, 0, 0, 0, 0), r, 0, 0, 0); have += n; }
    return r;
  }
  return intern(O_CONST, w, 0, 0, 0, 0, v & maskw(w));
}
Expr *mkTrue() { static Expr *e = mkConst(1, 1); return e; }
Expr *mkFalse() { static Expr *e = mkConst(0, 1); return e; }
Expr *mkVar(const std::string &name, unsigned w) {
  uint32_t ix = gVars.size(); gVars.push_back({name, (uint16_t)w, nullptr});
  Expr *e = intern(O_VAR, w, 0, 0, 0, ix, 0); gVars[ix].e = e; return e;
}

static inline s128 sx(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ s) - s); }

static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 frF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 frD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

u128 foldBin(Op op, unsigned w, u128 a, u128 b, bool &ok) {
  ok = true;
  u128 M = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & M;
  case O_SUB: return (a - b) & M;
  case O_MUL: return (a * b) & M;
  case O_UDIV: if (!b) return M; return (a / b) & M;
  case O_UREM: if (!b) return a; return (a % b) & M;
  case O_SDIV: { s128 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? (u128)1 : M) & M; if (y == -1) return (u128)(0 - (u128)x) & M; return (u128)(x / y) & M; }
  case O_SREM: { s128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
  case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b) & M;
  case O_ASHR: { s128 x = sx(a, w); unsigned n = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> n) & M; }
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sx(a, w) < sx(b, w);
  case O_SLE: return sx(a, w) <= sx(b, w);
  case O_FADD: return w == 32 ? frF(asF(a) + asF(b)) : frD(asD(a) + asD(b));
  case O_FSUB: return w == 32 ? frF(asF(a) - asF(b)) : frD(asD(a) - asD(b));
  case O_FMUL: return w == 32 ? frF(asF(a) * asF(b)) : frD(asD(a) * asD(b));
  case O_FDIV: return w == 32 ? frF(asF(a) / asF(b)) : frD(asD(a) / asD(b));
  case O_FEQ: return w == 32 ? asF(a) == asF(b) : asD(a) == asD(b);
  case O_FLT: return w == 32 ? asF(a) < asF(b) : asD(a) < asD(b);
  case O_FLE: return w == 32 ? asF(a) <= asF(b) : asD(a) <= asD(b);
  case O_FUNO: return w == 32 ? (std::isnan(asF(a)) || std::isnan(asF(b))) : (std::isnan(asD(a)) || std::isnan(asD(b)));
  default: ok = false; return 0;
  }
}
u128 foldFcast(Op op, unsigned wi, unsigned wo, u128 a) {
  switch (op) {
  case O_FPTRUNC: return frF((float)asD(a));
  case O_FPEXT: return frD((double)asF(a));
  case O_UITOFP: if (wi <= 64) return wo == 32 ? frF((float)(uint64_t)a) : frD((double)(uint64_t)a); return wo == 32 ? frF((float)a) : frD((double)a);
  case O_SITOFP: return wo == 32 ? frF((float)sx(a, wi)) : frD((double)sx(a, wi));
  case O_FPTOUI: case O_FPTOSI: {
    double d = wi == 32 ? (double)asF(a) : asD(a);
    if (std::isnan(d)) return 0;
    if (d >= 1.0e38 || d <= -1.0e38) return 0;
    s128 v = (s128)d; return (u128)v & maskw(wo); }
  default: return 0;
  }
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (w == a->w) return a;
  switch (a->op) {
  case O_CONST: return mkConst(a->c >> lo, w);
  case O_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
  case O_CONCAT: {
    Expr *h = a->k[0], *l = a->k[1];
    if (lo >= l->w) return mkExtract(h, lo - l->w, w);
    if (lo + w <= l->w) return mkExtract(l, lo, w);
    unsigned wl = l->w - lo;
    return mkConcat(mkExtract(h, 0, w - wl), mkExtract(l, lo, wl));
  }
  case O_ZEXT: {
    Expr *x = a->k[0];
    if (lo >= x->w) return mkConst(0, w);
    if (lo + w <= x->w) return mkExtract(x, lo, w);
    return mkZext(mkExtract(x, lo, x->w - lo), w);
  }
  case O_SEXT: {
    Expr *x = a->k[0];
    if (lo + w <= x->w) return mkExtract(x, lo, w);
    if (lo < x->w) return mkSext(mkExtract(x, lo, x->w - lo), w);
    return mkSext(mkExtract(x, x->w - 1, 1), w);
  }
  case O_ITE: {
    if (isConst(a->k[1]) || isConst(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  }
  case O_AND: case O_OR: case O_XOR:
    return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0 && !(a->op == O_ADD && w <= 32 && a->w >= 32 && ((a->k[0]->op == O_ADD && !isConst(a->k[0]->k[0])) || (a->k[1]->op == O_ADD && !isConst(a->k[1]->k[0]))))) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  default: break;
  }
  if (a->w <= 64 && (a->hi >> lo) == 0) return mkConst(0, w);
  return intern(O_EXTRACT, w, a, 0, 0, lo, 0);
}

Expr *mkZext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isConst(a) && w <= 128) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  if (a->op == O_CONCAT && isConst(a->k[0]) && a->k[0]->c == 0) return mkZext(a->k[1], w);
  return intern(O_ZEXT, w, a, 0, 0, 0, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isConst(a) && w <= 128) return mkConst((u128)sx(a->c, a->w), w);
  if (a->op == O_SEXT) return mkSext(a->k[0], w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->w <= 64 && a->w > 1 && !(a->hi >> (a->w - 1))) return mkZext(a, w);
  if (a->op == O_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(O_SEXT, w, a, 0, 0, 0, 0);
}

static Expr *tryMerge(Expr *a, Expr *b) { // a is high part
  if (isConst(a) && isConst(b) && a->w + b->w <= 128) return mkConst((a->c << b->w) | b->c, a->w + b->w);
  if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w) return mkExtract(a->k[0], b->aux, a->w + b->w);
  if (a->op == O_EXTRACT && a->aux >= b->w && !isConst(b) && mkExtract(a->k[0], a->aux - b->w, b->w) == b) return mkExtract(a->k[0], a->aux - b->w, a->w + b->w);
  return nullptr;
}
Expr *mkConcat(Expr *a, Expr *b) {
  if (Expr *m = tryMerge(a, b)) return m;
  if (a->op == O_CONCAT) return mkConcat(a->k[0], mkConcat(a->k[1], b));
  if (b->op == O_CONCAT) { if (Expr *m = tryMerge(a, b->k[0])) return mkConcat(m, b->k[1]); }
  if (isConst(a) && a->c == 0) return mkZext(b, a->w + b->w);
  if (a->op == O_ZEXT) return mkZext(mkConcat(a->k[0], b), a->w + b->w);
  if (b->op == O_ZEXT && !(isConst(a))) {
    // concat(a, zext(x)) -> concat(a, concat(0, x)) so merging works on the low part
    Expr *x = b->k[0]; Expr *z = mkConst(0, b->w - x->w);
    Expr *low = intern(O_CONCAT, b->w, z, x, 0, 0, 0);
    return intern(O_CONCAT, a->w + b->w, a, low, 0, 0, 0);
  }
  if (a->op == O_ITE && b->op == O_ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mkConcat(a->k[1], b->k[1]), mkConcat(a->k[2], b->k[2]));
  if (a->op == O_EXTRACT && b->op == O_ITE && 0) return nullptr;
  // sign/zero extension pieces: extract(sext) are simplified in mkExtract already
  if (a->op == O_SEXT && b->op == O_EXTRACT && 0) return nullptr;
  return intern(O_CONCAT, a->w + b->w, a, b, 0, 0, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isConst(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isConst(c->k[0])) return mkIte(c->k[1], b, a); // not
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isFalse(b)) return mkAnd(c, a);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == O_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  if (a->op == O_ZEXT && !isConst(b)) { if (b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkIte(c, a->k[0], b->k[0]), a->w); }
  else if (a->op == O_ZEXT && (b->c >> a->k[0]->w) == 0) return mkZext(mkIte(c, a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
  else if (b->op == O_ZEXT && isConst(a) && (a->c >> b->k[0]->w) == 0) return mkZext(mkIte(c, mkConst(a->c, b->k[0]->w), b->k[0]), b->w);
  if (c->op == O_ULT || c->op == O_ULE) {   // one form for every spelling of min/max
    Expr *p = c->k[0], *q = c->k[1];
    auto same = [](Expr *v, Expr *e) { if (v == e) return true; if (isConst(v) && isConst(e)) return v->c == e->c; return v->op == O_ZEXT && v->k[0] == e; };
    Expr *p2 = p, *q2 = q; bool strict = c->op == O_ULT;
    if (!((same(a, p) && same(b, q)) || (same(a, q) && same(b, p)))) {   // ult(p,c+1) is ule(p,c); ult(c-1,q) is ule(c,q)
      if (isConst(q) && strict && q->c) q2 = mkConst(q->c - 1, q->w); else if (isConst(q) && !strict && q->c != maskw(q->w)) q2 = mkConst(q->c + 1, q->w);
      else if (isConst(p) && strict && p->c != maskw(p->w)) p2 = mkConst(p->c + 1, p->w); else if (isConst(p) && !strict && p->c) p2 = mkConst(p->c - 1, p->w);
    }
    bool m1 = same(a, p2) && same(b, q2), m2 = same(a, q2) && same(b, p2);
    if (m1 || m2) {
      bool pf = isConst(p2) || (!isConst(q2) && p2->id < q2->id);
      Expr *nc = pf ? mkBin(O_ULT, p2, q2) : mkBin(O_ULT, q2, p2), *na = pf ? a : b, *nb = pf ? b : a;
      if (isConst(nc)) return nc->c ? na : nb;
      return intern(O_ITE, a->w, nc, na, nb, 0, 0);
    }
  }
  return intern(O_ITE, a->w, c, a, b, 0, 0);
}
// Rebuilds e with the replacements already in memo.
Expr *substExpr(Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  if (e->op == O_CONST || e->op == O_VAR) return e;
  Expr *k[3] = {0, 0, 0}; bool ch = false;
  if (e->op == O_ITE) { k[0] = substExpr(e->k[0], memo); if (isConst(k[0])) { Expr *r = substExpr(k[0]->c ? e->k[1] : e->k[2], memo); return memo[e] = r; } ch = k[0] != e->k[0]; for (int i = 1; i < 3; i++) { k[i] = substExpr(e->k[i], memo); ch |= k[i] != e->k[i]; } }
  else for (int i = 0; i < 3; i++) if (e->k[i]) { k[i] = substExpr(e->k[i], memo); ch |= k[i] != e->k[i]; }
  Expr *r = e;
  if (ch) switch (e->op) {
  case O_ITE: r = mkIte(k[0], k[1], k[2]); break;
  case O_CONCAT: r = mkConcat(k[0], k[1]); break;
  case O_EXTRACT: r = mkExtract(k[0], e->aux, e->w); break;
  case O_ZEXT: r = mkZext(k[0], e->w); break;
  case O_SEXT: r = mkSext(k[0], e->w); break;
  case O_FPTRUNC: case O_FPEXT: case O_UITOFP: case O_SITOFP: case O_FPTOUI: case O_FPTOSI: r = mkFcast(e->op, k[0], e->w); break;
  default: r = mkBin(e->op, k[0], k[1]); break;
  }
  return memo[e] = r;
}

static bool allConstLeaves(Expr *e, int d) {
  while (e->op == O_ITE && d-- > 0) { if (!isConst(e->k[1])) { if (e->k[1]->op != O_ITE || !allConstLeaves(e->k[1], d / 2)) return false; } e = e->k[2]; }
  return isConst(e);
}

// x = zext(lowpart) with high zero bits? returns number of known-zero high bits and low bits
static unsigned knownZeroHigh(Expr *e) {
  if (e->w <= 64) { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->hi >> i) & 1); i--) n++; return n; }
  if (e->op == O_ZEXT) return e->w - e->k[0]->w + knownZeroHigh(e->k[0]);
  if (isConst(e)) { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->c >> i) & 1); i--) n++; return n; }
  return 0;
}
static unsigned knownZeroLow(Expr *e) {
  if (isConst(e)) { unsigned n = 0; while (n < e->w && !((e->c >> n) & 1)) n++; return n; }
  if (e->op == O_CONCAT) { unsigned n = knownZeroLow(e->k[1]); return n < e->k[1]->w ? n : n + knownZeroLow(e->k[0]); }
  if (e->op == O_ZEXT) { unsigned n = knownZeroLow(e->k[0]); return n < e->k[0]->w ? n : e->w; }
  if (e->op == O_MUL && isConst(e->k[0])) return knownZeroLow(e->k[0]);
  return 0;
}

static bool nonZero(Expr *e, int d = 6) {
  if (isConst(e)) return e->c != 0;
  if (e->w <= 64 && e->lo > 0) return true;
  if (!d) return false;
  if (e->op == O_ZEXT || e->op == O_SEXT) return nonZero(e->k[0], d - 1);
  if (e->op == O_ITE) return nonZero(e->k[1], d - 1) && nonZero(e->k[2], d - 1);
  if (e->op == O_CONCAT) return nonZero(e->k[0], d - 1) || nonZero(e->k[1], d - 1);
  return false;
}
// Positional notation: m*(x % c) + m*c*(x / c) = m*x, through value-preserving width changes.
static Expr *stripW(Expr *e) { for (;;) { if (e->op == O_ZEXT) e = e->k[0]; else if (e->op == O_EXTRACT && e->aux == 0 && e->k[0]->w <= 64 && e->k[0]->hi <= mask64(e->w)) e = e->k[0]; else return e; } }
static void scaled(Expr *e, u128 &m, Expr *&t) {
  m = 1; unsigned W = e->w;
  if (e->op == O_SHL && isConst(e->k[1]) && e->k[1]->c < 64) { m = (u128)1 << (unsigned)e->k[1]->c; e = e->k[0]; }
  else if (e->op == O_MUL && isConst(e->k[0])) { m = e->k[0]->c; e = e->k[1]; }
  Expr *s = stripW(e);
  while ((s->op == O_MUL && isConst(s->k[0])) || (s->op == O_SHL && isConst(s->k[1]) && s->k[1]->c < 64)) {
    u128 c = s->op == O_MUL ? s->k[0]->c : (u128)1 << (unsigned)s->k[1]->c; Expr *in = s->op == O_MUL ? s->k[1] : s->k[0];
    if (s->w < W && (in->w > 64 || (c >> 64) || (u128)in->hi * c > maskw(s->w))) break;
    m *= c; s = stripW(in);
  }
  m &= maskw(W); t = s;
}
static Expr *horner(Expr *a, Expr *b) {
  unsigned w = a->w; if (w > 64) return nullptr;
  auto interesting = [](Expr *e) { u128 m; Expr *t; scaled(e, m, t); return t->op == O_UDIV && t->w <= 64 && isConst(t->k[1]); };
  bool ia = a->op != O_ADD && interesting(a), ib = b->op != O_ADD && interesting(b); if (!ia && !ib) return nullptr;
  if (ia) std::swap(a, b);
  std::vector<Expr *> ts; { std::vector<Expr *> st{a}; while (!st.empty() && ts.size() < 40) { Expr *e = st.back(); st.pop_back(); if (e->op == O_ADD) { st.push_back(e->k[0]); st.push_back(e->k[1]); } else ts.push_back(e); } if (!st.empty()) return nullptr; }
  u128 m; Expr *t; scaled(b, m, t); bool any = false;
  for (bool ch = true; ch && t->op == O_UDIV && isConst(t->k[1]) && t->w <= 64;) {
    ch = false;
    for (size_t i = 0; i < ts.size(); i++) { u128 m2; Expr *t2; scaled(ts[i], m2, t2);
      if (t2->op == O_UREM && isConst(t2->k[1]) && t2->k[1]->c == t->k[1]->c && ((m2 * t->k[1]->c) & maskw(w)) == m && stripW(t2->k[0]) == stripW(t->k[0])) { m = m2; t = stripW(t->k[0]); ts.erase(ts.begin() + i); any = ch = true; break; } }
  }
  if (!any || t->w > w) { if (!any || t->hi > mask64(w)) return nullptr; }
  Expr *r = t->w > w ? mkExtract(t, 0, w) : t->w < w ? mkZext(t, w) : t; r = mkBin(O_MUL, mkConst(m, w), r);
  for (auto *e : ts) r = mkBin(O_ADD, r, e);
  return r;
}
// a = c*q + r with r < c, read off a sum of scaled terms that cannot wrap.
static bool divLinear(Expr *a, u128 c, Expr *&q, Expr *&r) {
  unsigned w = a->w; if (w > 64 || c >> 63) return false;
  a = stripW(a); if (a->w > 64) return false;
  if (a->op != O_ADD && a->op != O_MUL && a->op != O_SHL) return false; 
  std::vector<Expr *> st{a}; std::vector<std::pair<u128, Expr *>> q_, r_; u128 tot = 0, rh = 0, qc = 0, rc = 0; unsigned n = 0;
  while (!st.empty()) { Expr *e = st.back(); st.pop_back(); if (++n > 80) return false;
    if (e->op == O_ADD) { st.push_back(e->k[0]); st.push_back(e->k[1]); continue; }
    if (isConst(e)) { tot += e->c; qc += e->c / c; rc += e->c % c; continue; }
    Expr *s = stripW(e); if (s->op == O_ADD && s->hi <= mask64(e->w) && s->w <= e->w) { // nested no-wrap sum
      u128 hs = 0; std::vector<Expr *> s2{s}; bool ok = true; while (!s2.empty() && ok) { Expr *x = s2.back(); s2.pop_back(); if (x->op == O_ADD) { s2.push_back(x->k[0]); s2.push_back(x->k[1]); } else { hs += x->hi; if (hs > mask64(s->w)) ok = false; } }
      if (ok) { st.push_back(s->k[0]); st.push_back(s->k[1]); continue; } }
    u128 m; Expr *t; scaled(e, m, t); if (t->w > 64 || (m >> 64)) return false; u128 h = m * t->hi; if (t->hi && h / t->hi != m) return false; tot += h; if (tot > mask64(a->w)) return false;
    if (m % c == 0) q_.push_back({m / c, t}); else { r_.push_back({m, t}); rh += h; } }
  if (tot > mask64(a->w) || (q_.empty() && !qc)) return false; qc += rc / c; rc %= c; if (rh + rc >= c) return false;
  auto mk = [&](std::vector<std::pair<u128, Expr *>> &v, u128 k) { Expr *x = mkConst(k, w); for (auto &p : v) { Expr *t = p.second->w > w ? mkExtract(p.second, 0, w) : mkZext(p.second, w); x = mkBin(O_ADD, x, mkBin(O_MUL, mkConst(p.first, w), t)); } return x; };
  q = mk(q_, qc); r = mk(r_, rc); return true;
}
// Sums of scaled terms modulo 2^W, looked at through casts that cannot lose bits.
static bool linAdd(Expr *e, unsigned W, u128 coef, std::vector<std::pair<Expr *, u128>> &out, u128 &k, int &budget) {
  if (--budget < 0) return false; u128 M = maskw(W); coef &= M; if (!coef) return true;
  switch (e->op) {
  case O_CONST: k = (k + coef * e->c) & M; return true;
  case O_ZEXT: return linAdd(e->k[0], W, coef, out, k, budget);
  case O_ADD: if (W <= e->w || (e->w <= 64 && (u128)e->k[0]->hi + e->k[1]->hi <= maskw(e->w))) return linAdd(e->k[0], W, coef, out, k, budget) && linAdd(e->k[1], W, coef, out, k, budget); break;
  case O_SUB: if (W <= e->w || (e->w <= 64 && e->k[0]->lo >= e->k[1]->hi)) return linAdd(e->k[0], W, coef, out, k, budget) && linAdd(e->k[1], W, 0 - coef, out, k, budget); break;
  case O_MUL: if (isConst(e->k[0]) && (W <= e->w || (e->w <= 64 && !(e->k[0]->c >> 64) && (u128)(uint64_t)e->k[0]->c * e->k[1]->hi <= maskw(e->w)))) return linAdd(e->k[1], W, coef * e->k[0]->c, out, k, budget); break;
  case O_CONCAT: if (e->k[1]->w < 128) return linAdd(e->k[0], W, coef << e->k[1]->w, out, k, budget) && linAdd(e->k[1], W, coef, out, k, budget); break;
  case O_OR: if (e->w <= 64 && (knownZeroLow(e->k[0]) + knownZeroHigh(e->k[1]) >= e->w || knownZeroLow(e->k[1]) + knownZeroHigh(e->k[0]) >= e->w)) return linAdd(e->k[0], W, coef, out, k, budget) && linAdd(e->k[1], W, coef, out, k, budget); break;
  case O_EXTRACT: if (e->aux == 0 && (W <= e->w || (e->k[0]->w <= 64 && e->k[0]->hi <= mask64(e->w)))) return linAdd(e->k[0], W, coef, out, k, budget); break;
  default: break;
  }
  for (auto &p : out) if (p.first == e) { p.second = (p.second + coef) & M; return true; }
  if (out.size() > 64) return false; out.push_back({e, coef}); return true;
}
static bool linShape(Expr *e) { for (int i = 0; i < 3; i++) { if (e->op == O_ADD || e->op == O_MUL || e->op == O_CONCAT || e->op == O_SUB) return true; if (e->op == O_ZEXT || e->op == O_EXTRACT) e = e->k[0]; else return false; } return false; }
// 1: equal, 0: different, -1: unknown
static int linEq(Expr *a, Expr *b) {
  if (a->w > 64 || !linShape(a) || !linShape(b)) return -1;
  unsigned lo = 0, W = a->w; Expr *x = a, *y = b;
  if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->aux == b->aux && a->aux) { lo = a->aux; W = lo + a->w; x = a->k[0]; y = b->k[0]; if (W > 64) return -1; }
  std::vector<std::pair<Expr *, u128>> out; u128 k = 0; int budget = 400; if (!linAdd(x, W, 1, out, k, budget) || !linAdd(y, W, (u128)0 - 1, out, k, budget)) return -1;
  for (auto &p : out) if (p.second & maskw(W)) return -1;
  k &= maskw(W); return !k ? 1 : lo ? -1 : 0;
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %s %u %u\n", opNames[op], a->w, b->w); abort(); }
  if (isConst(a) && isConst(b) && w <= 128) {
    bool ok; u128 r = foldBin(op, w, a->c, b->c, ok);
    if (ok) { bool isb = (op >= O_EQ && op <= O_SLE) || (op >= O_FEQ && op <= O_FUNO); return mkConst(r, isb ? 1 : w); }
  }
  switch (op) {
  case O_ADD:
    if (isConst(b)) std::swap(a, b);
    if (isConst(a)) {
      if (a->c == 0) return b;
      if (b->op == O_ADD && isConst(b->k[0])) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
      if (b->op == O_SUB && isConst(b->k[0])) return mkBin(O_SUB, mkBin(O_ADD, a, b->k[0]), b->k[1]);
      if (b->op == O_ITE && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(O_ADD, a, b->k[1]), mkBin(O_ADD, a, b->k[2]));
      if (w == 1) return mkBin(O_XOR, a, b);
    } else {
      if (a->op == O_ADD && isConst(a->k[0])) return mkBin(O_ADD, a->k[0], mkBin(O_ADD, a->k[1], b));
      if (b->op == O_ADD && isConst(b->k[0])) return mkBin(O_ADD, b->k[0], mkBin(O_ADD, a, b->k[1]));
      if (a->op == O_SUB && a->k[1] == b) return a->k[0];
      if (b->op == O_SUB && b->k[1] == a) return b->k[0];
      if (Expr *h = horner(a, b)) return h;
      // no carries: disjoint bits
      if (knownZeroLow(a) + knownZeroHigh(b) >= w || knownZeroLow(b) + knownZeroHigh(a) >= w) return mkBin(O_OR, a, b);
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case O_SUB:
    if (a == b) return mkConst(0, w);
    if (isConst(b)) return mkBin(O_ADD, mkConst(0 - b->c, w), a);
    if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0];
      if (isConst(a->k[0])) return mkBin(O_ADD, a->k[0], mkBin(O_SUB, a->k[1], b)); }
    if (b->op == O_ADD && isConst(b->k[0])) return mkBin(O_ADD, mkConst(0 - b->k[0]->c, w), mkBin(O_SUB, a, b->k[1]));
    if (b->op == O_ADD) { if (b->k[0] == a) return mkBin(O_SUB, mkConst(0, w), b->k[1]); if (b->k[1] == a) return mkBin(O_SUB, mkConst(0, w), b->k[0]); }
    break;
  case O_MUL:
    if (isConst(b)) std::swap(a, b);
    if (isConst(a)) {
      if (a->c == 0) return a;
      if (a->c == 1) return b;
      if ((a->c & (a->c - 1)) == 0) { unsigned n = 0; while (!((a->c >> n) & 1)) n++; return mkBin(O_SHL, b, mkConst(n, w)); }
      if (b->op == O_MUL && isConst(b->k[0])) return mkBin(O_MUL, mkBin(O_MUL, a, b->k[0]), b->k[1]);
      if (b->op == O_ITE && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(O_MUL, a, b->k[1]), mkBin(O_MUL, a, b->k[2]));
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case O_UDIV:
    if (isConst(a) && a->c == 0 && nonZero(b)) return a;
    if (isConst(b) && b->c) {
      if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) n++; return mkBin(O_LSHR, a, mkConst(n, w)); }
      if (w <= 64 && a->hi < (uint64_t)b->c) return mkConst(0, w);
      { Expr *q, *r; if (divLinear(a, b->c, q, r)) return q; }
    }
    if (w <= 64 && b->lo > a->hi) return mkConst(0, w);
    if (isConst(b) && b->c && a->op == O_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    // narrow when the operands are provably small (cheaper division circuits)
    { unsigned z = std::min(knownZeroHigh(a), knownZeroHigh(b));
      if (z > 0 && w - z > 0 && b->lo > 0 && w <= 64) return mkZext(mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w);
      if (z > 0 && w > 64 && z < w && isConst(b) && b->c) return mkZext(mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w); }
    break;
  case O_UREM:
    if (isConst(b) && b->c) {
      if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) n++; return n ? mkZext(mkExtract(a, 0, n), w) : mkConst(0, w); }
      if (w <= 64 && a->hi < (uint64_t)b->c) return a;
      { Expr *q, *r; if (divLinear(a, b->c, q, r)) return r; }
    }
    if (w <= 64 && b->lo > a->hi) return a;
    if (isConst(b) && b->c && a->op == O_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    { unsigned z = std::min(knownZeroHigh(a), knownZeroHigh(b));
      if (z > 0 && w - z > 0 && b->lo > 0 && w <= 64) return mkZext(mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w);
      if (z > 0 && w > 64 && z < w && isConst(b) && b->c) return mkZext(mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w); }
    break;
  case O_SDIV: case O_SREM: {
    // non-negative operands: use unsigned
    if (w <= 64 && w > 1 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1)) && b->lo > 0) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
    break; }
  case O_AND:
    if (isConst(b)) std::swap(a, b);
    if (a == b) return a;
    if (isConst(a)) {
      u128 M = maskw(w);
      if (a->c == 0) return a;
      if (a->c == M) return b;
      if (w <= 128 && ((a->c + 1) & a->c) == 0) { unsigned n = 0; while ((a->c >> n) & 1) n++; return mkZext(mkExtract(b, 0, n), w); }
      // high mask: clear low bits
      { u128 inv = ~a->c & M; if (((inv + 1) & inv) == 0) { unsigned n = 0; while ((inv >> n) & 1) n++; return mkConcat(mkExtract(b, n, w - n), mkConst(0, n)); } }
      // contiguous middle mask
      { unsigned l = 0; while (!((a->c >> l) & 1)) l++; u128 s = a->c >> l; if (((s + 1) & s) == 0) { unsigned n = 0; while ((s >> n) & 1) n++; Expr *m = mkConcat(mkExtract(b, l, n), mkConst(0, l)); return mkZext(m, w); } }
      if (b->op == O_AND && isConst(b->k[0])) return mkBin(O_AND, mkBin(O_AND, a, b->k[0]), b->k[1]);
      if (b->op == O_ITE && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    } else {
      if (w == 1) {
        if (a->op == O_XOR && isConst(a->k[0]) && a->k[1] == b) return mkFalse();
        if (b->op == O_XOR && isConst(b->k[0]) && b->k[1] == a) return mkFalse();
        if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::min(a->k[0]->w, b->k[0]->w); return mkZext(mkBin(O_AND, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case O_OR:
    if (isConst(b)) std::swap(a, b);
    if (a == b) return a;
    if (isConst(a)) {
      if (a->c == 0) return b;
      if (a->c == maskw(w)) return a;
    }
    if (w == 1) {
      if (a->op == O_XOR && isConst(a->k[0]) && a->k[1] == b) return mkTrue();
      if (b->op == O_XOR && isConst(b->k[0]) && b->k[1] == a) return mkTrue();
      if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b;
      if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
    } else {
      unsigned za = knownZeroLow(a), hb = knownZeroHigh(b);
      unsigned zb = knownZeroLow(b), ha = knownZeroHigh(a);
      if (za && za + hb >= w) { if (za >= w) return b; return mkConcat(mkExtract(a, za, w - za), mkExtract(b, 0, za)); }
      if (zb && zb + ha >= w) { if (zb >= w) return a; return mkConcat(mkExtract(b, zb, w - zb), mkExtract(a, 0, zb)); }
    }
    if (!isConst(a) && a->id > b->id) std::swap(a, b);
    break;
  case O_XOR:
    if (isConst(b)) std::swap(a, b);
    if (a == b) return mkConst(0, w);
    if (isConst(a)) {
      if (a->c == 0 && w <= 128) return b;
      if (b->op == O_XOR && isConst(b->k[0])) return mkBin(O_XOR, mkBin(O_XOR, a, b->k[0]), b->k[1]);
      if (w == 1) { // not
        if (b->op == O_ULT) return mkBin(O_ULE, b->k[1], b->k[0]);
        if (b->op == O_ULE) return mkBin(O_ULT, b->k[1], b->k[0]);
        if (b->op == O_SLT) return mkBin(O_SLE, b->k[1], b->k[0]);
        if (b->op == O_SLE) return mkBin(O_SLT, b->k[1], b->k[0]);
      }
      if (b->op == O_ITE && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    } else {
      if (a->op == O_XOR && (a->k[0] == b)) return a->k[1];
      if (a->op == O_XOR && (a->k[1] == b)) return a->k[0];
      if (b->op == O_XOR && (b->k[0] == a)) return b->k[1];
      if (b->op == O_XOR && (b->k[1] == a)) return b->k[0];
      if (a->w > 1 && linEq(a, b) == 1) return mkConst(0, w);
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case O_SHL:
    if (isConst(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned n = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n)); }
    break;
  case O_LSHR:
    if (isConst(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned n = (unsigned)b->c; return mkZext(mkExtract(a, n, w - n), w); }
    break;
  case O_ASHR:
    if (isConst(b)) { if (b->c == 0) return a; unsigned n = b->c >= w ? w - 1 : (unsigned)b->c; return mkSext(mkExtract(a, n, w - n), w); }
    break;
  case O_EQ:
    if (a == b) return mkTrue();
    if (isConst(b)) std::swap(a, b);
    if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkFalse();
    if (w > 1 && !isConst(a)) { int l = linEq(a, b); if (l == 1) return mkTrue(); if (l == 0) return mkFalse(); }
    if (w == 1) {
      if (isConst(a)) return a->c ? b : mkNot(b);
    }
    if (isConst(a)) {
      switch (b->op) {
      case O_ZEXT: { Expr *x = b->k[0]; if (x->w < 128 && (a->c >> x->w) != 0) return mkFalse(); return mkEq(mkConst(a->c, x->w), x); }
      case O_SEXT: { Expr *x = b->k[0]; Expr *n = mkConst(a->c, x->w); if (mkSext(n, w) != a) return mkFalse(); return mkEq(n, x); }
      case O_CONCAT: return mkAnd(mkEq(mkExtract(a, b->k[1]->w, b->k[0]->w), b->k[0]), mkEq(mkExtract(a, 0, b->k[1]->w), b->k[1]));
      case O_ADD: if (isConst(b->k[0])) return mkEq(mkConst(a->c - b->k[0]->c, w), b->k[1]); if (a->c == 0 && 0) return nullptr; break;
      case O_SUB: if (a->c == 0) return mkEq(b->k[0], b->k[1]); if (isConst(b->k[0])) return mkEq(mkConst(b->k[0]->c - a->c, w), b->k[1]); break;
      case O_XOR: if (isConst(b->k[0])) return mkEq(mkConst(a->c ^ b->k[0]->c, w), b->k[1]); if (a->c == 0) return mkEq(b->k[0], b->k[1]); break;
      case O_ITE: {
        bool c1 = isConst(b->k[1]), c2 = isConst(b->k[2]);
        if (c1 && c2) { bool e1 = b->k[1] == a, e2 = b->k[2] == a; if (e1 && !e2) return b->k[0]; if (!e1 && e2) return mkNot(b->k[0]); return mkFalse(); }
        if ((c1 || c2) && allConstLeaves(b, 400)) return mkIte(b->k[0], mkEq(a, b->k[1]), mkEq(a, b->k[2]));
        if (c1 && b->k[1] != a) return mkAnd(mkNot(b->k[0]), mkEq(a, b->k[2]));
        if (c2 && b->k[2] != a) return mkAnd(b->k[0], mkEq(a, b->k[1]));
        break; }
      case O_OR: if (a->c == 0) return mkAnd(mkEq(a, b->k[0]), mkEq(a, b->k[1])); break;
      default: break;
      }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkEq(mkZext(a->k[0], n), mkZext(b->k[0], n)); }
      if (a->op == O_ADD && b->op == O_ADD && isConst(a->k[0]) && a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
      if (a->op == O_ADD && (a->k[0] == b)) return mkEq(mkConst(0, w), a->k[1]);
      if (a->op == O_ADD && (a->k[1] == b)) return mkEq(mkConst(0, w), a->k[0]);
      if (b->op == O_ADD && (b->k[0] == a)) return mkEq(mkConst(0, w), b->k[1]);
      if (b->op == O_ADD && (b->k[1] == a)) return mkEq(mkConst(0, w), b->k[0]);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w) return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
      if (a->id > b->id) std::swap(a, b);
    }
    return intern(O_EQ, 1, a, b, 0, 0, 0);
  case O_ULT:
    if (a == b) return mkFalse();
    if (w <= 64) { if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse(); }
    if (isConst(b) && b->c == 1) return mkEq(mkConst(0, w), a);
    if (isConst(a) && a->c == 0) return mkNot(mkEq(a, b));
    if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(O_ULT, mkZext(a->k[0], n), mkZext(b->k[0], n)); }
    if (a->op == O_ZEXT && isConst(b)) { unsigned n = a->k[0]->w; if ((b->c >> n) != 0) return mkTrue(); return mkBin(O_ULT, a->k[0], mkConst(b->c, n)); }
    if (b->op == O_ZEXT && isConst(a)) { unsigned n = b->k[0]->w; if ((a->c >> n) != 0) return mkFalse(); return mkBin(O_ULT, mkConst(a->c, n), b->k[0]); }
    return intern(O_ULT, 1, a, b, 0, 0, 0);
  case O_ULE:
    if (a == b) return mkTrue();
    if (w <= 64) { if (a->hi <= b->lo) return mkTrue(); if (a->lo > b->hi) return mkFalse(); }
    if (isConst(b) && b->c == 0) return mkEq(b, a);
    if (isConst(a) && a->c == 1) return mkNot(mkEq(mkConst(0, w), b));
    if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(O_ULE, mkZext(a->k[0], n), mkZext(b->k[0], n)); }
    if (a->op == O_ZEXT && isConst(b)) { unsigned n = a->k[0]->w; if ((b->c >> n) != 0) return mkTrue(); return mkBin(O_ULE, a->k[0], mkConst(b->c, n)); }
    if (b->op == O_ZEXT && isConst(a)) { unsigned n = b->k[0]->w; if ((a->c >> n) != 0) return mkFalse(); return mkBin(O_ULE, mkConst(a->c, n), b->k[0]); }
    return intern(O_ULE, 1, a, b, 0, 0, 0);
  case O_SLT: case O_SLE:
    if (a == b) return op == O_SLE ? mkTrue() : mkFalse();
    if (w > 1 && w <= 64 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (w > 64 && knownZeroHigh(a) && knownZeroHigh(b)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    return intern(op, 1, a, b, 0, 0, 0);
  case O_FEQ: case O_FLT: case O_FLE: case O_FUNO:
    return intern(op, 1, a, b, 0, 0, 0);
  case O_FADD: case O_FMUL: case O_FSUB: case O_FDIV: {
    // distribute over constant tables; canonical operand order for the commutative ones
    if (isConst(b) && a->op == O_ITE && allConstLeaves(a, 64)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if (isConst(a) && b->op == O_ITE && allConstLeaves(b, 64)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);
    break; }
  default: break;
  }
  return intern(op, w, a, b, 0, 0, 0);
}

Expr *mkFcast(Op op, Expr *a, unsigned w) {
  if (isConst(a)) return mkConst(foldFcast(op, a->w, w, a->c), w);
  return intern(op, w, a, 0, 0, 0, 0);
}

static uint32_t epoch = 1;
void newEvalEpoch() { epoch++; }
static u128 ev(Expr *e, const Model &m) {
  if (e->op == O_CONST) return e->c;
  if (e->ep == epoch) return e->ev;
  u128 r = 0;
  switch (e->op) {
  case O_VAR: { auto it = m.m.find(e->aux); r = it == m.m.end() ? 0 : it->second; break; }
  case O_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
  case O_CONCAT: r = e->w > 128 ? (ev(e->k[1], m)) : ((ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m)); break;
  case O_EXTRACT: r = (ev(e->k[0], m) >> e->aux) & maskw(e->w); break;
  case O_ZEXT: r = ev(e->k[0], m); break;
  case O_SEXT: r = (u128)sx(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  case O_FPTRUNC: case O_FPEXT: case O_UITOFP: case O_SITOFP: case O_FPTOUI: case O_FPTOSI:
    r = foldFcast(e->op, e->k[0]->w, e->w, ev(e->k[0], m)); break;
  default: { bool ok; r = foldBin(e->op, e->k[0]->w, ev(e->k[0], m), ev(e->k[1], m), ok); break; }
  }
  e->ep = epoch; e->ev = r; return r;
}
u128 evalExpr(Expr *e, const Model &m) { epoch++; return ev(e, m); }

std::string exprStr(Expr *e, int d) {
  char buf[64];
  if (e->op == O_CONST) { if (e->w > 64) snprintf(buf, 64, "0x%llx%016llx:%u", (unsigned long long)(e->c >> 64), (unsigned long long)e->c, e->w); else snprintf(buf, 64, "%llu:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == O_VAR) return gVars[e->aux].name;
  if (d <= 0) return "...";
  std::string s = "("; s += opNames[e->op];
  if (e->op == O_EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->aux, e->w); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) { s += " "; s += exprStr(e->k[i], d - 1); }
  return s + ")";
}
