#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <poll.h>
#include <fcntl.h>
#include <unordered_set>

SolverStats gSS; SolverCfg gSC;
static Z3_context ctx;
static std::vector<Z3_ast> memo;     // by expr id
static Z3_sort bvs[129], boolS, f32S, f64S;
static bool hadErr = false;
static void eh(Z3_context c, Z3_error_code e) { hadErr = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, eh);
  boolS = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, boolS));
  f32S = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, f32S));
  f64S = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, f64S));
}
static Z3_sort bv(unsigned w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[w])); } return bvs[w]; }
static Z3_ast constBV(u128 c, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)c, bv(w));
  Z3_ast h = Z3_mk_unsigned_int64(ctx, (uint64_t)(c >> 64), bv(w - 64)); Z3_inc_ref(ctx, h);
  Z3_ast l = Z3_mk_unsigned_int64(ctx, (uint64_t)c, bv(64)); Z3_inc_ref(ctx, l);
  Z3_ast r = Z3_mk_concat(ctx, h, l); Z3_inc_ref(ctx, r); Z3_dec_ref(ctx, h); Z3_dec_ref(ctx, l); return r; // keeps one extra ref; fine
}
static Z3_ast tr(Expr *e);
static Z3_ast trBV(Expr *e) { // as bit-vector even when width 1
  Z3_ast a = tr(e);
  if (e->w != 1) return a;
  Z3_ast r = Z3_mk_ite(ctx, a, constBV(1, 1), constBV(0, 1)); Z3_inc_ref(ctx, r); return r;
}
static Z3_ast fp(Expr *e) { Z3_ast a = Z3_mk_fpa_to_fp_bv(ctx, tr(e), e->w == 32 ? f32S : f64S); Z3_inc_ref(ctx, a); return a; }
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast boolOf(Z3_ast bv1) { Z3_ast r = Z3_mk_eq(ctx, bv1, constBV(1, 1)); return r; }
static Z3_ast tr(Expr *e) {
  if (e->id < memo.size() && memo[e->id]) return memo[e->id];
  Z3_ast r = nullptr;
  unsigned w = e->w;
  bool b1 = w == 1;
  switch (e->op) {
  case O_CONST: r = b1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : constBV(e->c, w); break;
  case O_VAR: { char nm[32]; snprintf(nm, 32, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), b1 ? boolS : bv(w)); break; }
  case O_ADD: r = Z3_mk_bvadd(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_SUB: r = Z3_mk_bvsub(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_MUL: r = Z3_mk_bvmul(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_UDIV: r = Z3_mk_bvudiv(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_SDIV: r = Z3_mk_bvsdiv(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_UREM: r = Z3_mk_bvurem(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_SREM: r = Z3_mk_bvsrem(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_AND: if (b1) { Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])}; r = Z3_mk_and(ctx, 2, a); } else r = Z3_mk_bvand(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case O_OR: if (b1) { Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])}; r = Z3_mk_or(ctx, 2, a); } else r = Z3_mk_bvor(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case O_XOR: if (b1) { if (isTrue(e->k[0])) r = Z3_mk_not(ctx, tr(e->k[1])); else r = Z3_mk_xor(ctx, tr(e->k[0]), tr(e->k[1])); }
    else if (isConst(e->k[0]) && e->k[0]->c == maskw(w)) r = Z3_mk_bvnot(ctx, tr(e->k[1]));
    else r = Z3_mk_bvxor(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case O_SHL: r = Z3_mk_bvshl(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_LSHR: r = Z3_mk_bvlshr(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_ASHR: r = Z3_mk_bvashr(ctx, trBV(e->k[0]), trBV(e->k[1])); if (b1) r = boolOf(r); break;
  case O_EQ: r = Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case O_ULT: r = Z3_mk_bvult(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
  case O_ULE: r = Z3_mk_bvule(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
  case O_SLT: r = Z3_mk_bvslt(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
  case O_SLE: r = Z3_mk_bvsle(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
  case O_ITE: r = Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
  case O_CONCAT: r = Z3_mk_concat(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
  case O_EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, trBV(e->k[0])); if (b1) r = boolOf(r); break;
  case O_ZEXT: if (e->k[0]->w == 1) r = Z3_mk_ite(ctx, tr(e->k[0]), constBV(1, w), constBV(0, w)); else r = Z3_mk_zero_ext(ctx, w - e->k[0]->w, tr(e->k[0])); break;
  case O_SEXT: if (e->k[0]->w == 1) r = Z3_mk_ite(ctx, tr(e->k[0]), constBV(maskw(w), w), constBV(0, w)); else r = Z3_mk_sign_ext(ctx, w - e->k[0]->w, tr(e->k[0])); break;
  case O_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
  case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
  case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
  case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
  case O_FEQ: r = Z3_mk_fpa_eq(ctx, fp(e->k[0]), fp(e->k[1])); break;
  case O_FLT: r = Z3_mk_fpa_lt(ctx, fp(e->k[0]), fp(e->k[1])); break;
  case O_FLE: r = Z3_mk_fpa_leq(ctx, fp(e->k[0]), fp(e->k[1])); break;
  case O_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->k[0])), Z3_mk_fpa_is_nan(ctx, fp(e->k[1]))}; r = Z3_mk_or(ctx, 2, a); break; }
  case O_FPTRUNC: case O_FPEXT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->k[0]), w == 32 ? f32S : f64S)); break;
  case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), trBV(e->k[0]), w == 32 ? f32S : f64S)); break;
  case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), trBV(e->k[0]), w == 32 ? f32S : f64S)); break;
  case O_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0]), w); break;
  case O_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0]), w); break;
  }
  Z3_inc_ref(ctx, r);
  if (e->id >= memo.size()) memo.resize(std::max<size_t>(e->id + 1, memo.size() * 2), nullptr);
  memo[e->id] = r;
  return r;
}

// ---------- SMT-LIB2 printing for the external solvers ----------
static void smtName(Expr *e, std::string &s) { char b[32]; snprintf(b, 32, "e%u", e->id); s += b; }
static void smtConst(u128 c, unsigned w, std::string &s) { s += "#b"; for (int i = w - 1; i >= 0; i--) s += ((c >> i) & 1) ? '1' : '0'; }
std::string toSmt2(const std::vector<Expr *> &cs) {
  std::string out = "(set-logic ALL)\n(set-option :produce-models true)\n";
  bool anyfp = false; for (auto *c : cs) anyfp |= c->isfp;
  if (!anyfp) out = "(set-logic QF_BV)\n(set-option :produce-models true)\n";
  std::unordered_set<Expr *> seen; std::vector<std::pair<Expr *, bool>> stk; std::vector<Expr *> order; std::vector<Expr *> vars;
  for (auto *c : cs) stk.push_back({c, false});
  while (!stk.empty()) {
    auto [e, done] = stk.back(); stk.pop_back();
    if (done) { order.push_back(e); continue; }
    if (!seen.insert(e).second) continue;
    if (e->op == O_VAR) { vars.push_back(e); continue; }
    if (e->op == O_CONST) continue;
    stk.push_back({e, true});
    for (int i = 0; i < 3; i++) if (e->k[i]) stk.push_back({e->k[i], false});
  }
  char b[96];
  for (auto *v : vars) { if (v->w == 1) snprintf(b, 96, "(declare-fun v%u () Bool)\n", v->aux); else snprintf(b, 96, "(declare-fun v%u () (_ BitVec %u))\n", v->aux, v->w); out += b; }
  auto ref = [&](Expr *e, std::string &s) { if (e->op == O_CONST) { if (e->w == 1) s += e->c ? "true" : "false"; else smtConst(e->c, e->w, s); } else if (e->op == O_VAR) { snprintf(b, 96, "v%u", e->aux); s += b; } else smtName(e, s); };
  auto refBV = [&](Expr *e, std::string &s) { if (e->w != 1) return ref(e, s); s += "(ite "; ref(e, s); s += " #b1 #b0)"; };
  auto refFP = [&](Expr *e, std::string &s) { s += e->w == 32 ? "((_ to_fp 8 24) " : "((_ to_fp 11 53) "; ref(e, s); s += ")"; };
  for (auto *e : order) {
    if (e->op >= O_FADD && !(e->op >= O_FEQ && e->op <= O_FUNO) && e->op != O_FPTOUI && e->op != O_FPTOSI) {
      // no standard fp->bv function: name the bits with a fresh constant
      smtName(e, out); std::string nm; smtName(e, nm);
      out.resize(out.size() - nm.size());
      snprintf(b, 96, "(declare-fun e%u () (_ BitVec %u))\n(assert (= ((_ to_fp %s) e%u) ", e->id, e->w, e->w == 32 ? "8 24" : "11 53", e->id); out += b;
      switch (e->op) {
      case O_FADD: out += "(fp.add RNE "; refFP(e->k[0], out); out += " "; refFP(e->k[1], out); out += ")"; break;
      case O_FSUB: out += "(fp.sub RNE "; refFP(e->k[0], out); out += " "; refFP(e->k[1], out); out += ")"; break;
      case O_FMUL: out += "(fp.mul RNE "; refFP(e->k[0], out); out += " "; refFP(e->k[1], out); out += ")"; break;
      case O_FDIV: out += "(fp.div RNE "; refFP(e->k[0], out); out += " "; refFP(e->k[1], out); out += ")"; break;
      case O_FPTRUNC: case O_FPEXT: out += e->w == 32 ? "((_ to_fp 8 24) RNE " : "((_ to_fp 11 53) RNE "; refFP(e->k[0], out); out += ")"; break;
      case O_UITOFP: out += e->w == 32 ? "((_ to_fp_unsigned 8 24) RNE " : "((_ to_fp_unsigned 11 53) RNE "; refBV(e->k[0], out); out += ")"; break;
      case O_SITOFP: out += e->w == 32 ? "((_ to_fp 8 24) RNE " : "((_ to_fp 11 53) RNE "; refBV(e->k[0], out); out += ")"; break;
      default: break;
      }
      out += "))\n"; continue;
    }
    out += "(define-fun "; smtName(e, out);
    if (e->w == 1) out += " () Bool "; else { snprintf(b, 96, " () (_ BitVec %u) ", e->w); out += b; }
    auto bin = [&](const char *op) { bool wrap = e->w == 1; if (wrap) out += "(= #b1 "; out += "("; out += op; out += " "; refBV(e->k[0], out); out += " "; refBV(e->k[1], out); out += ")"; if (wrap) out += ")"; };
    auto cmp = [&](const char *op) { out += "("; out += op; out += " "; refBV(e->k[0], out); out += " "; refBV(e->k[1], out); out += ")"; };
    auto fcmp = [&](const char *op) { out += "("; out += op; out += " "; refFP(e->k[0], out); out += " "; refFP(e->k[1], out); out += ")"; };
    switch (e->op) {
    case O_ADD: bin("bvadd"); break; case O_SUB: bin("bvsub"); break; case O_MUL: bin("bvmul"); break;
    case O_UDIV: bin("bvudiv"); break; case O_SDIV: bin("bvsdiv"); break; case O_UREM: bin("bvurem"); break; case O_SREM: bin("bvsrem"); break;
    case O_AND: bin("bvand"); break; case O_OR: bin("bvor"); break; case O_XOR: bin("bvxor"); break;
    case O_SHL: bin("bvshl"); break; case O_LSHR: bin("bvlshr"); break; case O_ASHR: bin("bvashr"); break;
    case O_EQ: out += "(= "; ref(e->k[0], out); out += " "; ref(e->k[1], out); out += ")"; break;
    case O_ULT: cmp("bvult"); break; case O_ULE: cmp("bvule"); break; case O_SLT: cmp("bvslt"); break; case O_SLE: cmp("bvsle"); break;
    case O_ITE: out += "(ite "; ref(e->k[0], out); out += " "; ref(e->k[1], out); out += " "; ref(e->k[2], out); out += ")"; break;
    case O_CONCAT: out += "(concat "; refBV(e->k[0], out); out += " "; refBV(e->k[1], out); out += ")"; break;
    case O_EXTRACT: if (e->w == 1) out += "(= #b1 "; snprintf(b, 96, "((_ extract %u %u) ", e->aux + e->w - 1, e->aux); out += b; refBV(e->k[0], out); out += ")"; if (e->w == 1) out += ")"; break;
    case O_ZEXT: snprintf(b, 96, "((_ zero_extend %u) ", e->w - e->k[0]->w); out += b; refBV(e->k[0], out); out += ")"; break;
    case O_SEXT: snprintf(b, 96, "((_ sign_extend %u) ", e->w - e->k[0]->w); out += b; refBV(e->k[0], out); out += ")"; break;
    case O_FEQ: fcmp("fp.eq"); break; case O_FLT: fcmp("fp.lt"); break; case O_FLE: fcmp("fp.leq"); break;
    case O_FUNO: out += "(or (fp.isNaN "; refFP(e->k[0], out); out += ") (fp.isNaN "; refFP(e->k[1], out); out += "))"; break;
    case O_FPTOUI: snprintf(b, 96, "((_ fp.to_ubv %u) RTZ ", e->w); out += b; refFP(e->k[0], out); out += ")"; break;
    case O_FPTOSI: snprintf(b, 96, "((_ fp.to_sbv %u) RTZ ", e->w); out += b; refFP(e->k[0], out); out += ")"; break;
    default: out += "UNSUPPORTED"; break;
    }
    out += ")\n";
  }
  for (auto *c : cs) { out += "(assert "; ref(c, out); out += ")\n"; }
  out += "(check-sat)\n";
  if (!vars.empty()) { out += "(get-value ("; for (auto *v : vars) { snprintf(b, 96, "v%u ", v->aux); out += b; } out += "))\n"; }
  return out;
}

// Parses "((v1 #x..) (v2 #b..) (v3 true))".
static bool parseModel(const std::string &s, Model &m) {
  size_t i = 0;
  while ((i = s.find("(v", i)) != std::string::npos) {
    i += 2; char *end; unsigned long ix = strtoul(s.c_str() + i, &end, 10); i = end - s.c_str();
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++;
    u128 v = 0;
    if (s[i] == '#') { i++; bool hex = s[i] == 'x'; i++; while (i < s.size() && isxdigit((unsigned char)s[i])) { char c = s[i++]; unsigned d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; v = v * (hex ? 16 : 2) + d; } }
    else if (!s.compare(i, 4, "true")) v = 1; else if (!s.compare(i, 5, "false")) v = 0;
    else if (!s.compare(i, 5, "(_ bv")) { i += 5; while (isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); }
    else if (isdigit((unsigned char)s[i])) while (isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
    else return false;
    m.m[ix] = v;
  }
  return true;
}
// symbolic * symbolic, or division by a symbolic value, or a wide division
static bool nonlinear(const std::vector<Expr *> &cs) {
  std::unordered_set<Expr *> seen; std::vector<Expr *> stk(cs.begin(), cs.end());
  while (!stk.empty()) { Expr *e = stk.back(); stk.pop_back(); if (!seen.insert(e).second) continue;
    if (e->op == O_MUL && e->w > 16 && !isConst(e->k[0]) && !isConst(e->k[1])) return true;
    if ((e->op == O_UDIV || e->op == O_UREM || e->op == O_SDIV || e->op == O_SREM) && e->w > 16) { if (!isConst(e->k[1])) return true; u128 c = e->k[1]->c; if (c & (c - 1)) return true; }
    for (int i = 0; i < 3; i++) if (e->k[i]) stk.push_back(e->k[i]); }
  return false;
}
static bool intFriendly(const std::vector<Expr *> &cs) {
  std::unordered_set<Expr *> seen; std::vector<Expr *> stk(cs.begin(), cs.end()); bool arith = false;
  while (!stk.empty()) { Expr *e = stk.back(); stk.pop_back(); if (!seen.insert(e).second) continue;
    if ((e->op == O_AND || e->op == O_OR || e->op == O_XOR) && e->w > 1) return false;
    if ((e->op == O_SHL || e->op == O_LSHR || e->op == O_ASHR) && !isConst(e->k[1])) return false;
    if ((e->op == O_ADD || e->op == O_SUB || e->op == O_MUL) && e->w >= 32) arith = true;
    for (int i = 0; i < 3; i++) if (e->k[i]) stk.push_back(e->k[i]); }
  return arith;
}
struct Ext { std::vector<const char *> argv; pid_t pid; int fd; std::string out; bool done; };
static Res runExternal(const std::vector<Expr *> &cs, Model &out, double timeout, bool intOnly) {
  gSS.external++;
  char fn[] = "/tmp/csymqXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return Res::Unknown;
  std::string smt = toSmt2(cs);
  size_t off = 0; while (off < smt.size()) { ssize_t n = write(fd, smt.data() + off, smt.size() - off); if (n <= 0) break; off += n; }
  close(fd);
  bool anyfp = false; for (auto *c : cs) anyfp |= c->isfp;
  bool nl = !anyfp || intOnly; (void)anyfp;
  char fi[] = "/tmp/csymiXXXXXX";
  if (nl) { int f2 = mkstemp(fi); if (f2 >= 0) { std::string t = toInt2(cs); size_t o = 0; while (o < t.size()) { ssize_t n = write(f2, t.data() + o, t.size() - o); if (n <= 0) break; o += n; } close(f2); } else nl = false; }
  std::vector<Ext> ex;
  if (nl) {
    ex.push_back({{"z3-new", fi, nullptr}, 0, -1, "", false});
    ex.push_back({{"cvc5", "--produce-models", fi, nullptr}, 0, -1, "", false});
  }
  if (!intOnly) {
    ex.push_back({{"z3-new", fn, nullptr}, 0, -1, "", false});
    ex.push_back({{"cvc5", "--produce-models", fn, nullptr}, 0, -1, "", false});
  }

  for (auto &x : ex) {
    int p[2]; if (pipe(p)) continue;
    x.pid = fork();
    if (!x.pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(p[1], 1); int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 2); close(p[0]); close(p[1]); execvp(x.argv[0], (char *const *)x.argv.data()); _exit(127); }
    close(p[1]); x.fd = p[0];
  }
  Res r = Res::Unknown;
  auto t0 = std::chrono::steady_clock::now();
  while (r == Res::Unknown) {
    std::vector<pollfd> pf; for (auto &x : ex) if (x.fd >= 0) pf.push_back({x.fd, POLLIN, 0});
    if (pf.empty()) break;
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > timeout) break;
    poll(pf.data(), pf.size(), 200);
    for (auto &q : pf) if (q.revents) for (auto &x : ex) if (x.fd == q.fd) {
      char buf[4096]; ssize_t n = read(x.fd, buf, sizeof buf);
      if (n > 0) x.out.append(buf, n);
      else {
        close(x.fd); x.fd = -1;
        if (x.out.find("(error") != std::string::npos && x.out.compare(0, 5, "unsat")) continue;
        if (!x.out.compare(0, 5, "unsat")) r = Res::Unsat;
        else if (!x.out.compare(0, 3, "sat")) { Model m; if (parseModel(x.out, m)) { newEvalEpoch(); bool ok = true; for (auto *c : cs) if (!evalExpr(c, m)) ok = false; if (ok) { out = m; r = Res::Sat; } else fprintf(stderr, "external model rejected (%s)\n", x.argv[0]); } }
      }
    }
  }
  for (auto &x : ex) { if (x.pid > 0) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); } if (x.fd >= 0) close(x.fd); }
  unlink(fn); if (nl) unlink(fi);
  return r;
}

static bool getModel(Z3_solver s, const std::vector<Expr *> &cs, Model &out) {
  Z3_model m = Z3_solver_get_model(ctx, s); if (!m) return false;
  Z3_model_inc_ref(ctx, m);
  std::unordered_set<uint32_t> vs; for (auto *c : cs) for (auto v : c->vars->v) vs.insert(v);
  for (auto v : vs) {
    Expr *e = gVars[v].e; Z3_ast r = nullptr;
    if (!Z3_model_eval(ctx, m, tr(e), true, &r) || !r) { Z3_model_dec_ref(ctx, m); return false; }
    u128 val = 0;
    if (e->w == 1) val = Z3_get_bool_value(ctx, r) == Z3_L_TRUE;
    else if (e->w <= 64) { uint64_t x = 0; if (!Z3_get_numeral_uint64(ctx, r, &x)) { Z3_model_dec_ref(ctx, m); return false; } val = x; }
    else { const char *s2 = Z3_get_numeral_string(ctx, r); for (; *s2; s2++) val = val * 10 + (*s2 - '0'); }
    out.m[v] = val;
  }
  Z3_model_dec_ref(ctx, m);
  return true;
}
static Z3_solver s1; static unsigned s1Uses = 0;
static Z3_params mkp(unsigned rl) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rl); return p; }

// Uses each conjunct that fixes a term (x = const, or a plain truth value) inside the other conjuncts. Returns false if
// the conjunction became trivially false.
static bool propagate(std::vector<Expr *> &cs) {
  typedef std::unordered_map<Expr *, Expr *> Map;
  auto facts = [](Expr *c, Map &fact) {
    auto add = [&](Expr *e, Expr *v) { if (!isConst(e)) fact.emplace(e, v); };
    bool neg = c->op == O_XOR && isTrue(c->k[0]); Expr *d = neg ? c->k[1] : c;
    if (!neg && c->op == O_EQ && isConst(c->k[0])) add(c->k[1], c->k[0]);
    add(d, neg ? mkFalse() : mkTrue());
    if (d->op == O_ULT) add(mkBin(O_ULE, d->k[1], d->k[0]), neg ? mkTrue() : mkFalse());
    else if (d->op == O_ULE) add(mkBin(O_ULT, d->k[1], d->k[0]), neg ? mkTrue() : mkFalse());
  };
  typedef std::unordered_map<Expr *, std::pair<u128, u128>> BM;
  struct B {
    BM m;
    void meet(Expr *e, u128 lo, u128 hi) {
      if (isConst(e) || lo > hi) return;
      auto it = m.emplace(e, std::make_pair((u128)0, maskw(e->w))).first; it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi);
      if (e->op == O_ZEXT) meet(e->k[0], lo, std::min(hi, maskw(e->k[0]->w)));
      if (e->op == O_UDIV && isConst(e->k[1]) && e->k[1]->c && e->w <= 64) { u128 c = e->k[1]->c; meet(e->k[0], lo * c, std::min(hi * c + c - 1, maskw(e->w))); }
    }
    void learn(Expr *d, bool neg) {
      if (d->op == O_XOR && d->w == 1 && isTrue(d->k[0])) return learn(d->k[1], !neg);
      if (d->op == O_AND && d->w == 1 && !neg) { learn(d->k[0], false); learn(d->k[1], false); return; }
      if (d->op == O_OR && d->w == 1 && neg) { learn(d->k[0], true); learn(d->k[1], true); return; }
      if (d->op != O_ULT && d->op != O_ULE) return;
      Expr *a = d->k[0], *b = d->k[1]; if (a->w > 64) return; bool st = d->op == O_ULT; if (neg) { std::swap(a, b); st = !st; }
      if (isConst(b)) { if (st && !b->c) return; meet(a, 0, b->c - (st ? 1 : 0)); } else if (isConst(a)) { if (st && a->c == maskw(a->w)) return; meet(b, a->c + (st ? 1 : 0), maskw(b->w)); }
    }
    std::pair<u128, u128> get(Expr *e, int d = 8) {
      if (isConst(e)) return {e->c, e->c};
      std::pair<u128, u128> r{e->w <= 64 ? e->lo : 0, e->w <= 64 ? e->hi : maskw(e->w)}; if (!d) return r;
      auto it = m.find(e); if (it != m.end()) { r.first = std::max(r.first, it->second.first); r.second = std::min(r.second, it->second.second); }
      std::pair<u128, u128> x = r;
      if (e->op == O_ZEXT) x = get(e->k[0], d - 1); else if (e->op == O_UDIV && isConst(e->k[1]) && e->k[1]->c) { x = get(e->k[0], d - 1); x.first /= e->k[1]->c; x.second /= e->k[1]->c; }
      else if (e->op == O_ADD && isConst(e->k[0]) && e->w <= 64) { auto y = get(e->k[1], d - 1); u128 lo = (y.first + e->k[0]->c) & maskw(e->w), hi = (y.second + e->k[0]->c) & maskw(e->w); if (y.first <= y.second && lo <= hi) x = {lo, hi}; }
      r.first = std::max(r.first, x.first); r.second = std::min(r.second, x.second); return r;
    }
  };
  auto foldCmp = [](Expr *root, B &b, Map &memo) {
    std::unordered_set<Expr *> seen; std::vector<Expr *> st{root};
    while (!st.empty()) { Expr *e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue;
      if ((e->op == O_ULT || e->op == O_ULE || e->op == O_EQ) && e->k[0]->w > 1 && e->k[0]->w <= 64 && !memo.count(e)) {
        auto x = b.get(e->k[0]), y = b.get(e->k[1]); if (x.first <= x.second && y.first <= y.second) {
        if (e->op == O_ULT) { if (x.second < y.first) memo[e] = mkTrue(); else if (x.first >= y.second) memo[e] = mkFalse(); }
        else if (e->op == O_ULE) { if (x.second <= y.first) memo[e] = mkTrue(); else if (x.first > y.second) memo[e] = mkFalse(); }
        else if (x.second < y.first || y.second < x.first) memo[e] = mkFalse(); }
      }
      if (e->op == O_UREM && isConst(e->k[1]) && e->w <= 64 && !memo.count(e)) { auto x = b.get(e->k[0]); if (x.first <= x.second && x.second < e->k[1]->c) memo[e] = e->k[0]; }
      if (e->op == O_UDIV && isConst(e->k[1]) && e->w <= 64 && !memo.count(e)) { auto x = b.get(e->k[0]); if (x.first <= x.second && x.second < e->k[1]->c) memo[e] = mkConst(0, e->w); }
      for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]); }
  };
  if (cs.size() > 200) return true;
  for (int round = 0; round < 4; round++) {
    bool ch = false;
    for (size_t i = 0; i < cs.size(); i++) {   // one at a time, so that two conjuncts never eliminate each other
      Map memo; for (size_t j = 0; j < cs.size(); j++) if (j != i) facts(cs[j], memo);
      B b; for (size_t j = 0; j < cs.size(); j++) if (j != i) b.learn(cs[j], false);
      if (!b.m.empty()) foldCmp(cs[i], b, memo);
      Expr *n = substExpr(cs[i], memo); if (n != cs[i]) { ch = true; cs[i] = n; }
      if (isFalse(n)) return false;
    }
    std::vector<Expr *> flat, out = cs;
    while (!out.empty()) { Expr *e = out.back(); out.pop_back(); if (isTrue(e)) continue; if (e->op == O_AND && e->w == 1) { out.push_back(e->k[0]); out.push_back(e->k[1]); ch = true; } else flat.push_back(e); }
    std::sort(flat.begin(), flat.end(), [](Expr *a, Expr *b) { return a->id < b->id; }); flat.erase(std::unique(flat.begin(), flat.end()), flat.end());
    cs = flat; if (!ch) break;
  }
  return true;
}
Res solveConj(const std::vector<Expr *> &cs0, Model &out) {
  std::vector<Expr *> cs = cs0;
  init();
  auto t0 = std::chrono::steady_clock::now();
  Res r = Res::Unknown; hadErr = false;
  bool anyfp = false; for (auto *c : cs) anyfp |= c->isfp;
  auto fin = [&]() {
    double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSS.time += t; if (t > gSS.maxTime) gSS.maxTime = t;
    if (r == Res::Sat) gSS.sat++; else if (r == Res::Unsat) gSS.unsat++; else gSS.unknown++;
    if (gSC.verbose && t > 1.0) { fprintf(stderr, "[slow query %.1fs res=%d n=%zu]\n", t, (int)r, cs.size()); for (auto *c : cs) fprintf(stderr, "   %s\n", exprStr(c, getenv("CSYM_DEPTH") ? atoi(getenv("CSYM_DEPTH")) : 5).c_str()); }
    if (!gSC.dumpDir.empty() && t > gSC.dumpT) { static int k = 0; char fn[512]; snprintf(fn, 512, "%s/q%d_%d.smt2", gSC.dumpDir.c_str(), (int)getpid(), k++); if (FILE *f = fopen(fn, "w")) { auto s = toSmt2(cs); fwrite(s.data(), 1, s.size(), f); fclose(f); snprintf(fn, 512, "%s/i%d_%d.smt2", gSC.dumpDir.c_str(), (int)getpid(), k - 1); if (FILE *g = fopen(fn, "w")) { s = toInt2(cs); fwrite(s.data(), 1, s.size(), g); fclose(g); } } }
    return r;
  };
  gSS.z3calls++;
  if (anyfp || nonlinear(cs)) {
    if (!propagate(cs)) { r = Res::Unsat; return fin(); }
    if (cs.empty()) { r = Res::Sat; return fin(); }
    anyfp = false; for (auto *c : cs) anyfp |= c->isfp;
  }
  if (!anyfp && nonlinear(cs)) {   // remainders by constants as free bounded values: enough when only their digits matter
    std::unordered_map<Expr *, Expr *> memo; std::vector<Expr *> ab; std::unordered_set<Expr *> seen; std::vector<Expr *> stk(cs.begin(), cs.end());
    static std::unordered_map<Expr *, Expr *> absVar;
    while (!stk.empty()) { Expr *e = stk.back(); stk.pop_back(); if (!seen.insert(e).second) continue;
      if (e->op == O_UREM && e->w > 16 && e->w <= 64 && isConst(e->k[1])) { Expr *&v = absVar[e]; if (!v) v = mkVar("abs" + std::to_string(e->id), e->w); memo[e] = v; ab.push_back(mkBin(O_ULE, v, mkConst(e->hi, e->w))); continue; }
      for (int i = 0; i < 3; i++) if (e->k[i]) stk.push_back(e->k[i]); }
    if (!ab.empty()) {
      for (auto *c : cs) ab.push_back(substExpr(c, memo));
      if (!nonlinear(ab)) {
        Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s); Z3_params p = mkp(gSC.rlimit1); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
        for (auto *c : ab) Z3_solver_assert(ctx, s, tr(c));
        if (Z3_solver_check(ctx, s) == Z3_L_FALSE && !hadErr) r = Res::Unsat; hadErr = false; Z3_solver_dec_ref(ctx, s); if (r == Res::Unsat) return fin();
      }
    }
  }
  unsigned rl2 = gSC.rlimit2; bool nl = !anyfp && nonlinear(cs); if (nl && gSC.extTimeout > 0) rl2 = std::min(rl2, 2000000u);
  for (int stage = 0; stage < 2 && r == Res::Unknown; stage++) {
    if (stage == 1 && gSC.extTimeout > 0 && (nl || anyfp || intFriendly(cs))) { r = runExternal(cs, out, 3, true); if (r != Res::Unknown) break; }
    Z3_solver s;
    if (stage == 0) {
      if (!s1 || ++s1Uses > 2000) { if (s1) Z3_solver_dec_ref(ctx, s1); s1 = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s1); s1Uses = 0; }
      s = s1; Z3_params p = mkp(nl ? gSC.rlimit1 / 8 : gSC.rlimit1); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); Z3_solver_push(ctx, s);
    } else {
      s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, anyfp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(ctx, s);
      Z3_params p = mkp(rl2); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    }
    for (auto *c : cs) Z3_solver_assert(ctx, s, tr(c));
    Z3_lbool b = Z3_solver_check(ctx, s);
    if (hadErr) b = Z3_L_UNDEF;
    if (b == Z3_L_TRUE) {
      Model m; if (getModel(s, cs, m)) {
        bool ok = true; for (auto *c : cs) if (!evalExpr(c, m)) { ok = false; if (!anyfp) { fprintf(stderr, "FATAL: z3 model does not satisfy %s\n", exprStr(c, 8).c_str()); } }
        if (ok) { out = std::move(m); r = Res::Sat; }
      }
    } else if (b == Z3_L_FALSE) r = Res::Unsat;
    if (stage == 0) Z3_solver_pop(ctx, s, 1); else Z3_solver_dec_ref(ctx, s);
    hadErr = false;
  }
  if (r == Res::Unknown && gSC.extTimeout > 0) r = runExternal(cs, out, gSC.extTimeout, false);
  return fin();
}
