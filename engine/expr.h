// Hash-consed bit-vector expressions (widths 1..512) with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT,
  O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FUNO, O_FPTRUNC, O_FPEXT,
  O_UITOFP, O_SITOFP, O_FPTOUI, O_FPTOSI
};
extern const char *opNames[];

struct Expr;
struct VarSet { std::vector<uint32_t> v; };   // sorted var indices

struct Expr {
  Op op;
  bool isfp;           // contains floating point operations
  uint16_t w;
  uint32_t aux;        // EXTRACT: low bit; VAR: var index
  uint32_t id;
  uint32_t ep = 0;     // eval epoch
  Expr *k[3];
  u128 c;              // CONST value (w<=128)
  uint64_t lo, hi;     // unsigned range, valid for w<=64
  uint64_t hash;
  VarSet *vars;
  u128 ev;             // eval memo
};

struct VarInfo { std::string name; uint16_t w; Expr *e; };
extern std::vector<VarInfo> gVars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkFcast(Op op, Expr *a, unsigned w);
static inline Expr *mkNot(Expr *a) { return mkBin(O_XOR, a, mkConst(~(u128)0, a->w)); }
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(O_EQ, a, b); }
static inline Expr *mkAnd(Expr *a, Expr *b) { return mkBin(O_AND, a, b); }
static inline Expr *mkOr(Expr *a, Expr *b) { return mkBin(O_OR, a, b); }
Expr *substExpr(Expr *e, std::unordered_map<Expr *, Expr *> &memo);
Expr *mkTrue(); Expr *mkFalse();
static inline bool isConst(Expr *e) { return e->op == O_CONST; }
static inline bool isTrue(Expr *e) { return e->op == O_CONST && e->w == 1 && e->c == 1; }
static inline bool isFalse(Expr *e) { return e->op == O_CONST && e->w == 1 && e->c == 0; }

// An assignment to variables (missing = 0). Vars wider than 128 bits do not exist.
struct Model { std::unordered_map<uint32_t, u128> m; };
typedef std::shared_ptr<const Model> ModelP;
u128 evalExpr(Expr *e, const Model &m);   // w<=128
void newEvalEpoch();
std::string exprStr(Expr *e, int depth = 6);
u128 foldBin(Op op, unsigned w, u128 a, u128 b, bool &ok);
u128 foldFcast(Op op, unsigned wi, unsigned wo, u128 a);
size_t exprCount();
