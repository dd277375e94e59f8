// Symbolic machine state: copy-on-write memory, frames, path condition.
#pragma once
#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <set>

struct Val { uint64_t c; Expr *e; };
static inline Val cv(uint64_t c) { return Val{c, nullptr}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(Expr *e) { if (e->op == O_CONST && e->w <= 64) return Val{(uint64_t)e->c, nullptr}; return Val{0, e}; }

template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  explicit Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; T *q = p; p = o.p; if (q && --q->rc == 0) delete q; return *this; }
  Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
};

enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_EXN };
struct Obj {
  int rc = 0; uint32_t size; bool ro = false; ObjKind kind; uint8_t *b; Expr **s = nullptr; const void *site = nullptr;
  Obj(uint32_t n, ObjKind k) : size(n), kind(k) { b = (uint8_t *)malloc(n ? n : 1); }
  Obj(const Obj &o) : size(o.size), ro(o.ro), kind(o.kind), site(o.site) {
    b = (uint8_t *)malloc(size ? size : 1); memcpy(b, o.b, size);
    if (o.s) { s = (Expr **)malloc(sizeof(Expr *) * size); memcpy(s, o.s, sizeof(Expr *) * size); }
  }
  ~Obj() { free(b); free(s); }
  void needS() { if (!s && size) s = (Expr **)calloc(size, sizeof(Expr *)); }
  Expr *byteE(uint32_t i) const { return s && s[i] ? s[i] : mkConst(b[i], 8); }
  void setE(uint32_t i, Expr *e) { if (isConst(e)) { b[i] = (uint8_t)e->c; if (s) s[i] = nullptr; } else { needS(); s[i] = e; } }
};
struct Chunk { int rc = 0; Ref<Obj> o[64]; };
struct Space {
  std::vector<Ref<Chunk>> ch;
  Obj *get(uint32_t i) const { uint32_t c = i >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[i & 63].p; }
  Chunk *wchunk(uint32_t i) {
    uint32_t c = i >> 6; if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = Ref<Chunk>(new Chunk());
    else if (ch[c]->rc > 1) { Chunk *n = new Chunk(); for (int k = 0; k < 64; k++) n->o[k] = ch[c]->o[k]; ch[c] = Ref<Chunk>(n); }
    return ch[c].p;
  }
  void set(uint32_t i, Obj *o) { wchunk(i)->o[i & 63] = Ref<Obj>(o); }
  void erase(uint32_t i) {
    Chunk *c = wchunk(i); c->o[i & 63] = Ref<Obj>();
    for (int k = 0; k < 64; k++) if (c->o[k]) return;
    ch[i >> 6] = Ref<Chunk>();
  }
  Obj *getW(uint32_t i) { Chunk *c = wchunk(i); Ref<Obj> &r = c->o[i & 63]; if (!r) return nullptr; if (r->rc > 1) r = Ref<Obj>(new Obj(*r)); return r.p; }
};
static const uint32_t HEAP0 = 0x10000;

struct FuncInfo;
struct Frame {
  FuncInfo *f; uint32_t pc = 0; std::vector<Val> r; std::vector<uint32_t> allocas; std::vector<std::pair<unsigned, Val>> va;
};
typedef std::shared_ptr<Frame> FrameP;

struct SymRec { Expr *e; std::string name; };
struct ObsRec { std::string label; Expr *e; };
struct ExnRec { uint64_t obj, ti, dtor, adj; int handlers = 0; };

struct State {
  std::vector<FrameP> st;
  Space glob, heap; uint32_t nextId = HEAP0;
  std::vector<Expr *> pc, implied; ModelP model;
  std::vector<SymRec> syms; std::vector<ObsRec> obs;
  std::map<uint64_t, ExnRec> exns; std::vector<uint64_t> caught;
  std::map<const void *, uint32_t> forkCount;
  std::vector<uint32_t> coversHit;
  uint64_t steps = 0; uint32_t forks = 0;
  Frame &top() { FrameP &p = st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};
