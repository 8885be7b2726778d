// Hash-consed bit-vector expressions (width 1..128), with folding.
#pragma once
#include <algorithm>
#include <iterator>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  CONST, SYM,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  NOT, // width 1 only
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FLT, FLE, FEQ, FUNO,
  SITOFP, UITOFP, FPTOSI, FPTOUI, FPCONV, FSQRT, FRND
};

struct Expr {
  Op op;
  bool taint;
  bool hasfp;
  uint16_t width;
  u32 aux; // EXTRACT low bit / SYM id
  u32 id;
  u32 depth;
  Expr *a, *b, *c;
  u128 val;
  const std::vector<u32> *syms; // sorted symbol ids
};
typedef Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}

struct SymInfo { std::string name; unsigned width; bool taint; };
extern std::vector<SymInfo> g_syms;
extern std::vector<E> g_symExprs;

struct ExprPool {
  struct Key { size_t operator()(const Expr *e) const {
      u64 h = e->op * 0x9E3779B97F4A7C15ull + e->width * 1315423911u + e->aux * 2654435761u;
      h ^= (u64)e->val * 0xff51afd7ed558ccdull; h ^= (u64)(e->val >> 64) * 0xc4ceb9fe1a85ec53ull;
      h = (h ^ (h >> 29)) + (u64)(uintptr_t)e->a * 0x9E3779B97F4A7C15ull;
      h = (h ^ (h >> 31)) + (u64)(uintptr_t)e->b * 0xC2B2AE3D27D4EB4Full;
      h = (h ^ (h >> 30)) + (u64)(uintptr_t)e->c * 0x165667B19E3779F9ull;
      return h ^ (h >> 32);
    } };
  struct Eqk { bool operator()(const Expr *x, const Expr *y) const {
      return x->op == y->op && x->width == y->width && x->aux == y->aux && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c;
    } };
  std::unordered_set<Expr *, Key, Eqk> set;
  std::vector<char *> blocks;
  size_t used = 0, cap = 0;
  u32 n = 0;
  static const std::vector<u32> &empty() { static std::vector<u32> e; return e; }
  struct VH { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h = h * 1000003u + x; return h; } };
  std::unordered_set<std::vector<u32>, VH> symsets;
  E intern(Op op, unsigned w, E a = 0, E b = 0, E c = 0, u32 aux = 0, u128 val = 0) {
    Expr t;
    t.op = op; t.width = w; t.aux = aux; t.a = a; t.b = b; t.c = c; t.val = val;
    auto it = set.find(&t);
    if (it != set.end()) return *it;
    if (used + sizeof(Expr) > cap) { cap = 1 << 20; used = 0; blocks.push_back((char *)malloc(cap)); }
    E e = new (blocks.back() + used) Expr(t);
    used += sizeof(Expr);
    e->id = ++n;
    e->taint = (a && a->taint) || (b && b->taint) || (c && c->taint);
    e->hasfp = (op >= FADD) || (a && a->hasfp) || (b && b->hasfp) || (c && c->hasfp);
    u32 d = 0;
    if (a) d = std::max(d, a->depth); if (b) d = std::max(d, b->depth); if (c) d = std::max(d, c->depth);
    e->depth = d + 1;
    if (op == SYM) {
      std::vector<u32> v{aux};
      e->syms = &*symsets.insert(v).first;
    } else {
      const std::vector<u32> *s = &empty();
      for (E ch : {a, b, c}) if (ch && ch->syms != s && !ch->syms->empty()) {
          if (s->empty()) { s = ch->syms; continue; }
          std::vector<u32> m; m.reserve(s->size() + ch->syms->size());
          std::set_union(s->begin(), s->end(), ch->syms->begin(), ch->syms->end(), std::back_inserter(m));
          s = &*symsets.insert(std::move(m)).first;
        }
      e->syms = s;
    }
    set.insert(e);
    return e;
  }
};
extern ExprPool P;

static inline bool isC(E e) { return e->op == CONST; }
static inline E mkC(u128 v, unsigned w) { return P.intern(CONST, w, 0, 0, 0, 0, v & maskw(w)); }
static inline bool isTrue(E e) { return isC(e) && e->val; }
static inline bool isFalse(E e) { return isC(e) && !e->val; }
E mkSym(const std::string &name, unsigned w, bool taint = false);

double asD(u64 b); float asF(u32 b); u64 bitsD(double d); u32 bitsF(float f);
u128 foldOp(Op op, unsigned w, E a, E b, E c, u32 aux, u128 va, u128 vb, u128 vc);

E mk(Op op, unsigned w, E a, E b = 0, E c = 0, u32 aux = 0);
static inline E mkNot(E e) { return mk(NOT, 1, e); }
static inline E mkAnd(E a, E b) { return mk(AND, a->width, a, b); }
static inline E mkOr(E a, E b) { return mk(OR, a->width, a, b); }
static inline E mkEq(E a, E b) { return mk(EQ, 1, a, b); }
static inline E mkIte(E c, E t, E f) { return mk(ITE, t->width, c, t, f); }
static inline E mkExtract(E a, u32 lo, unsigned w) { return mk(EXTRACT, w, a, 0, 0, lo); }
static inline E mkConcat(E hi, E lo) { return mk(CONCAT, hi->width + lo->width, hi, lo); }
static inline E mkZext(E a, unsigned w) { return w == a->width ? a : mk(ZEXT, w, a); }
static inline E mkSext(E a, unsigned w) { return w == a->width ? a : mk(SEXT, w, a); }
std::string estr(E e, int depth = 6);
