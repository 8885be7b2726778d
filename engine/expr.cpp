#include <algorithm>
#include <iterator>
#include "expr.h"
#include <cfenv>

std::vector<SymInfo> g_syms;
std::vector<E> g_symExprs;
ExprPool P;

double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
float asF(u32 b) { float d; memcpy(&d, &b, 4); return d; }
u64 bitsD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
u32 bitsF(float d) { u32 b; memcpy(&b, &d, 4); return b; }

E mkSym(const std::string &name, unsigned w, bool taint) {
  u32 id = g_syms.size();
  g_syms.push_back({name, w, taint});
  E e = P.intern(SYM, w, 0, 0, 0, id, 0);
  e->taint = taint;
  g_symExprs.push_back(e);
  return e;
}

static u128 fpconv(u128 v, unsigned from, unsigned to) {
  if (from == to) return v;
  if (from == 32) return bitsD((double)asF((u32)v));
  return bitsF((float)asD((u64)v));
}

u128 foldOp(Op op, unsigned w, E ea, E eb, E ec, u32 aux, u128 a, u128 b, u128 c) {
  unsigned aw = ea ? ea->width : 0;
  (void)eb; (void)ec;
  u128 m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? (a / b) & m : m;
  case UREM: return b ? (a % b) & m : a;
  case SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
  case SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
  case ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sextw(a, aw) < sextw(b, aw);
  case SLE: return sextw(a, aw) <= sextw(b, aw);
  case NOT: return !a;
  case ITE: return a ? b : c;
  case CONCAT: return (a << eb->width) | b;
  case EXTRACT: return (a >> aux) & m;
  case ZEXT: return a;
  case SEXT: return (u128)sextw(a, aw) & m;
  case FADD: return w == 32 ? bitsF(asF(a) + asF(b)) : bitsD(asD(a) + asD(b));
  case FSUB: return w == 32 ? bitsF(asF(a) - asF(b)) : bitsD(asD(a) - asD(b));
  case FMUL: return w == 32 ? bitsF(asF(a) * asF(b)) : bitsD(asD(a) * asD(b));
  case FDIV: return w == 32 ? bitsF(asF(a) / asF(b)) : bitsD(asD(a) / asD(b));
  case FREM: return w == 32 ? bitsF(fmodf(asF(a), asF(b))) : bitsD(fmod(asD(a), asD(b)));
  case FLT: return aw == 32 ? asF(a) < asF(b) : asD(a) < asD(b);
  case FLE: return aw == 32 ? asF(a) <= asF(b) : asD(a) <= asD(b);
  case FEQ: return aw == 32 ? asF(a) == asF(b) : asD(a) == asD(b);
  case FUNO: return aw == 32 ? (asF(a) != asF(a) || asF(b) != asF(b)) : (asD(a) != asD(a) || asD(b) != asD(b));
  case SITOFP: { i128 x = sextw(a, aw); return w == 32 ? (u128)bitsF((float)(i64)x) : (u128)bitsD((double)(i64)x); }
  case UITOFP: return w == 32 ? (u128)bitsF((float)(u64)a) : (u128)bitsD((double)(u64)a);
  case FPTOSI: { double d = aw == 32 ? asF(a) : asD(a); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return ((u128)1 << (w - 1)) & m; return (u128)(i128)(i64)d & m; }
  case FPTOUI: { double d = aw == 32 ? asF(a) : asD(a); if (!(d > -1.0 && d < 18446744073709551616.0)) return 0; return (u128)(u64)d & m; }
  case FPCONV: return fpconv(a, aw, w);
  case FSQRT: return w == 32 ? (u128)bitsF(sqrtf(asF(a))) : (u128)bitsD(sqrt(asD(a)));
  case FRND: { double d = w == 32 ? asF(a) : asD(a);
      double r = aux == 0 ? floor(d) : aux == 1 ? ceil(d) : aux == 2 ? trunc(d) : aux == 3 ? round(d) : nearbyint(d);
      return w == 32 ? (u128)bitsF((float)r) : (u128)bitsD(r); }
  default: abort();
  }
}

// Bounds of an expression's signed value, from its structure alone.
struct Rng { i128 lo, hi; };
static Rng srange(E e, int depth = 10) {
  unsigned w = e->width;
  Rng full{-((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1};
  if (w > 64) return Rng{-((i128)1 << 100), (i128)1 << 100};
  if (e->op == CONST) { i128 v = sextw(e->val, w); return {v, v}; }
  if (!depth) return full;
  Rng r = full;
  switch (e->op) {
  case ZEXT: { Rng a = srange(e->a, depth - 1); if (a.lo >= 0) r = a; else r = {0, ((i128)1 << e->a->width) - 1}; break; }
  case SEXT: r = srange(e->a, depth - 1); break;
  case ADD: { Rng a = srange(e->a, depth - 1), b = srange(e->b, depth - 1); r = {a.lo + b.lo, a.hi + b.hi}; break; }
  case SUB: { Rng a = srange(e->a, depth - 1), b = srange(e->b, depth - 1); r = {a.lo - b.hi, a.hi - b.lo}; break; }
  case MUL: if (isC(e->b) && w <= 64) { Rng a = srange(e->a, depth - 1); i128 c = sextw(e->b->val, w); if (c > -((i128)1 << 40) && c < ((i128)1 << 40)) { i128 x = a.lo * c, y = a.hi * c; r = {std::min(x, y), std::max(x, y)}; } } break;
  case ITE: { Rng a = srange(e->b, depth - 1), b = srange(e->c, depth - 1); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
  case CONCAT: if (isC(e->b)) { Rng a = srange(e->a, depth - 1); unsigned k = e->b->width; i128 m = (i128)1 << k; r = {a.lo * m, a.hi * m + (m - 1)}; } break;
  default: break;
  }
  if (r.lo < full.lo || r.hi > full.hi) return full;
  return r;
}
static unsigned sbits(E e) {
  if (e->width > 64) return e->width;
  Rng r = srange(e);
  unsigned n = 1;
  while (n < e->width && !(r.lo >= -((i128)1 << (n - 1)) && r.hi < ((i128)1 << (n - 1)))) n++;
  return n;
}

static bool comm(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

E mk(Op op, unsigned w, E a, E b, E c, u32 aux) {
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
    return mkC(foldOp(op, w, a, b, c, aux, a->val, b ? b->val : 0, c ? c->val : 0), w);
  if (comm(op)) { // constant on the right, then by id
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  switch (op) {
  case ADD:
    if (isC(b)) {
      if (!b->val) return a;
      if (a->op == ADD && isC(a->b)) return mk(ADD, w, a->a, mkC(a->b->val + b->val, w));
      if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mk(ADD, w, a->b, b), mk(ADD, w, a->c, b));
    } else {
      if (a->op == ADD && isC(a->b)) return mk(ADD, w, mk(ADD, w, a->a, b), a->b);
      if (b->op == ADD && isC(b->b)) return mk(ADD, w, mk(ADD, w, a, b->a), b->b);
      if (b->op == SUB && b->b == a) return b->a;
      if (a->op == SUB && a->b == b) return a->a;
      // p*c + (p*-c + q), p*c + p*-c
      for (int i = 0; i < 2; i++) {
        E x = i ? b : a, y = i ? a : b;
        if (x->op != MUL || !isC(x->b)) continue;
        auto opp = [&](E z) { return z->op == MUL && isC(z->b) && z->a == x->a && ((z->b->val + x->b->val) & maskw(w)) == 0; };
        if (opp(y)) return mkC(0, w);
        if (y->op == ADD && opp(y->a)) return y->b;
        if (y->op == ADD && opp(y->b)) return y->a;
      }
    }
    break;
  case SUB:
    if (a == b) return mkC(0, w);
    if (isC(b)) return mk(ADD, w, a, mkC(0 - b->val, w));
    if (a->op == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->op == ADD && isC(b->b)) return mk(ADD, w, mk(SUB, w, a, b->a), mkC(0 - b->b->val, w));
    if (a->op == ADD && isC(a->b)) return mk(ADD, w, mk(SUB, w, a->a, b), a->b);
    break;
  case MUL:
    if (isC(b)) {
      if (!b->val) return b;
      if (b->val == 1) return a;
      if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mk(MUL, w, a->b, b), mk(MUL, w, a->c, b));
      if ((b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mk(SHL, w, a, mkC(k, w)); }
    }
    break;
  case UDIV: case SDIV:
    if (isC(b) && b->val == 1) return a;
    if (op == UDIV && isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mk(LSHR, w, a, mkC(k, w)); }
    break;
  case UREM:
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(AND, w, a, mkC(b->val - 1, w));
    break;
  case AND:
    if (a == b) return a;
    if (isC(b)) {
      if (!b->val) return b;
      if (b->val == maskw(w)) return a;
      if (a->op == AND && isC(a->b)) return mk(AND, w, a->a, mkC(a->b->val & b->val, w));
      if (a->op == ZEXT) { unsigned aw = a->a->width; if ((b->val & maskw(aw)) == maskw(aw)) return a; return mkZext(mk(AND, aw, a->a, mkC(b->val, aw)), w); }
      // low mask
      if (((b->val + 1) & b->val) == 0) { unsigned k = 0; while ((b->val >> k) & 1) k++; return mkZext(mkExtract(a, 0, k), w); }
      if (a->op == CONCAT) { unsigned lw = a->b->width; return mkConcat(mk(AND, a->a->width, a->a, mkC(b->val >> lw, a->a->width)), mk(AND, lw, a->b, mkC(b->val, lw))); }
    }
    if (w == 1) {
      if ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a)) return mkC(0, 1);
    }
    break;
  case OR:
    if (a == b) return a;
    if (isC(b)) {
      if (!b->val) return a;
      if (b->val == maskw(w)) return b;
    }
    if (w == 1) {
      if ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a)) return mkC(1, 1);
    }
    // (zext x) | (y << k)  -> concat
    for (int i = 0; i < 2 && !isC(b); i++) {
      E x = i ? b : a, y = i ? a : b;
      if (x->op == ZEXT && y->op == CONCAT && isC(y->b) && y->b->val == 0 && x->a->width <= y->b->width)
        return mkConcat(y->a, mkZext(x->a, y->b->width));
      if (x->op == CONCAT && isC(x->a) && x->a->val == 0 && y->op == CONCAT && isC(y->b) && y->b->val == 0 && x->b->width <= y->b->width)
        return mkConcat(y->a, mkZext(x->b, y->b->width));
    }
    break;
  case XOR:
    if (a == b) return mkC(0, w);
    if (isC(b)) {
      if (!b->val) return a;
      if (w == 1) return mkNot(a);
    }
    break;
  case SHL:
    if (isC(b)) {
      if (!b->val) return a;
      if (b->val >= w) return mkC(0, w);
      unsigned k = (unsigned)b->val;
      return mkConcat(mkExtract(a, 0, w - k), mkC(0, k));
    }
    break;
  case LSHR:
    if (isC(b)) {
      if (!b->val) return a;
      if (b->val >= w) return mkC(0, w);
      unsigned k = (unsigned)b->val;
      return mkZext(mkExtract(a, k, w - k), w);
    }
    break;
  case ASHR:
    if (isC(b)) {
      if (!b->val) return a;
      unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
      return mkSext(mkExtract(a, k, w - k), w);
    }
    break;
  case EQ:
    if (a == b) return mkC(1, 1);
    if (a->width == 1) {
      if (isC(b)) return b->val ? a : mkNot(a);
    }
    if (isC(b)) {
      if (a->op == ITE) {
        if (isC(a->b) || isC(a->c)) {
          E t = mkEq(a->b, b), f = mkEq(a->c, b);
          return mkIte(a->a, t, f);
        }
      }
      if (a->op == ZEXT) {
        unsigned aw = a->a->width;
        if (b->val >> aw) return mkC(0, 1);
        return mkEq(a->a, mkC(b->val, aw));
      }
      if (a->op == SEXT) {
        unsigned aw = a->a->width;
        u128 lowv = b->val & maskw(aw);
        if (((u128)sextw(lowv, aw) & maskw(w = a->width)) != b->val) return mkC(0, 1);
        return mkEq(a->a, mkC(lowv, aw));
      }
      if (a->op == CONCAT) {
        unsigned lw = a->b->width;
        E l = mkEq(a->b, mkC(b->val, lw));
        if (isFalse(l)) return l;
        E h = mkEq(a->a, mkC(b->val >> lw, a->a->width));
        return mkAnd(h, l);
      }
      if (a->op == ADD && isC(a->b)) return mkEq(a->a, mkC(b->val - a->b->val, a->width));
      if (a->op == SUB && b->val == 0) return mkEq(a->a, a->b);
    } else {
      if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
      if (a->op == ADD && b->op == ADD) {
        if (a->a == b->a) return mkEq(a->b, b->b);
        if (a->b == b->b) return mkEq(a->a, b->a);
      }
      if (a->op == ADD && (a->a == b || a->b == b)) return mkEq(a->a == b ? a->b : a->a, mkC(0, a->width));
      if (b->op == ADD && (b->a == a || b->b == a)) return mkEq(b->a == a ? b->b : b->a, mkC(0, a->width));
    }
    break;
  case ULT:
    if (a == b) return mkC(0, 1);
    if (isC(b)) {
      if (b->val == 0) return mkC(0, 1);
      if (b->val == 1) return mkEq(a, mkC(0, a->width));
      if (a->op == ZEXT) { unsigned aw = a->a->width; if (b->val >> aw) return mkC(1, 1); return mk(ULT, 1, a->a, mkC(b->val, aw)); }
      if (a->op == CONCAT && isC(a->a) && a->a->val == 0) { unsigned lw = a->b->width; if (b->val >> lw) return mkC(1, 1); return mk(ULT, 1, a->b, mkC(b->val, lw)); }
    }
    if (isC(a)) {
      if (a->val == maskw(a->width)) return mkC(0, 1);
      if (b->op == ZEXT) { unsigned bw = b->a->width; if (a->val >= maskw(bw)) return mkC(0, 1); return mk(ULT, 1, mkC(a->val, bw), b->a); }
    }
    if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mk(ULT, 1, a->a, b->a);
    break;
  case ULE:
    return mkNot(mk(ULT, 1, b, a));
  case SLT:
    if (a == b) return mkC(0, 1);
    if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mk(ULT, 1, a->a, b->a);
    if (a->op == SEXT && b->op == SEXT && a->a->width == b->a->width) return mk(SLT, 1, a->a, b->a);
    if (isC(b) && a->op == ZEXT) {
      i128 v = sextw(b->val, b->width);
      if (v <= 0) return mkC(0, 1);
      return mk(ULT, 1, a, b);
    }
    if (isC(a) && b->op == ZEXT) {
      i128 v = sextw(a->val, a->width);
      if (v < 0) return mkC(1, 1);
      return mk(ULT, 1, a, b);
    }
    if (a->width <= 64 && a->width > 1) {
      Rng x = srange(a), y = srange(b);
      if (x.hi < y.lo) return mkC(1, 1);
      if (x.lo >= y.hi) return mkC(0, 1);
    }
    break;
  case SLE:
    return mkNot(mk(SLT, 1, b, a));
  case NOT:
    if (a->op == NOT) return a->a;
    if (a->op == ITE) { if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkNot(a->b), mkNot(a->c)); }
    break;
  case ITE:
    if (isC(a)) return a->val ? b : c;
    if (b == c) return b;
    if (a->op == NOT) return mkIte(a->a, c, b);
    if (w == 1) {
      if (isTrue(b) && isFalse(c)) return a;
      if (isFalse(b) && isTrue(c)) return mkNot(a);
      if (isTrue(b)) return mkOr(a, c);
      if (isFalse(b)) return mkAnd(mkNot(a), c);
      if (isTrue(c)) return mkOr(mkNot(a), b);
      if (isFalse(c)) return mkAnd(a, b);
    }
    if (b->op == ITE && b->a == a) return mkIte(a, b->b, c);
    if (c->op == ITE && c->a == a) return mkIte(a, b, c->c);
    if (b->op == ITE && b->c == c) return mkIte(mkAnd(a, b->a), b->b, c);
    if (c->op == ITE && c->b == b) return mkIte(mkOr(a, c->a), b, c->c);
    break;
  case CONCAT:
    if (isC(a) && a->val == 0) {
      // zext
      return mkZext(b, w);
    }
    if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->aux == b->aux + b->width)
      return mkExtract(a->a, b->aux, w);
    // the low part of a sum or product may have been narrowed
    if (a->op == EXTRACT && b->op != EXTRACT && a->aux == b->width && (a->a->op == ADD || a->a->op == SUB || a->a->op == MUL || a->a->op == AND || a->a->op == OR || a->a->op == XOR) && mkExtract(a->a, 0, b->width) == b) return mkExtract(a->a, 0, w);
    if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && a->aux == b->a->aux + b->a->width)
      return mkConcat(mkExtract(a->a, b->a->aux, a->width + b->a->width), b->b);
    if (isC(a) && b->op == CONCAT && isC(b->a)) return mkConcat(mkC((a->val << b->a->width) | b->a->val, a->width + b->a->width), b->b);
    if (isC(b) && a->op == CONCAT && isC(a->b)) return mkConcat(a->a, mkC((a->b->val << b->width) | b->val, a->b->width + b->width));
    if (a->op == ZEXT) return mkZext(mkConcat(a->a, b), w);
    // right-associate
    if (a->op == CONCAT) return mkConcat(a->a, mkConcat(a->b, b));
    break;
  case EXTRACT:
    if (aux == 0 && w == a->width) return a;
    if (a->op == EXTRACT) return mkExtract(a->a, a->aux + aux, w);
    if (a->op == CONCAT) {
      unsigned lw = a->b->width;
      if (aux >= lw) return mkExtract(a->a, aux - lw, w);
      if (aux + w <= lw) return mkExtract(a->b, aux, w);
      return mkConcat(mkExtract(a->a, 0, aux + w - lw), mkExtract(a->b, aux, lw - aux));
    }
    if (a->op == ZEXT) {
      unsigned aw = a->a->width;
      if (aux >= aw) return mkC(0, w);
      if (aux + w <= aw) return mkExtract(a->a, aux, w);
      return mkZext(mkExtract(a->a, aux, aw - aux), w);
    }
    if (a->op == SEXT) {
      unsigned aw = a->a->width;
      if (aux + w <= aw) return mkExtract(a->a, aux, w);
      if (aux < aw) return mkSext(mkExtract(a->a, aux, aw - aux), w);
      return mkSext(mkExtract(a->a, aw - 1, 1), w);
    }
    if (a->op == ITE && (isC(a->b) || isC(a->c) || a->b->op == ZEXT || a->c->op == ZEXT || a->b->op==CONCAT || a->c->op==CONCAT || a->b->op==ITE || a->c->op==ITE))
      return mkIte(a->a, mkExtract(a->b, aux, w), mkExtract(a->c, aux, w));
    if (a->op == AND || a->op == OR || a->op == XOR)
      return mk(a->op, w, mkExtract(a->a, aux, w), mkExtract(a->b, aux, w));
    if (aux == 0 && (a->op == ADD || a->op == SUB || a->op == MUL)) {
      return mk(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    }
    break;
  case ZEXT:
    if (a->width == w) return a;
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
    break;
  case SEXT:
    if (a->width == w) return a;
    if (a->op == SEXT) return mkSext(a->a, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
    break;
  case FPCONV:
    if (a->width == w) return a;
    break;
  case FDIV: case FMUL: // an integer's value over (times) one
    if (op == FMUL && isC(a)) std::swap(a, b);
    if (isC(b) && w == 64 && b->val == bitsD(1.0) && (a->op == SITOFP || a->op == UITOFP)) return a;
    break;
  case FLT: case FLE: { // exact conversions compare as integers
    auto ex = [](E e) { return e->op == SITOFP && e->a->width <= 64 && sbits(e->a) <= (e->width == 64 ? 53u : 24u); };
    if (ex(a) && ex(b)) return mk(op == FLT ? SLT : SLE, 1, mkSext(a->a, 64), mkSext(b->a, 64));
    if (a->width == 64 && ((ex(a) && isC(b)) || (isC(a) && ex(b)))) {
      double v = asD((u64)(isC(a) ? a->val : b->val));
      Rng r = srange(isC(a) ? b->a : a->a);
      double lo = (double)(i64)r.lo, hi = (double)(i64)r.hi;
      if (v == v) {
        if (isC(b)) { if (op == FLT ? hi < v : hi <= v) return mkC(1, 1); if (op == FLT ? lo >= v : lo > v) return mkC(0, 1); }
        else { if (op == FLT ? v < lo : v <= lo) return mkC(1, 1); if (op == FLT ? v >= hi : v > hi) return mkC(0, 1); }
        if (v == floor(v) && fabs(v) < 4e18) {
          E c = mkC((u64)(i64)v, 64), x = mkSext(isC(a) ? b->a : a->a, 64);
          return mk(op == FLT ? SLT : SLE, 1, isC(a) ? c : x, isC(a) ? x : c);
        }
      }
    }
    break;
  }
  case FPTOSI: // back from an exact conversion
    if (a->op == SITOFP && sbits(a->a) <= (a->width == 64 ? 53u : 24u) && sbits(a->a) <= w)
      return w > a->a->width ? mkSext(a->a, w) : mkExtract(a->a, 0, w);
    break;
  default: break;
  }
  return P.intern(op, w, a, b, c, aux);
}

std::string estr(E e, int depth) {
  static const char *names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "flt", "fle", "feq", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpconv", "fsqrt", "frnd"};
  char buf[64];
  if (e->op == CONST) { snprintf(buf, 64, "%llx:%u", (unsigned long long)e->val, e->width); return buf; }
  if (e->op == SYM) return g_syms[e->aux].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + names[e->op];
  if (e->op == EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->aux, e->width); s += buf; }
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + estr(c, depth - 1);
  return s + ")";
}
