#include "solver.h"
#include <algorithm>
#include <chrono>
#include <z3++.h>

SolverStats g_ss;
bool g_solverUnknown = false;
static unsigned g_timeout = 60000;
static z3::context *C;
static z3::solver *S, *SF;
static std::unordered_map<E, z3::expr> *trmap;
static std::vector<z3::expr> *symz;

void solverInit(unsigned timeoutMs) {
  g_timeout = timeoutMs;
  C = new z3::context();
  trmap = new std::unordered_map<E, z3::expr>();
  symz = new std::vector<z3::expr>();
  S = new z3::solver(*C, "QF_BV");
  z3::params p(*C);
  p.set("timeout", g_timeout);
  S->set(p);
  SF = nullptr;
}

static z3::sort fsort(unsigned w) { return w == 32 ? C->fpa_sort(8, 24) : C->fpa_sort(11, 53); }
static z3::expr rne() { return z3::expr(*C, Z3_mk_fpa_rne(*C)); }
static z3::expr rtz() { return z3::expr(*C, Z3_mk_fpa_rtz(*C)); }
static z3::expr tofp(const z3::expr &bv, unsigned w) { return z3::expr(*C, Z3_mk_fpa_to_fp_bv(*C, bv, fsort(w))); }
static z3::expr frombits(const z3::expr &f) { return z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, f)); }
static z3::expr W(Z3_ast a) { return z3::expr(*C, a); }

static z3::expr symFor(u32 id) {
  while (symz->size() <= id) {
    u32 i = symz->size();
    unsigned w = g_syms[i].width;
    std::string n = "s" + std::to_string(i);
    symz->push_back(w == 1 ? C->bool_const(n.c_str()) : C->bv_const(n.c_str(), w));
  }
  return (*symz)[id];
}

static z3::expr constFor(u128 v, unsigned w) {
  if (w == 1) return C->bool_val(v != 0);
  if (w <= 64) return C->bv_val((uint64_t)v, w);
  return z3::concat(C->bv_val((uint64_t)(v >> 64), w - 64), C->bv_val((uint64_t)v, 64));
}

// as bit-vector even for width one
static z3::expr bvOf(const z3::expr &e, unsigned w) {
  if (w == 1) return z3::ite(e, C->bv_val(1, 1), C->bv_val(0, 1));
  return e;
}
static z3::expr fromBv(const z3::expr &e, unsigned w) {
  if (w == 1) return e == C->bv_val(1, 1);
  return e;
}

static z3::expr tr(E root) {
  auto it0 = trmap->find(root);
  if (it0 != trmap->end()) return it0->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (trmap->count(e)) { st.pop_back(); continue; }
    bool ready = true;
    for (E ch : {e->a, e->b, e->c}) if (ch && !trmap->count(ch)) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto g = [&](E x) { return trmap->find(x)->second; };
    unsigned w = e->width, aw = e->a ? e->a->width : 0;
    z3::expr r(*C);
    switch (e->op) {
    case CONST: r = constFor(e->val, w); break;
    case SYM: r = symFor(e->aux); break;
    case NOT: r = !g(e->a); break;
    case ITE: r = z3::ite(g(e->a), g(e->b), g(e->c)); break;
    case EQ: r = g(e->a) == g(e->b); break;
    case AND: r = w == 1 ? g(e->a) && g(e->b) : (g(e->a) & g(e->b)); break;
    case OR: r = w == 1 ? g(e->a) || g(e->b) : (g(e->a) | g(e->b)); break;
    case XOR: r = w == 1 ? g(e->a) != g(e->b) : (g(e->a) ^ g(e->b)); break;
    case CONCAT: r = z3::concat(bvOf(g(e->a), aw), bvOf(g(e->b), e->b->width)); break;
    case EXTRACT: r = fromBv(bvOf(g(e->a), aw).extract(e->aux + w - 1, e->aux), w); break;
    case ZEXT: r = z3::zext(bvOf(g(e->a), aw), w - aw); break;
    case SEXT: r = z3::sext(bvOf(g(e->a), aw), w - aw); break;
    case ULT: r = z3::ult(bvOf(g(e->a), aw), bvOf(g(e->b), aw)); break;
    case ULE: r = z3::ule(bvOf(g(e->a), aw), bvOf(g(e->b), aw)); break;
    case SLT: r = z3::slt(bvOf(g(e->a), aw), bvOf(g(e->b), aw)); break;
    case SLE: r = z3::sle(bvOf(g(e->a), aw), bvOf(g(e->b), aw)); break;
    case FLT: r = W(Z3_mk_fpa_lt(*C, tofp(g(e->a), aw), tofp(g(e->b), aw))); break;
    case FLE: r = W(Z3_mk_fpa_leq(*C, tofp(g(e->a), aw), tofp(g(e->b), aw))); break;
    case FEQ: r = W(Z3_mk_fpa_eq(*C, tofp(g(e->a), aw), tofp(g(e->b), aw))); break;
    case FUNO: r = W(Z3_mk_fpa_is_nan(*C, tofp(g(e->a), aw))) || W(Z3_mk_fpa_is_nan(*C, tofp(g(e->b), aw))); break;
    case FADD: r = frombits(W(Z3_mk_fpa_add(*C, rne(), tofp(g(e->a), w), tofp(g(e->b), w)))); break;
    case FSUB: r = frombits(W(Z3_mk_fpa_sub(*C, rne(), tofp(g(e->a), w), tofp(g(e->b), w)))); break;
    case FMUL: r = frombits(W(Z3_mk_fpa_mul(*C, rne(), tofp(g(e->a), w), tofp(g(e->b), w)))); break;
    case FDIV: r = frombits(W(Z3_mk_fpa_div(*C, rne(), tofp(g(e->a), w), tofp(g(e->b), w)))); break;
    case FREM: r = frombits(W(Z3_mk_fpa_rem(*C, tofp(g(e->a), w), tofp(g(e->b), w)))); break;
    case FSQRT: r = frombits(W(Z3_mk_fpa_sqrt(*C, rne(), tofp(g(e->a), w)))); break;
    case FRND: {
      z3::expr rm = e->aux == 0 ? W(Z3_mk_fpa_rtn(*C)) : e->aux == 1 ? W(Z3_mk_fpa_rtp(*C)) : e->aux == 2 ? rtz() : e->aux == 3 ? W(Z3_mk_fpa_rna(*C)) : rne();
      r = frombits(W(Z3_mk_fpa_round_to_integral(*C, rm, tofp(g(e->a), w)))); break;
    }
    case SITOFP: r = frombits(W(Z3_mk_fpa_to_fp_signed(*C, rne(), bvOf(g(e->a), aw), fsort(w)))); break;
    case UITOFP: r = frombits(W(Z3_mk_fpa_to_fp_unsigned(*C, rne(), bvOf(g(e->a), aw), fsort(w)))); break;
    case FPTOSI: r = fromBv(W(Z3_mk_fpa_to_sbv(*C, rtz(), tofp(g(e->a), aw), w)), w); break;
    case FPTOUI: r = fromBv(W(Z3_mk_fpa_to_ubv(*C, rtz(), tofp(g(e->a), aw), w)), w); break;
    case FPCONV: r = frombits(W(Z3_mk_fpa_to_fp_float(*C, rne(), tofp(g(e->a), aw), fsort(w)))); break;
    default: {
      if (w == 1) { // arithmetic on i1
        z3::expr a = bvOf(g(e->a), 1), b = bvOf(g(e->b), 1);
        z3::expr x = a;
        switch (e->op) {
        case ADD: case SUB: x = a ^ b; break;
        case MUL: x = a & b; break;
        default: x = a; break;
        }
        r = fromBv(x, 1);
        break;
      }
      z3::expr a = g(e->a), b = g(e->b);
      switch (e->op) {
      case ADD: r = a + b; break;
      case SUB: r = a - b; break;
      case MUL: r = a * b; break;
      case UDIV: r = z3::udiv(a, b); break;
      case SDIV: r = a / b; break;
      case UREM: r = z3::urem(a, b); break;
      case SREM: r = z3::srem(a, b); break;
      case SHL: r = z3::shl(a, b); break;
      case LSHR: r = z3::lshr(a, b); break;
      case ASHR: r = z3::ashr(a, b); break;
      default: abort();
      }
    }
    }
    trmap->emplace(e, r);
  }
  return trmap->find(root)->second;
}

u128 evalE(E root, const Model &m) {
  static std::unordered_map<E, u128> memo;
  memo.clear();
  std::vector<E> st{root};
  auto val = [&](E x) -> u128 { return x->op == CONST ? x->val : memo.find(x)->second; };
  auto has = [&](E x) { return x->op == CONST || memo.count(x); };
  if (root->op == CONST) return root->val;
  while (!st.empty()) {
    E e = st.back();
    if (has(e)) { st.pop_back(); continue; }
    if (e->op == SYM) {
      auto it = m.find(e->aux);
      memo[e] = it == m.end() ? 0 : it->second;
      st.pop_back();
      continue;
    }
    if (e->op == ITE) { // lazy
      if (!has(e->a)) { st.push_back(e->a); continue; }
      E ch = val(e->a) ? e->b : e->c;
      if (!has(ch)) { st.push_back(ch); continue; }
      memo[e] = val(ch);
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (E ch : {e->a, e->b, e->c}) if (ch && !has(ch)) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    memo[e] = foldOp(e->op, e->width, e->a, e->b, e->c, e->aux, val(e->a), e->b ? val(e->b) : 0, e->c ? val(e->c) : 0);
  }
  return memo.find(root)->second;
}

struct CacheEntry { Res r; Model m; };
static std::unordered_map<std::string, CacheEntry> g_cache;
static std::vector<std::shared_ptr<Model>> g_recent; // recent models (ring)
static size_t g_ring = 0;

static void slice(const std::vector<E> &cs, E q, std::vector<E> &out) {
  // transitive closure on shared symbols
  static std::vector<u32> mark;
  static u32 stamp = 0;
  stamp++;
  if (mark.size() < g_syms.size() + 1) mark.resize(g_syms.size() + 64, 0);
  std::vector<char> used(cs.size(), 0);
  for (u32 s : *q->syms) mark[s] = stamp;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (u32 s : *cs[i]->syms) if (mark[s] == stamp) { hit = true; break; }
      if (hit) {
        used[i] = 1; ch = true;
        out.push_back(cs[i]);
        for (u32 s : *cs[i]->syms) mark[s] = stamp;
      }
    }
  }
}

static Res z3solve(const std::vector<E> &v, Model &m) {
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false;
  for (E e : v) fp |= e->hasfp;
  g_ss.queries++;
  Res res;
  {
    z3::solver *s = S;
    if (fp) {
      if (!SF) {
        z3::params p(*C);
        p.set("timeout", g_timeout);
        SF = new z3::solver(z3::tactic(*C, "qffpbv").mk_solver());
        SF->set(p);
      }
      s = SF;
    }
    s->push();
    for (E e : v) s->add(tr(e));
    z3::check_result r;
    try { r = s->check(); } catch (z3::exception &) { r = z3::unknown; }
    if (r == z3::sat) {
      z3::model zm = s->get_model();
      std::vector<u32> syms;
      for (E e : v) syms.insert(syms.end(), e->syms->begin(), e->syms->end());
      std::sort(syms.begin(), syms.end());
      syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
      for (u32 id : syms) {
        z3::expr x = zm.eval(symFor(id), true);
        unsigned w = g_syms[id].width;
        u128 val = 0;
        if (w == 1) val = x.is_true();
        else if (w <= 64) { uint64_t t = 0; x.is_numeral_u64(t); val = t; }
        else {
          uint64_t hi = 0, lo = 0;
          z3::expr h = zm.eval(symFor(id).extract(w - 1, 64), true), l = zm.eval(symFor(id).extract(63, 0), true);
          h.is_numeral_u64(hi); l.is_numeral_u64(lo);
          val = ((u128)hi << 64) | lo;
        }
        m[id] = val;
      }
      res = SAT;
    } else res = r == z3::unsat ? UNSAT : UNKNOWN;
    s->pop();
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt;
  if (dt > g_ss.maxq) g_ss.maxq = dt;
  return res;
}

static Res solveVec(std::vector<E> &v, Model *out);
Res solve(const std::vector<E> &constraints, E q, Model *out) {
  if (isFalse(q)) return UNSAT;
  if (isC(q)) return SAT;
  std::vector<E> v;
  slice(constraints, q, v);
  v.push_back(q);
  return solveVec(v, out);
}
Res solveSlice(const std::vector<E> &constraints, E e, Model *out) {
  std::vector<E> v;
  if (isC(e)) return SAT;
  slice(constraints, e, v);
  return solveVec(v, out);
}
static Res solveVec(std::vector<E> &v, Model *out) {
  std::sort(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.empty()) return SAT;
  std::string key((char *)v.data(), v.size() * sizeof(E));
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (out && it->second.r == SAT) for (auto &p : it->second.m) (*out)[p.first] = p.second;
    return it->second.r;
  }
  // try recent models
  for (size_t k = 0; k < g_recent.size(); k++) {
    auto &rm = g_recent[(g_ring + g_recent.size() - 1 - k) % g_recent.size()];
    bool ok = true;
    for (E e : v) if (!evalE(e, *rm)) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      CacheEntry ce;
      ce.r = SAT;
      for (E e : v) for (u32 s : *e->syms) { auto f = rm->find(s); ce.m[s] = f == rm->end() ? 0 : f->second; }
      if (out) for (auto &p : ce.m) (*out)[p.first] = p.second;
      g_cache.emplace(std::move(key), std::move(ce));
      return SAT;
    }
  }
  CacheEntry ce;
  ce.r = z3solve(v, ce.m);
  if (ce.r == SAT) {
    g_ss.sat++;
    // self-check of the encoding: the model must satisfy the query under our own evaluator
    for (E e : v) if (!e->hasfp && !evalE(e, ce.m)) { fprintf(stderr, "ENGINE: model check failed for %s\n", estr(e, 8).c_str()); abort(); }
    auto rm = std::make_shared<Model>(ce.m);
    if (g_recent.size() < 12) { g_recent.push_back(rm); g_ring = 0; }
    else { g_recent[g_ring] = rm; g_ring = (g_ring + 1) % g_recent.size(); }
    if (out) for (auto &p : ce.m) (*out)[p.first] = p.second;
  } else if (ce.r == UNSAT) g_ss.unsat++;
  else { g_ss.unknown++; g_solverUnknown = true; }
  Res r = ce.r;
  g_cache.emplace(std::move(key), std::move(ce));
  return r;
}

Model fullModel(const std::vector<E> &constraints, E extra) {
  Model m;
  std::vector<E> v;
  for (E e : constraints) v.push_back(e);
  if (extra && !isC(extra)) v.push_back(extra);
  // solve independent groups one by one
  std::vector<char> done(v.size(), 0);
  for (size_t i = 0; i < v.size(); i++) {
    if (done[i]) continue;
    bool have = true;
    for (u32 s : *v[i]->syms) if (!m.count(s)) have = false;
    if (have && !v[i]->syms->empty() && evalE(v[i], m)) continue;
    Model part;
    if (solve(v, v[i], &part) == SAT) for (auto &p : part) m[p.first] = p.second;
  }
  return m;
}
