// Symbolic executor of LLVM IR (C++ subset needed here): memory model, exceptions, threads.
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include "engine.h"
#include <cxxabi.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>

using namespace llvm;

static const u64 BASEOFF = 0x100000;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) | BASEOFF; }

static const DataLayout *DL;
static std::unique_ptr<Module> M;
static std::map<const GlobalValue *, u64> gaddr;
static std::map<u64, Function *> fnAt;
static std::map<u64, std::string> gnameAt; // address -> symbol name
static std::map<const Function *, std::unique_ptr<FnInfo>> fns;
static std::vector<std::unique_ptr<State>> work;
static State *S; // current
static IP<Obj> g_deadStack, g_deadHeap[8];
static std::map<std::string, u64> g_gbyname;

// options
static std::string g_entry = "main", g_out = "", g_repo = "/repo";
static double g_maxTime = 300, g_afterErr = 15;
static u64 g_maxSteps = 200000000, g_maxPathSteps = 20000000, g_maxErrs = 4;
static u32 g_maxPreempt = 100;
static bool g_races = true, g_stopFirst = false, g_verbose = false;
static int g_sampleTests = 8;
static u64 g_maxMem = 12000ull << 20;

// stats
static u64 st_paths = 0, st_forks = 0, st_steps = 0, st_asserts = 0, st_assertQ = 0, st_memchk = 0, st_kill = 0, st_schedpoints = 0, st_symbranch = 0;
static std::map<std::string, u64> witnesses, declaredW;
static std::vector<std::string> g_declWit;
static std::set<std::string> g_unsupported;
static bool g_timeout = false;
static std::string g_timeoutWhy;

struct ErrRep { std::string kind, msg, stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<u8> sched; u64 n = 1; };
static std::vector<ErrRep> errs_;
static std::map<std::string, size_t> errIndex;
struct TestRep { std::vector<std::string> lines; };
static std::vector<TestRep> tests;

struct Kill {};     // state ends
struct Retry {};    // re-execute current instruction

static double g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }


static std::string demangle(const std::string &n) {
  int st = 0;
  char *d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
  if (st == 0 && d) { std::string r = d; free(d); return r; }
  return n;
}

static unsigned typeW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

static std::string jsonEsc(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}
static std::string hex128(u128 v) {
  char b[64];
  if (v >> 64) snprintf(b, 64, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, 64, "%llx", (unsigned long long)v);
  return b;
}

// ---------------------------------------------------------------- stack description
static std::string where() {
  std::string out;
  int n = 0;
  if (!S || S->th.empty()) return out;
  auto &st = S->T().st;
  for (int i = (int)st.size() - 1; i >= 0 && n < 14; i--, n++) {
    Frame &f = st[i];
    std::string loc;
    if (f.pc < f.f->code.size() && f.f->code[f.pc].I)
      if (auto &dl = f.f->code[f.pc].I->getDebugLoc()) {
        if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) loc = sc->getFilename().str() + ":" + std::to_string(dl.getLine());
      }
    std::string d = demangle(f.f->name);
    if (d.size() > 120) d = d.substr(0, 117) + "...";
    out += d + " (" + loc + ")\n";
  }
  return out;
}
static std::string errKey(const std::string &kind, const std::string &msg) {
  std::string k = kind + "|" + msg;
  return k;
}

static void recordError(const std::string &kind, const std::string &msg, E cond) {
  std::string key = errKey(kind, msg);
  auto it = errIndex.find(key);
  if (it != errIndex.end()) { errs_[it->second].n++; return; }
  ErrRep r;
  r.kind = kind; r.msg = msg; r.stack = where();
  Model m = fullModel(S->cons, cond);
  for (u32 id : S->inputs) {
    auto f = m.find(id);
    r.inputs.push_back({g_syms[id].name, hex128(f == m.end() ? 0 : f->second)});
  }
  r.sched = S->sched;
  errIndex[key] = errs_.size();
  errs_.push_back(r);
  g_maxTime = std::min(g_maxTime, now() - g_t0 + g_afterErr);
  if (g_verbose) fprintf(stderr, "ERROR %s: %s\n%s", kind.c_str(), msg.c_str(), r.stack.c_str());
}
[[noreturn]] static void fail(const std::string &kind, const std::string &msg, E cond = nullptr) {
  recordError(kind, msg, cond);
  throw Kill();
}
[[noreturn]] static void unsupported(const std::string &msg) {
  std::string m = msg + " @ " + where();
  if (g_unsupported.size() < 20) g_unsupported.insert(m);
  if (g_verbose) fprintf(stderr, "UNSUPPORTED %s\n", m.c_str());
  throw Kill();
}

// ---------------------------------------------------------------- solver helpers
static bool mayBe(E q) {
  if (isC(q)) return q->val != 0;
  Res r = solve(S->cons, q, nullptr);
  if (r == UNKNOWN) { if (g_unsupported.size() < 20) g_unsupported.insert("solver gave no answer @ " + where()); return false; }
  return r == SAT;
}
static void addCons(E q) {
  if (isTrue(q)) return;
  if (q->op == AND && q->width == 1) { addCons(q->a); addCons(q->b); return; }
  for (E c : S->cons) if (c == q) return;
  S->cons.push_back(q);
}
static State *forkState() {
  st_forks++;
  work.push_back(std::make_unique<State>(*S));
  return work.back().get();
}
// Branch on a condition: returns the truth on the current state; forks the other one (which re-executes the instruction with the added constraint).
static bool branch(E q) {
  if (isC(q)) return q->val != 0;
  st_symbranch++;
  // quick syntactic check
  for (E c : S->cons) { if (c == q) return true; if (c->op == NOT && c->a == q) return false; if (q->op == NOT && q->a == c) return false; }
  E nq = mkNot(q);
  bool t = mayBe(q);
  if (!t) { return false; }
  bool f = mayBe(nq);
  if (!f) return true;
  if (q->taint) fail("uninitialised", "control flow depends on an uninitialised value", nullptr);
  State *o = forkState();
  State *me = S;
  S = o; addCons(nq); S = me;
  addCons(q);
  return true;
}

// ---------------------------------------------------------------- operands
static inline V &reg(int slot) { return S->fr().regs[slot]; }
static inline const V &val(const Opnd &o) { return o.slot >= 0 ? S->fr().regs[o.slot] : o.cst; }

// Makes operand concrete (forks over its feasible values, one per state).
static u64 concretize(const Opnd &o) {
  const V &v = val(o);
  if (!v.e) return v.c;
  E e = v.e;
  Model fm;
  Res r = solveSlice(S->cons, e, &fm);
  if (r == UNKNOWN) { if (g_unsupported.size() < 20) g_unsupported.insert("solver gave no answer @ " + where()); throw Kill(); }
  if (r == UNSAT) throw Kill();
  u64 x = (u64)evalE(e, fm);
  E eq = mkEq(e, mkC(x, e->width));
  if (mayBe(mkNot(eq))) {
    if (e->taint) fail("uninitialised", "an address, size or target depends on an uninitialised value");
    State *o2 = forkState();
    State *me = S;
    S = o2; addCons(mkNot(eq)); S = me;
    addCons(eq);
  }
  if (o.slot >= 0) reg(o.slot) = V(x);
  return x;
}
static u64 concV(V v) { // for values already known concrete
  if (v.e) unsupported("symbolic value where a concrete one is needed");
  return v.c;
}

// ---------------------------------------------------------------- objects
static u32 newObj(ObjKind k, u64 size, AllocKind ak, const Value *site, bool zero = false) {
  u32 id = S->as.next++;
  IP<Obj> o(new Obj());
  o->size = size; o->kind = k; o->ak = ak; o->site = site;
  o->bytes.assign(size, 0);
  if (zero) o->allInit = true; else o->init.assign(size, 0);
  if (k == OK_HEAP) o->seq = ++S->heapSeq;
  S->as.set(id, o);
  return id;
}

static void raceCheck(Obj *o, u64 off, u64 n, bool write, bool atomic);

static Obj *lookupAddr(u64 a, u64 n, bool write, u64 &off, const char *what) {
  st_memchk++;
  u32 id = a >> 32;
  if (id == 0) fail("null-dereference", std::string(what) + " through a null pointer");
  Obj *o = S->as.get(id);
  if (!o) fail("bad-pointer", std::string(what) + " through an invalid pointer");
  if (o->freed) fail(o->kind == OK_STACK ? "use-after-return" : "use-after-free", std::string(what) + " of released memory");
  if (o->kind == OK_FUNC) fail("bad-pointer", std::string(what) + " of code");
  off = (u64)(a - addrOf(id));
  if (off > o->size || n > o->size - off) fail("out-of-bounds", std::string(what) + " outside its object");
  if (write) {
    if (o->ro) fail("write-to-constant", "write to constant memory");
    o = S->as.getW(id);
  }
  if (g_races && S->th.size() > 1) {
    if (!write) o = S->as.getW(id);
    raceCheck(o, off, n, write, false);
  }
  return o;
}

static u32 g_uninitCount = 0;
static E loadByte(Obj *o, u64 i) {
  if (!o->sym.empty() && o->sym[i]) return o->sym[i];
  if (!o->allInit && !o->init[i]) {
    E s = mkSym("uninit" + std::to_string(g_uninitCount++), 8, true);
    return s;
  }
  return mkC(o->bytes[i], 8);
}
static V loadInt(Obj *o, u64 off, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  bool conc = true;
  if (!o->allInit) for (unsigned i = 0; i < n; i++) if (!o->init[off + i]) { conc = false; break; }
  if (conc && !o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { conc = false; break; }
  if (conc && bits <= 64) {
    u64 x = 0;
    memcpy(&x, &o->bytes[off], n);
    if (bits < 64) x &= (1ull << bits) - 1;
    return V(x);
  }
  if (conc) { u128 x = 0; memcpy(&x, &o->bytes[off], n); return mkV(mkC(x, bits)); }
  E e = loadByte(o, off);
  for (unsigned i = 1; i < n; i++) e = mkConcat(loadByte(o, off + i), e);
  if (e->width > bits) e = mkExtract(e, 0, bits);
  return mkV(e);
}
static void setInit(Obj *o, u64 off, unsigned n) { if (!o->allInit) memset(&o->init[off], 1, n); }
static void storeInt(Obj *o, u64 off, unsigned bits, const V &v) {
  unsigned n = (bits + 7) / 8;
  if (!v.e && bits <= 64) {
    u64 x = v.c;
    if (bits < 64) x &= (1ull << bits) - 1;
    memcpy(&o->bytes[off], &x, n);
    if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    setInit(o, off, n);
    return;
  }
  E e = toE(v, bits);
  if (e->width < n * 8) e = mkZext(e, n * 8);
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  for (unsigned i = 0; i < n; i++) {
    E b = mkExtract(e, i * 8, 8);
    if (isC(b)) { o->bytes[off + i] = (u8)b->val; o->sym[off + i] = nullptr; if (!o->allInit) o->init[off + i] = 1; }
    else if (b->op == SYM && b->taint) { o->sym[off + i] = nullptr; if (o->allInit) { o->init.assign(o->size, 1); o->allInit = false; } o->init[off + i] = 0; }
    else { o->sym[off + i] = b; if (!o->allInit) o->init[off + i] = 1; }
  }
}
static V undefV(Type *t) {
  if (unsigned w = typeW(t)) {
    static std::map<unsigned, E> u;
    E &e = u[w];
    if (!e) e = mkSym("undef", w, true);
    V v; v.e = e; return v;
  }
  V v;
  v.agg = IP<Agg>(new Agg());
  if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) v.agg->v.push_back(undefV(x));
  else if (auto *a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->v.push_back(undefV(a->getElementType()));
  else if (auto *a = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->v.push_back(undefV(a->getElementType()));
  return v;
}
static V zeroV(Type *t) {
  if (unsigned w = typeW(t)) { if (w > 64) return mkV(mkC(0, w)); return V(0); }
  V v;
  v.agg = IP<Agg>(new Agg());
  if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) v.agg->v.push_back(zeroV(x));
  else if (auto *a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->v.push_back(zeroV(a->getElementType()));
  else if (auto *a = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->v.push_back(zeroV(a->getElementType()));
  return v;
}
static V loadT(Type *t, Obj *o, u64 off) {
  if (unsigned w = typeW(t)) return loadInt(o, off, w);
  V v;
  v.agg = IP<Agg>(new Agg());
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) v.agg->v.push_back(loadT(s->getElementType(i), o, off + sl->getElementOffset(i)));
  } else {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    u64 es = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; i++) v.agg->v.push_back(loadT(et, o, off + i * es));
  }
  return v;
}
static void storeT(Type *t, Obj *o, u64 off, const V &v) {
  if (unsigned w = typeW(t)) { storeInt(o, off, w, v); return; }
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) storeT(s->getElementType(i), o, off + sl->getElementOffset(i), v.agg->v[i]);
  } else {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    u64 es = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; i++) storeT(et, o, off + i * es, v.agg->v[i]);
  }
}

// raw accessors used by builtins (concrete)
static u64 rd(u64 a, unsigned n) {
  u64 off;
  Obj *o = lookupAddr(a, n, false, off, "read");
  V v = loadInt(o, off, n * 8);
  if (v.e) unsupported("builtin read of symbolic memory");
  return v.c;
}
static void wr(u64 a, u64 x, unsigned n) {
  u64 off;
  Obj *o = lookupAddr(a, n, true, off, "write");
  storeInt(o, off, n * 8, V(x));
}
static std::string cstrAt(u64 a) {
  std::string s;
  u32 id = a >> 32;
  Obj *o = S->as.get(id);
  if (!o || o->freed) return "?";
  for (u64 off = a - addrOf(id); off < o->size; off++) {
    if (!o->sym.empty() && o->sym[off]) { s += '?'; continue; }
    if (!o->bytes[off]) break;
    s += (char)o->bytes[off];
    if (s.size() > 300) break;
  }
  return s;
}

// ---------------------------------------------------------------- constants
static V constV(const Constant *c);
static u64 globalAddr(const GlobalValue *g) {
  if (auto *a = dyn_cast<GlobalAlias>(g)) {
    V v = constV(a->getAliasee());
    return v.c;
  }
  auto it = gaddr.find(g);
  if (it == gaddr.end()) { errs_.push_back({"internal", "no address for " + g->getName().str(), "", {}, {}, 1}); return 0; }
  return it->second;
}
static V castV(unsigned opc, const V &v, Type *st, Type *dt);
static V binV(unsigned opc, unsigned w, const V &a, const V &b);
static V icmpV(CmpInst::Predicate p, unsigned w, const V &a, const V &b);

static V constV(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return V(ci->getZExtValue());
    const uint64_t *r = ci->getValue().getRawData();
    return mkV(mkC(((u128)r[1] << 64) | r[0], w));
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) return V(b.getZExtValue());
    return mkV(mkC(((u128)b.getRawData()[1] << 64) | b.getRawData()[0], b.getBitWidth()));
  }
  if (isa<ConstantPointerNull>(c)) return V(0);
  if (isa<UndefValue>(c)) return undefV(c->getType());
  if (auto *g = dyn_cast<GlobalValue>(c)) return V(globalAddr(g));
  if (isa<ConstantAggregateZero>(c)) return zeroV(c->getType());
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    V v; v.agg = IP<Agg>(new Agg());
    for (unsigned i = 0; i < ag->getNumOperands(); i++) v.agg->v.push_back(constV(ag->getOperand(i)));
    return v;
  }
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    V v; v.agg = IP<Agg>(new Agg());
    for (unsigned i = 0; i < ds->getNumElements(); i++) v.agg->v.push_back(constV(ds->getElementAsConstant(i)));
    return v;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "bad const gep\n"); exit(3); }
      V b = constV(ce->getOperand(0));
      return V(b.c + off.getSExtValue());
    }
    if (ce->isCast()) return castV(ce->getOpcode(), constV(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
    if (ce->isCompare()) return icmpV((CmpInst::Predicate)ce->getPredicate(), typeW(ce->getOperand(0)->getType()), constV(ce->getOperand(0)), constV(ce->getOperand(1)));
    return binV(ce->getOpcode(), typeW(ce->getType()), constV(ce->getOperand(0)), constV(ce->getOperand(1)));
  }
  if (isa<ConstantTokenNone>(c)) return V(0);
  if (auto *dso = dyn_cast<DSOLocalEquivalent>(c)) return constV(dso->getGlobalValue());
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "unsupported constant %s\n", s.c_str());
  exit(3);
}

// ---------------------------------------------------------------- operators
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); v &= mask64(w); return (i64)((v ^ s) - s); }

static V binV(unsigned opc, unsigned w, const V &a, const V &b) {
  if (a.agg.p || b.agg.p) {
    V r; r.agg = IP<Agg>(new Agg());
    for (size_t i = 0; i < a.agg->v.size(); i++) r.agg->v.push_back(binV(opc, w, a.agg->v[i], b.agg->v[i]));
    return r;
  }
  bool conc = !a.e && !b.e && w <= 64;
  u64 x = a.c, y = b.c, m = mask64(w);
  switch (opc) {
  case Instruction::Add: if (conc) return V((x + y) & m); return mkV(mk(ADD, w, toE(a, w), toE(b, w)));
  case Instruction::Sub: if (conc) return V((x - y) & m); return mkV(mk(SUB, w, toE(a, w), toE(b, w)));
  case Instruction::Mul: if (conc) return V((x * y) & m); return mkV(mk(MUL, w, toE(a, w), toE(b, w)));
  case Instruction::And: if (conc) return V(x & y); return mkV(mk(AND, w, toE(a, w), toE(b, w)));
  case Instruction::Or: if (conc) return V(x | y); return mkV(mk(OR, w, toE(a, w), toE(b, w)));
  case Instruction::Xor: if (conc) return V(x ^ y); return mkV(mk(XOR, w, toE(a, w), toE(b, w)));
  case Instruction::Shl: if (conc) return V(y >= w ? 0 : (x << y) & m); return mkV(mk(SHL, w, toE(a, w), toE(b, w)));
  case Instruction::LShr: if (conc) return V(y >= w ? 0 : (x >> y)); return mkV(mk(LSHR, w, toE(a, w), toE(b, w)));
  case Instruction::AShr: if (conc) return V((u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m); return mkV(mk(ASHR, w, toE(a, w), toE(b, w)));
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    Op o = opc == Instruction::UDiv ? UDIV : opc == Instruction::URem ? UREM : opc == Instruction::SDiv ? SDIV : SREM;
    return mkV(mk(o, w, toE(a, w), toE(b, w)));
  }
  case Instruction::FAdd: return mkV(mk(FADD, w, toE(a, w), toE(b, w)));
  case Instruction::FSub: return mkV(mk(FSUB, w, toE(a, w), toE(b, w)));
  case Instruction::FMul: return mkV(mk(FMUL, w, toE(a, w), toE(b, w)));
  case Instruction::FDiv: return mkV(mk(FDIV, w, toE(a, w), toE(b, w)));
  case Instruction::FRem: return mkV(mk(FREM, w, toE(a, w), toE(b, w)));
  }
  unsupported("binary operator");
}
static V icmpV(CmpInst::Predicate p, unsigned w, const V &a, const V &b) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c;
    switch (p) {
    case CmpInst::ICMP_EQ: return V(x == y);
    case CmpInst::ICMP_NE: return V(x != y);
    case CmpInst::ICMP_ULT: return V(x < y);
    case CmpInst::ICMP_ULE: return V(x <= y);
    case CmpInst::ICMP_UGT: return V(x > y);
    case CmpInst::ICMP_UGE: return V(x >= y);
    case CmpInst::ICMP_SLT: return V(sx(x, w) < sx(y, w));
    case CmpInst::ICMP_SLE: return V(sx(x, w) <= sx(y, w));
    case CmpInst::ICMP_SGT: return V(sx(x, w) > sx(y, w));
    case CmpInst::ICMP_SGE: return V(sx(x, w) >= sx(y, w));
    default: break;
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ: return mkV(mkEq(x, y));
  case CmpInst::ICMP_NE: return mkV(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_ULT: return mkV(mk(ULT, 1, x, y));
  case CmpInst::ICMP_ULE: return mkV(mk(ULE, 1, x, y));
  case CmpInst::ICMP_UGT: return mkV(mk(ULT, 1, y, x));
  case CmpInst::ICMP_UGE: return mkV(mk(ULE, 1, y, x));
  case CmpInst::ICMP_SLT: return mkV(mk(SLT, 1, x, y));
  case CmpInst::ICMP_SLE: return mkV(mk(SLE, 1, x, y));
  case CmpInst::ICMP_SGT: return mkV(mk(SLT, 1, y, x));
  case CmpInst::ICMP_SGE: return mkV(mk(SLE, 1, y, x));
  default: break;
  }
  unsupported("icmp");
}
static V fcmpV(CmpInst::Predicate p, unsigned w, const V &a, const V &b) {
  E x = toE(a, w), y = toE(b, w);
  auto uno = [&] { return mk(FUNO, 1, x, y); };
  auto lt = [&] { return mk(FLT, 1, x, y); };
  auto gt = [&] { return mk(FLT, 1, y, x); };
  auto le = [&] { return mk(FLE, 1, x, y); };
  auto ge = [&] { return mk(FLE, 1, y, x); };
  auto eq = [&] { return mk(FEQ, 1, x, y); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return V(0);
  case CmpInst::FCMP_TRUE: return V(1);
  case CmpInst::FCMP_OEQ: return mkV(eq());
  case CmpInst::FCMP_OGT: return mkV(gt());
  case CmpInst::FCMP_OGE: return mkV(ge());
  case CmpInst::FCMP_OLT: return mkV(lt());
  case CmpInst::FCMP_OLE: return mkV(le());
  case CmpInst::FCMP_ONE: return mkV(mkAnd(mkNot(eq()), mkNot(uno())));
  case CmpInst::FCMP_ORD: return mkV(mkNot(uno()));
  case CmpInst::FCMP_UNO: return mkV(uno());
  case CmpInst::FCMP_UEQ: return mkV(mkOr(eq(), uno()));
  case CmpInst::FCMP_UGT: return mkV(mkNot(le()));
  case CmpInst::FCMP_UGE: return mkV(mkNot(lt()));
  case CmpInst::FCMP_ULT: return mkV(mkNot(ge()));
  case CmpInst::FCMP_ULE: return mkV(mkNot(gt()));
  case CmpInst::FCMP_UNE: return mkV(mkNot(eq()));
  default: break;
  }
  unsupported("fcmp");
}
static E flattenE(const V &v, Type *t) {
  if (unsigned w = typeW(t)) return toE(v, w);
  auto *vt = dyn_cast<FixedVectorType>(t);
  if (!vt) unsupported("bitcast of aggregate");
  E e = flattenE(v.agg->v[0], vt->getElementType());
  for (u64 i = 1; i < vt->getNumElements(); i++) e = mkConcat(flattenE(v.agg->v[i], vt->getElementType()), e);
  return e;
}
static V unflatten(E e, Type *t) {
  if (typeW(t)) return mkV(e);
  auto *vt = cast<FixedVectorType>(t);
  V v; v.agg = IP<Agg>(new Agg());
  unsigned w = typeW(vt->getElementType());
  for (u64 i = 0; i < vt->getNumElements(); i++) v.agg->v.push_back(mkV(mkExtract(e, i * w, w)));
  return v;
}
static V castV(unsigned opc, const V &v, Type *st, Type *dt) {
  if (opc == Instruction::BitCast) {
    if (typeW(st) && typeW(dt)) return v;
    return unflatten(flattenE(v, st), dt);
  }
  if (st->isVectorTy()) {
    V r; r.agg = IP<Agg>(new Agg());
    for (auto &x : v.agg->v) r.agg->v.push_back(castV(opc, x, st->getScalarType(), dt->getScalarType()));
    return r;
  }
  unsigned sw = typeW(st), dw = typeW(dt);
  switch (opc) {
  case Instruction::AddrSpaceCast: return v;
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (sw == dw) return v;
    if (sw > dw) { if (!v.e) return V(v.c & mask64(dw)); return mkV(mkExtract(v.e, 0, dw)); }
    if (!v.e) return V(v.c);
    return mkV(mkZext(v.e, dw));
  case Instruction::Trunc:
    if (!v.e && sw <= 64) return V(v.c & mask64(dw));
    return mkV(mkExtract(toE(v, sw), 0, dw));
  case Instruction::ZExt:
    if (!v.e && dw <= 64) return v;
    return mkV(mkZext(toE(v, sw), dw));
  case Instruction::SExt:
    if (!v.e && dw <= 64) return V((u64)sx(v.c, sw) & mask64(dw));
    return mkV(mkSext(toE(v, sw), dw));
  }
  if (sw == 80 || dw == 80) unsupported("x86_fp80 arithmetic");
  switch (opc) {
  case Instruction::SIToFP: return mkV(mk(SITOFP, dw, toE(v, sw)));
  case Instruction::UIToFP: return mkV(mk(UITOFP, dw, toE(v, sw)));
  case Instruction::FPToSI: return mkV(mk(FPTOSI, dw, toE(v, sw)));
  case Instruction::FPToUI: return mkV(mk(FPTOUI, dw, toE(v, sw)));
  case Instruction::FPExt: case Instruction::FPTrunc: return mkV(mk(FPCONV, dw, toE(v, sw)));
  }
  unsupported("cast");
}
static V selectV(E c, const V &a, const V &b, Type *t) {
  if (isC(c)) return c->val ? a : b;
  if (unsigned w = typeW(t)) return mkV(mkIte(c, toE(a, w), toE(b, w)));
  V v; v.agg = IP<Agg>(new Agg());
  for (size_t i = 0; i < a.agg->v.size(); i++) {
    Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    v.agg->v.push_back(selectV(c, a.agg->v[i], b.agg->v[i], et));
  }
  return v;
}

// ---------------------------------------------------------------- symbolic addresses
// Resolves the pointer operand for an access of n bytes. Returns true with a concrete address,
// or false with (obj base, symbolic offset) proven in bounds.
static bool resolvePtr(const Opnd &op, u64 n, u64 &addr, u64 &base, E &offE, const char *what) {
  const V &v = val(op);
  if (!v.e) { addr = v.c; return true; }
  E e = v.e;
  if (e->taint) {
    // only a problem if it can really vary
    concretize(op);
    addr = val(op).c;
    return true;
  }
  // split ite-of-pointers
  std::function<E(E)> findIte = [&](E x) -> E {
    if (x->op == ITE && x->width == 64) return x->a;
    if (x->op == ADD) { if (E r = findIte(x->a)) return r; return nullptr; }
    return nullptr;
  };
  E c = (e->op == ADD && isC(e->b)) ? e->b : nullptr;
  u32 id = c ? (u32)((u64)c->val >> 32) : 0;
  Obj *o = id ? S->as.get(id) : nullptr;
  if (!o || o->freed) {
    if (E ic = findIte(e)) {
      bool t = branch(ic);
      std::function<E(E)> sub = [&](E x) -> E {
        if (x->op == ITE && x->a == ic) return t ? x->b : x->c;
        if (x->op == ADD) return mk(ADD, 64, sub(x->a), x->b);
        return x;
      };
      E ne = sub(e);
      if (op.slot >= 0) reg(op.slot) = mkV(ne);
      // the forked state re-executes; so do we
      throw Retry();
    }
    addr = concretize(op);
    return true;
  }
  base = addrOf(id);
  E off = mk(SUB, 64, e, mkC(base, 64));
  if (o->size < n) fail("out-of-bounds", std::string(what) + " outside its object");
  E inb = mkNot(mk(ULT, 1, mkC(o->size - n, 64), off));
  E bad = mkNot(inb);
  if (mayBe(bad)) {
    recordError("out-of-bounds", std::string(what) + " outside its object", bad);
    if (!mayBe(inb)) throw Kill();
    addCons(inb);
  }
  offE = off;
  return false;
}

static V doLoad(DI &d, Type *t, const Opnd &op) {
  u64 n = DL->getTypeStoreSize(t), a, base;
  E offE = nullptr;
  if (resolvePtr(op, n, a, base, offE, "read")) {
    u64 off;
    Obj *o = lookupAddr(a, n, false, off, "read");
    return loadT(t, o, off);
  }
  u64 off;
  Obj *o = lookupAddr(base, 0, false, off, "read");
  if (o->size > 300 || !typeW(t)) {
    u64 x = concretize(op);
    o = lookupAddr(x, n, false, off, "read");
    return loadT(t, o, off);
  }
  if (g_races && S->th.size() > 1) { u64 dummy; lookupAddr(base, o->size, false, dummy, "read"); }
  unsigned w = typeW(t);
  E r = nullptr;
  for (u64 i = 0; i + n <= o->size; i++) {
    // skip clearly infeasible alignments cheaply
    E cond = mkEq(offE, mkC(i, 64));
    if (isFalse(cond)) continue;
    E v = toE(loadInt(o, i, w), w);
    r = r ? mkIte(cond, v, r) : v;
  }
  if (!r) throw Kill();
  return mkV(r);
}
static void doStore(Type *t, const Opnd &op, const V &v) {
  u64 n = DL->getTypeStoreSize(t), a, base;
  E offE = nullptr;
  if (!resolvePtr(op, n, a, base, offE, "write")) a = concretize(op);
  u64 off;
  Obj *o = lookupAddr(a, n, true, off, "write");
  storeT(t, o, off, v);
}

// ---------------------------------------------------------------- races
static void raceCheck(Obj *o, u64 off, u64 n, bool write, bool atomic) {
  if (o->kind == OK_GLOBAL && o->ro) return;
  if (!o->sh) { o->sh = IP<ShadowVec>(new ShadowVec()); o->sh->v.resize(o->size); }
  else o->sh.cow();
  int t = S->cur;
  VC &vc = S->T().vc;
  for (u64 i = off; i < off + n; i++) {
    Shadow &s = o->sh->v[i];
    bool bad = false;
    if (s.wt != 255 && s.wt != t && s.wc > vc.c[s.wt] && !(atomic && s.watomic)) bad = true;
    if (write && !bad) for (int k = 0; k < 4; k++) if (k != t && s.rc[k] > vc.c[k] && !(atomic)) bad = true;
    if (bad) fail("data-race", write ? "unsynchronised concurrent write" : "unsynchronised read of data written by another thread");
    if (write) { s.wt = t; s.wc = vc.c[t]; s.watomic = atomic; }
    else s.rc[t] = atomic ? s.rc[t] : vc.c[t];
  }
}

// ---------------------------------------------------------------- decode
static std::map<std::string, int> builtinId;
typedef void (*Builtin)(DI &);
static std::vector<Builtin> builtinFn;
static int findBuiltin(const std::string &name);

static FnInfo *fnInfo(Function *F) {
  auto &p = fns[F];
  if (p) return p.get();
  p = std::make_unique<FnInfo>();
  FnInfo *fi = p.get();
  fi->F = F;
  fi->name = F->getName().str();
  if (auto *sp = F->getSubprogram()) {
    std::string fn = sp->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
    fi->fromRepo = fn.compare(0, g_repo.size() + 1, g_repo + "/") == 0;
  }
  std::map<const Value *, int> slot;
  std::map<const BasicBlock *, u32> bbi;
  for (auto &a : F->args()) slot[&a] = fi->nslots++;
  u32 bi = 0;
  for (auto &B : *F) {
    bbi[&B] = bi++;
    for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = fi->nslots++;
  }
  auto opnd = [&](const Value *v) {
    Opnd o;
    o.w = typeW(v->getType());
    auto it = slot.find(v);
    if (it != slot.end()) o.slot = it->second;
    else if (auto *c = dyn_cast<Constant>(v)) o.cst = constV(c);
    else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {}
    else { fprintf(stderr, "bad operand\n"); exit(3); }
    return o;
  };
  for (auto &B : *F) {
    BB bb;
    bb.start = fi->code.size();
    for (auto &I : B) {
      if (auto *ph = dyn_cast<PHINode>(&I)) {
        Phi q;
        q.dst = slot[ph];
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) q.in.push_back({bbi[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
        bb.phis.push_back(q);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::donothing || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) { if (I.getType()->isVoidTy()) continue; }
      }
      DI d;
      d.I = &I;
      d.opc = I.getOpcode();
      d.block = bbi[&B];
      if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.w = typeW(I.getType()); }
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(opnd(g->getPointerOperand()));
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          const Value *idx = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) {
            d.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            u64 sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(idx)) d.goff += ci->getSExtValue() * (i64)sc;
            else { d.gidx.push_back({(u32)d.ops.size(), (i64)sc}); d.ops.push_back(opnd(idx)); }
          }
        }
      } else if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) { d.ops.push_back(opnd(b->getCondition())); d.t0 = bbi[b->getSuccessor(0)]; d.t1 = bbi[b->getSuccessor(1)]; }
        else d.t0 = bbi[b->getSuccessor(0)];
      } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(opnd(s->getCondition()));
        d.t0 = bbi[s->getDefaultDest()];
        for (auto &c : s->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) d.ops.push_back(opnd(a));
        if (auto *iv = dyn_cast<InvokeInst>(cb)) { d.t0 = bbi[iv->getNormalDest()]; d.t1 = bbi[iv->getUnwindDest()]; }
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) d.callee = cf;
        else d.ops.push_back(opnd(cb->getCalledOperand())); // last operand: target
      } else {
        for (auto &o : I.operands()) d.ops.push_back(opnd(o));
      }
      fi->code.push_back(std::move(d));
    }
    fi->bbs.push_back(std::move(bb));
  }
  return fi;
}

static void enterBlock(Frame &f, u32 from, u32 to) {
  f.prev = from;
  f.cur = to;
  BB &b = f.f->bbs[to];
  if (!b.phis.empty()) {
    std::vector<V> tmp;
    tmp.reserve(b.phis.size());
    for (auto &p : b.phis) {
      bool ok = false;
      for (auto &in : p.in) if (in.first == from) { tmp.push_back(in.second.slot >= 0 ? f.regs[in.second.slot] : in.second.cst); ok = true; break; }
      if (!ok) { fprintf(stderr, "phi\n"); exit(3); }
    }
    for (size_t i = 0; i < tmp.size(); i++) f.regs[b.phis[i].dst] = std::move(tmp[i]);
  }
  f.pc = b.start;
}

static void pushFrame(Function *F, const std::vector<V> &args, int hook = 0, u64 hookArg = 0) {
  if (S->T().st.size() > 2000) fail("stack-overflow", "unbounded recursion");
  FnInfo *fi = fnInfo(F);
  fi->covered = true;
  S->T().st.emplace_back();
  Frame &f = S->T().st.back();
  f.f = fi;
  f.regs.resize(fi->nslots);
  size_t na = F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
  for (size_t i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
  f.hook = hook; f.hookArg = hookArg;
  f.pc = fi->bbs[0].start;
  f.cur = 0;
  // byval arguments: copy
  for (size_t i = 0; i < na; i++) {
    if (F->getArg(i)->hasByValAttr()) {
      Type *t = F->getArg(i)->getParamByValType();
      u64 sz = DL->getTypeAllocSize(t);
      u64 src = f.regs[i].c, off;
      Obj *so = lookupAddr(src, sz, false, off, "read");
      IP<Obj> hold(so);
      u32 id = newObj(OK_STACK, sz, AK_NONE, F);
      Obj *d = S->as.getW(id);
      for (u64 k = 0; k < sz; k++) {
        if (!so->allInit && !so->init[off + k] && !( !so->sym.empty() && so->sym[off + k])) continue;
        if (!so->sym.empty() && so->sym[off + k]) { if (d->sym.empty()) d->sym.assign(sz, nullptr); d->sym[k] = so->sym[off + k]; }
        d->bytes[k] = so->bytes[off + k];
        d->init[k] = 1;
      }
      S->fr().allocas.push_back(id);
      S->fr().regs[i] = V(addrOf(id));
    }
  }
}
static void releaseFrame(Frame &f) {
  for (u32 id : f.allocas) S->as.set(id, g_deadStack);
}

// finish current call instruction with a value
static void setDst(DI &d, const V &v) { if (d.dst >= 0) S->fr().regs[d.dst] = v; }
static void advanceCall(DI &d) {
  Frame &f = S->fr();
  if (d.opc == Instruction::Invoke) enterBlock(f, d.block, d.t0);
  else f.pc++;
}

// ---------------------------------------------------------------- exceptions
static std::map<u64, int> selIds;
static int selId(u64 ti) { auto it = selIds.find(ti); if (it != selIds.end()) return it->second; int n = selIds.size() + 1; selIds[ti] = n; return n; }

static std::string tiKind(u64 ti) { // symbol of the type_info's own vtable
  u64 vp = rd(ti, 8);
  u32 id = vp >> 32;
  auto it = gnameAt.find(addrOf(id));
  return it == gnameAt.end() ? "" : it->second;
}
struct BaseHit { u64 addr; bool pub; };
// all subobjects of type `want` inside the object at `addr` of type ti
static void findBases(u64 ti, u64 addr, bool pub, u64 want, std::vector<BaseHit> &out, bool haveObj) {
  if (ti == want) {
    for (auto &h : out) if (h.addr == addr) { h.pub |= pub; return; }
    out.push_back({addr, pub});
    return;
  }
  std::string k = tiKind(ti);
  if (k.find("__si_class_type_info") != std::string::npos) findBases(rd(ti + 16, 8), addr, pub, want, out, haveObj);
  else if (k.find("__vmi_class_type_info") != std::string::npos) {
    u64 n = rd(ti + 20, 4);
    for (u64 i = 0; i < n; i++) {
      u64 bt = rd(ti + 24 + i * 16, 8);
      i64 fl = (i64)rd(ti + 32 + i * 16, 8);
      i64 off = fl >> 8;
      u64 ba = addr;
      if (fl & 1) {
        if (!haveObj) ba = addr; else { u64 vptr = rd(addr, 8); ba = addr + (i64)rd(vptr + off, 8); }
      } else ba = addr + off;
      findBases(bt, ba, pub && (fl & 2), want, out, haveObj);
    }
  }
}
static bool catchMatch(u64 thrown, u64 obj, u64 want, u64 &adj) {
  if (thrown == want) { adj = obj; return true; }
  if (tiKind(thrown).find("class_type_info") == std::string::npos) return false;
  std::vector<BaseHit> h;
  findBases(thrown, obj, true, want, h, true);
  if (h.size() == 1 && h[0].pub) { adj = h[0].addr; return true; }
  return false;
}

[[noreturn]] static void callTerminate(const std::string &why) { fail("terminate", why); }

// Unwind the current thread with exception object `ex` starting at the current frame's call instruction.
static void unwind(u64 ex) {
  Thread &T = S->T();
  Exc &x = S->excs[ex];
  while (true) {
    if (T.st.size() <= T.depthBase || T.st.empty()) fail("uncaught-exception", "exception of type " + demangle(cstrAt(rd(x.type + 8, 8)).insert(0, "_Z")) + " escapes");
    Frame &f = T.st.back();
    DI &d = f.f->code[f.pc];
    if (d.opc == Instruction::Invoke) {
      BB &b = f.f->bbs[d.t1];
      // landingpad is the first non-phi
      DI &lp = f.f->code[b.start];
      auto *L = dyn_cast<LandingPadInst>(lp.I);
      if (!L) unsupported("no landingpad");
      bool enter = L->isCleanup();
      int sel = 0;
      u64 adj = ex;
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        Constant *c = L->getClause(i);
        if (L->isCatch(i)) {
          V cv = constV(c);
          if (cv.c == 0) { enter = true; sel = selId(0); adj = ex; break; }
          if (catchMatch(x.type, ex, cv.c, adj)) { enter = true; sel = selId(cv.c); break; }
        } else {
          // filter: exception specification
          bool allowed = false;
          if (auto *ca = dyn_cast<ConstantArray>(c)) for (unsigned k = 0; k < ca->getNumOperands(); k++) { u64 a2; if (catchMatch(x.type, ex, constV(ca->getOperand(k)).c, a2)) allowed = true; }
          if (!allowed) { enter = true; sel = -1; break; }
        }
      }
      if (enter) {
        if (sel) x.adjusted = adj;
        enterBlock(f, d.block, d.t1);
        V r; r.agg = IP<Agg>(new Agg());
        r.agg->v.push_back(V(ex));
        r.agg->v.push_back(V((u32)sel));
        f.regs[lp.dst] = r;
        f.pc++;
        return;
      }
    }
    if (f.hook == 3) fail("terminate", "exception escapes a destructor run by the runtime");
    if (f.f->F->doesNotThrow()) {
      // a nounwind function being unwound: terminate
      fail("terminate", "exception escapes a function that must not throw (" + demangle(f.f->name) + ")");
    }
    releaseFrame(f);
    T.st.pop_back();
  }
}

static void throwNew(u64 obj, u64 ti, u64 dtor) {
  Exc &x = S->excs[obj];
  x.type = ti; x.dtor = dtor; x.handlers = 0;
  S->T().uncaught++;
  unwind(obj);
}

// ---------------------------------------------------------------- scheduling
static bool enabled(int t) { return S->th[t].status == 0; }
// choose next thread; forks for alternatives. `self` = current thread may continue.
static void chooseNext(bool selfOk) {
  std::vector<int> c;
  if (selfOk) c.push_back(S->cur);
  for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && enabled(t)) c.push_back(t);
  if (c.empty()) {
    bool allFin = true;
    for (auto &t : S->th) if (t.status != 2) allFin = false;
    if (allFin) return;
    for (auto &t : S->th) if (t.phase == 2) throw Kill(); // a timed wait nobody ends: the branch where it times out covers this
    fail("deadlock", "all remaining threads are blocked");
  }
  st_schedpoints++;
  if (selfOk && S->preempts >= g_maxPreempt) c.resize(1);
  int me = S->cur;
  for (size_t i = 1; i < c.size(); i++) {
    State *o = forkState();
    o->cur = c[i];
    o->sched.push_back(c[i]);
    if (selfOk) { o->preempts++; o->th[me].pass = true; }
  }
  S->cur = c[0];
  S->sched.push_back(c[0]);
}
// to be called at the beginning of a visible operation; returns false if the thread was preempted here
static bool visible() {
  Thread &T = S->T();
  if (T.pass) { T.pass = false; return true; }
  if (S->th.size() == 1) return true;
  bool other = false;
  for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && enabled(t)) other = true;
  if (!other) return true;
  int me = S->cur;
  chooseNext(true);
  (void)me;
  return true; // current state continues with this thread
}
static void blockOn(int kind, u64 addr) {
  Thread &T = S->T();
  T.status = 1; T.waitKind = kind; T.waitAddr = addr;
  T.pass = true; // when woken retries the operation directly
  chooseNext(false);
  throw Retry();
}
static void wake(int kind, u64 addr) {
  for (auto &t : S->th) if (t.status == 1 && t.waitKind == kind && t.waitAddr == addr) t.status = 0;
}

static void finishPath(bool);
// Members of the standard streams and the project's stream output operators: cut, see stubCall.
static bool isStreamCode(StringRef n) {
  if (n.contains("sym_")) return false; // harness/ministd
  if (n.starts_with("_ZN3Smp") || n.starts_with("_ZN4Xsmp")) return n.contains("lsERSo");
  for (const char *p : {"_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream",
                        "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNSt9basic_ios", "_ZNSo", "_ZStls", "_ZNSt13basic_ostream", "_ZNSt8ios_base", "_ZNSt15basic_streambuf"})
    if (n.starts_with(p)) return true;
  return false;
}
#include "builtins.inc"

// ---------------------------------------------------------------- interpreter
static void doCall(DI &d) {
  auto *cb = cast<CallBase>(d.I);
  Function *F = d.callee;
  if (!F) {
    if (cb->isInlineAsm()) { // empty barriers only
      setDst(d, V(0)); advanceCall(d); return;
    }
    const Opnd &t = d.ops.back();
    u64 a = concretize(t);
    auto it = fnAt.find(a);
    if (it == fnAt.end()) fail("bad-call", (a >> 32) == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
    F = it->second;
  }
  std::vector<V> args;
  size_t na = cb->arg_size();
  if (d.builtin == -1 || !d.callee) {
    int b = findBuiltin(F->getName().str());
    if (F->isIntrinsic()) b = -3;
    else if (b < 0 || (!F->isDeclaration() && b < 0)) b = F->isDeclaration() ? -4 : -2;
    if (b == -2 && d.callee && F->getName().starts_with("_ZNSt7__cxx119to_stringE")) b = -5;
    if (b == -2 && isStreamCode(F->getName())) b = -4;
    if (d.callee) d.builtin = b;
    if (!d.callee) {
      if (b >= 0) { builtinFn[b](d); return; }
      if (b == -4) { stubCall(d, F); return; }
      for (size_t i = 0; i < na; i++) args.push_back(val(d.ops[i]));
      pushFrame(F, args);
      return;
    }
  }
  if (d.builtin == -5) { // std::to_string of a number: the text of a number that can have many values is cut
    const Opnd &o = d.ops[na - 1];
    V x = val(o);
    if (x.e) {
      if (mayBe(mk(ULT, 1, mkC(20, d.ops[na - 1].w), x.e))) { g_stubs.insert("std::to_string of an unbounded symbolic number"); x = V(0); }
      else x = V(concretize(o));
    }
    for (size_t i = 0; i + 1 < na; i++) args.push_back(val(d.ops[i]));
    args.push_back(x);
    pushFrame(F, args);
    return;
  }
  if (d.builtin == -2) {
    args.reserve(na);
    for (size_t i = 0; i < na; i++) args.push_back(val(d.ops[i]));
    pushFrame(F, args);
    return;
  }
  if (d.builtin == -3) { doIntrinsic(d, cast<IntrinsicInst>(d.I)); return; }
  if (d.builtin == -4) { stubCall(d, F); return; }
  builtinFn[d.builtin](d);
}

static void finishPath(bool normal);

static void doRet(DI &d) {
  V rv;
  Frame &f0 = S->fr();
  if (!d.ops.empty()) rv = val(d.ops[0]);
  int hook = f0.hook;
  u64 ha = f0.hookArg;
  releaseFrame(f0);
  Thread &T = S->T();
  T.st.pop_back();
  if (T.st.empty()) {
    if (S->inCtors) throw Kill(); // handled by runCtors
    T.ret = rv;
    threadExit();
    return;
  }
  Frame &f = S->fr();
  DI &c = f.f->code[f.pc];
  if (hook == 3) { // destructor run by __cxa_end_catch
    freeExc(ha);
    advanceCall(c);
    return;
  }
  if (hook == 4) { advanceCall(c); return; }
  if (c.dst >= 0) f.regs[c.dst] = std::move(rv);
  advanceCall(c);
}

static void step() {
  Frame &f = S->fr();
  DI &d = f.f->code[f.pc];
  st_steps++;
  S->steps++;
  switch (d.opc) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
  case Instruction::FDiv: case Instruction::FRem: {
    unsigned w = d.w ? d.w : typeW(d.I->getType()->getScalarType());
    if (w == 80) unsupported("x86_fp80 arithmetic");
    f.regs[d.dst] = binV(d.opc, w, val(d.ops[0]), val(d.ops[1]));
    f.pc++;
    return;
  }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E y = toE(val(d.ops[1]), d.w);
    E z = mkEq(y, mkC(0, d.w));
    if (mayBe(z)) {
      recordError("division-by-zero", "integer division by zero", z);
      if (!mayBe(mkNot(z))) throw Kill();
      addCons(mkNot(z));
    }
    if (d.opc == Instruction::SDiv || d.opc == Instruction::SRem) {
      E x = toE(val(d.ops[0]), d.w);
      E ov = mkAnd(mkEq(y, mkC(maskw(d.w), d.w)), mkEq(x, mkC((u128)1 << (d.w - 1), d.w)));
      if (mayBe(ov)) {
        recordError("signed-overflow", "signed division overflow", ov);
        if (!mayBe(mkNot(ov))) throw Kill();
        addCons(mkNot(ov));
      }
    }
    f.regs[d.dst] = binV(d.opc, d.w, val(d.ops[0]), val(d.ops[1]));
    f.pc++;
    return;
  }
  case Instruction::FNeg: {
    unsigned w = d.w;
    f.regs[d.dst] = mkV(mk(XOR, w, toE(val(d.ops[0]), w), mkC((u128)1 << (w - 1), w)));
    f.pc++;
    return;
  }
  case Instruction::ICmp: {
    auto p = cast<CmpInst>(d.I)->getPredicate();
    f.regs[d.dst] = icmpV(p, d.ops[0].w, val(d.ops[0]), val(d.ops[1]));
    f.pc++;
    return;
  }
  case Instruction::FCmp:
    if (d.ops[0].w == 80) unsupported("x86_fp80 compare");
    f.regs[d.dst] = fcmpV(cast<CmpInst>(d.I)->getPredicate(), d.ops[0].w, val(d.ops[0]), val(d.ops[1]));
    f.pc++;
    return;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt:
  case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
  case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast:
    f.regs[d.dst] = castV(d.opc, val(d.ops[0]), d.I->getOperand(0)->getType(), d.I->getType());
    f.pc++;
    return;
  case Instruction::Select: {
    V c = val(d.ops[0]);
    if (c.agg.p) unsupported("vector select");
    f.regs[d.dst] = selectV(toE(c, 1), val(d.ops[1]), val(d.ops[2]), d.I->getType());
    f.pc++;
    return;
  }
  case Instruction::Freeze: f.regs[d.dst] = val(d.ops[0]); f.pc++; return;
  case Instruction::Alloca: {
    auto *A = cast<AllocaInst>(d.I);
    u64 n = concretize(d.ops[0]);
    u64 sz = DL->getTypeAllocSize(A->getAllocatedType()) * n;
    u32 id = newObj(OK_STACK, sz, AK_NONE, A);
    S->fr().allocas.push_back(id);
    S->fr().regs[d.dst] = V(addrOf(id));
    S->fr().pc++;
    return;
  }
  case Instruction::Load: {
    auto *L = cast<LoadInst>(d.I);
    bool sv = g_races;
    V r;
    if (L->isAtomic()) { atomicPre(val(d.ops[0]), DL->getTypeStoreSize(L->getType()), false, L->getOrdering()); g_races = false; }
    try { r = doLoad(d, L->getType(), d.ops[0]); } catch (...) { g_races = sv; throw; }
    g_races = sv;
    S->fr().regs[d.dst] = std::move(r);
    S->fr().pc++;
    return;
  }
  case Instruction::Store: {
    auto *L = cast<StoreInst>(d.I);
    if (L->isAtomic()) {
      atomicPre(val(d.ops[1]), DL->getTypeStoreSize(L->getValueOperand()->getType()), true, L->getOrdering());
      bool sv = g_races; g_races = false;
      try { doStore(L->getValueOperand()->getType(), d.ops[1], val(d.ops[0])); } catch (...) { g_races = sv; throw; }
      g_races = sv;
    } else doStore(L->getValueOperand()->getType(), d.ops[1], val(d.ops[0]));
    S->fr().pc++;
    return;
  }
  case Instruction::AtomicRMW: {
    auto *R = cast<AtomicRMWInst>(d.I);
    Type *t = R->getValOperand()->getType();
    unsigned w = typeW(t);
    atomicPre(val(d.ops[0]), w / 8, true, R->getOrdering());
    bool sv = g_races; g_races = false;
    try {
      V old = doLoad(d, t, d.ops[0]), x = val(d.ops[1]), nv;
      switch (R->getOperation()) {
      case AtomicRMWInst::Xchg: nv = x; break;
      case AtomicRMWInst::Add: nv = binV(Instruction::Add, w, old, x); break;
      case AtomicRMWInst::Sub: nv = binV(Instruction::Sub, w, old, x); break;
      case AtomicRMWInst::And: nv = binV(Instruction::And, w, old, x); break;
      case AtomicRMWInst::Or: nv = binV(Instruction::Or, w, old, x); break;
      case AtomicRMWInst::Xor: nv = binV(Instruction::Xor, w, old, x); break;
      default: unsupported("atomicrmw");
      }
      doStore(t, d.ops[0], nv);
      S->fr().regs[d.dst] = old;
    } catch (...) { g_races = sv; throw; }
    g_races = sv;
    S->fr().pc++;
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *R = cast<AtomicCmpXchgInst>(d.I);
    Type *t = R->getCompareOperand()->getType();
    unsigned w = typeW(t);
    atomicPre(val(d.ops[0]), w / 8, true, R->getSuccessOrdering());
    bool sv = g_races; g_races = false;
    try {
      V old = doLoad(d, t, d.ops[0]);
      E eq = mkEq(toE(old, w), toE(val(d.ops[1]), w));
      V nv = selectV(eq, val(d.ops[2]), old, t);
      doStore(t, d.ops[0], nv);
      V r; r.agg = IP<Agg>(new Agg());
      r.agg->v.push_back(old);
      r.agg->v.push_back(mkV(eq));
      S->fr().regs[d.dst] = r;
    } catch (...) { g_races = sv; throw; }
    g_races = sv;
    S->fr().pc++;
    return;
  }
  case Instruction::Fence: f.pc++; return;
  case Instruction::GetElementPtr: {
    const V &b = val(d.ops[0]);
    if (b.agg.p) unsupported("vector gep");
    bool conc = !b.e;
    for (auto &g : d.gidx) if (val(d.ops[g.first]).e) conc = false;
    if (conc) {
      u64 a = b.c + d.goff;
      for (auto &g : d.gidx) a += (u64)(sx(val(d.ops[g.first]).c, d.ops[g.first].w) * g.second);
      f.regs[d.dst] = V(a);
    } else {
      E e = toE(b, 64);
      if (d.goff) e = mk(ADD, 64, e, mkC((u64)d.goff, 64));
      for (auto &g : d.gidx) {
        E i = toE(val(d.ops[g.first]), d.ops[g.first].w);
        i = i->width < 64 ? mkSext(i, 64) : i->width > 64 ? mkExtract(i, 0, 64) : i;
        e = mk(ADD, 64, e, mk(MUL, 64, i, mkC((u64)g.second, 64)));
      }
      f.regs[d.dst] = mkV(e);
    }
    f.pc++;
    return;
  }
  case Instruction::Br: {
    if (d.ops.empty()) { enterBlock(f, d.block, d.t0); return; }
    const V &c = val(d.ops[0]);
    if (!c.e) { enterBlock(f, d.block, c.c ? d.t0 : d.t1); return; }
    bool t = branch(c.e);
    enterBlock(S->fr(), d.block, t ? d.t0 : d.t1);
    return;
  }
  case Instruction::Switch: {
    const V &c = val(d.ops[0]);
    unsigned w = d.ops[0].w;
    if (!c.e) {
      u32 t = d.t0;
      for (auto &k : d.cases) if (k.first == (c.c & mask64(w))) { t = k.second; break; }
      enterBlock(f, d.block, t);
      return;
    }
    E e = c.e;
    for (auto &k : d.cases) {
      E eq = mkEq(e, mkC(k.first, w));
      if (branch(eq)) { S->fr().regs[d.ops[0].slot] = V(k.first); enterBlock(S->fr(), d.block, k.second); return; }
    }
    enterBlock(S->fr(), d.block, d.t0);
    return;
  }
  case Instruction::Ret: doRet(d); return;
  case Instruction::Call: case Instruction::Invoke: doCall(d); return;
  case Instruction::Resume: {
    V v = val(d.ops[0]);
    u64 ex = v.agg->v[0].c;
    // continue unwinding in the caller
    if (S->fr().hook == 3) fail("terminate", "exception escapes a destructor run by the runtime");
    if (S->fr().f->F->doesNotThrow()) fail("terminate", "exception escapes a function that must not throw");
    releaseFrame(S->fr());
    S->T().st.pop_back();
    unwind(ex);
    return;
  }
  case Instruction::Unreachable: fail("unreachable", "execution reaches a point the compiler assumed unreachable (missing return or undefined behaviour)");
  case Instruction::ExtractValue: {
    auto *X = cast<ExtractValueInst>(d.I);
    V v = val(d.ops[0]);
    for (unsigned i : X->indices()) { V t = v.agg->v[i]; v = t; }
    f.regs[d.dst] = v;
    f.pc++;
    return;
  }
  case Instruction::InsertValue: {
    auto *X = cast<InsertValueInst>(d.I);
    V v = val(d.ops[0]);
    std::function<V(V, unsigned)> ins = [&](V base, unsigned lvl) -> V {
      if (lvl == X->getNumIndices()) return val(d.ops[1]);
      V r; r.agg = IP<Agg>(new Agg(*base.agg));
      r.agg->refs = 1;
      r.agg->v[X->getIndices()[lvl]] = ins(base.agg->v[X->getIndices()[lvl]], lvl + 1);
      return r;
    };
    f.regs[d.dst] = ins(v, 0);
    f.pc++;
    return;
  }
  case Instruction::ExtractElement: {
    u64 i = concretize(d.ops[1]);
    V v = val(d.ops[0]).agg->v[i];
    S->fr().regs[d.dst] = v;
    S->fr().pc++;
    return;
  }
  case Instruction::InsertElement: {
    u64 i = concretize(d.ops[2]);
    V r; r.agg = IP<Agg>(new Agg(*val(d.ops[0]).agg));
    r.agg->refs = 1;
    r.agg->v[i] = val(d.ops[1]);
    S->fr().regs[d.dst] = r;
    S->fr().pc++;
    return;
  }
  case Instruction::ShuffleVector: {
    auto *X = cast<ShuffleVectorInst>(d.I);
    V a = val(d.ops[0]), b = val(d.ops[1]), r;
    r.agg = IP<Agg>(new Agg());
    for (int i : X->getShuffleMask()) {
      if (i < 0) r.agg->v.push_back(undefV(X->getType()->getScalarType()));
      else if ((size_t)i < a.agg->v.size()) r.agg->v.push_back(a.agg->v[i]);
      else r.agg->v.push_back(b.agg->v[i - a.agg->v.size()]);
    }
    f.regs[d.dst] = r;
    f.pc++;
    return;
  }
  default: {
    unsupported(std::string("instruction ") + d.I->getOpcodeName());
  }
  }
}

// ---------------------------------------------------------------- path end
static void finishPath(bool normal) {
  st_paths++;
  if ((int)tests.size() < g_sampleTests || (st_paths & (st_paths - 1)) == 0) {
    bool taintd = false;
    for (E c : S->cons) if (c->taint) taintd = true;
    if (taintd) return;
    Model m = fullModel(S->cons, nullptr);
    TestRep t;
    for (u32 id : S->inputs) {
      auto f = m.find(id);
      t.lines.push_back("in " + hex128(f == m.end() ? 0 : f->second) + " " + g_syms[id].name);
    }
    if (!S->sched.empty()) {
      std::string l = "sched";
      for (u8 x : S->sched) l += " " + std::to_string((int)x);
      t.lines.push_back(l);
    }
    for (auto &o : S->obs) {
      E e = toE(o.second, 64);
      if (e->taint) continue;
      t.lines.push_back("obs " + hex128(evalE(e, m)) + " " + o.first);
    }
    if ((int)tests.size() < g_sampleTests) tests.push_back(t);
    else tests[(st_paths * 2654435761u >> 7) % tests.size()] = t;
  }
}

static void runState() {
  // runs S until it ends
  u32 tick = 0;
  while (true) {
    try {
      while (true) {
        if (S->th[S->cur].status == 2 && S->th[0].status == 2) { finishPath(true); return; }
        step();
        if ((++tick & 0x3ff) == 0) {
          if (now() - g_t0 > g_maxTime) { g_timeout = true; g_timeoutWhy = "time budget"; return; }
          if (S->steps > g_maxPathSteps) { if (g_unsupported.size() < 20) g_unsupported.insert("path step limit @ " + where()); return; }
        }
      }
    } catch (Retry &) {
      continue;
    } catch (Kill &) {
      st_kill++;
      return;
    }
  }
}

static void initGlobal(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = ds->getRawDataValues();
    memcpy(&o->bytes[off], r.data(), r.size());
    return;
  }
  if (auto *s = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), s->getOperand(i));
    return;
  }
  if (auto *s = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(s->getType()->getElementType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(o, off + i * es, s->getOperand(i));
    return;
  }
  storeT(t, o, off, constV(c));
}

int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto opt = [&](const char *n) { return a.compare(0, strlen(n), n) == 0 ? argv[i] + strlen(n) : nullptr; };
    if (const char *v = opt("--entry=")) g_entry = v;
    else if (const char *v = opt("--out=")) g_out = v;
    else if (const char *v = opt("--repo=")) g_repo = v;
    else if (const char *v = opt("--time=")) g_maxTime = atof(v);
    else if (const char *v = opt("--after-error=")) g_afterErr = atof(v);
    else if (const char *v = opt("--max-errs=")) g_maxErrs = atoi(v);
    else if (const char *v = opt("--preempt=")) g_maxPreempt = atoi(v);
    else if (const char *v = opt("--path-steps=")) g_maxPathSteps = atoll(v);
    else if (const char *v = opt("--tests=")) g_sampleTests = atoi(v);
    else if (const char *v = opt("--bound=")) g_boundArg = atoi(v);
    else if (a == "-v") g_verbose = true;
    else bc = a;
  }
  g_t0 = now();
  struct rlimit rl = {1ull << 30, 1ull << 30};
  setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("engine", llvm::errs()); return 3; }
  DL = &M->getDataLayout();
  solverInit(60000);
  g_deadStack = IP<Obj>(new Obj()); g_deadStack->kind = OK_STACK; g_deadStack->freed = true;
  for (int i = 0; i < 8; i++) { g_deadHeap[i] = IP<Obj>(new Obj()); g_deadHeap[i]->kind = OK_HEAP; g_deadHeap[i]->freed = true; g_deadHeap[i]->ak = (AllocKind)i; }
  auto s0 = std::make_unique<State>();
  S = s0.get();
  S->th.emplace_back();
  S->th[0].vc.c[0] = 1;
  // addresses
  for (auto &F : *M) {
    u32 id = newObj(OK_FUNC, 16, AK_NONE, &F, true);
    gaddr[&F] = addrOf(id);
    fnAt[addrOf(id)] = &F;
    gnameAt[addrOf(id)] = F.getName().str();
  }
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (G.isDeclaration() && sz < 64) sz = 64;
    u32 id = newObj(OK_GLOBAL, sz, AK_NONE, &G, true);
    gaddr[&G] = addrOf(id);
    gnameAt[addrOf(id)] = G.getName().str();
  }
  for (auto &G : M->globals()) {
    if (!G.hasInitializer()) continue;
    Obj *o = S->as.getW(gaddr[&G] >> 32);
    if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.global_dtors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used") continue;
    initGlobal(o, 0, G.getInitializer());
    if (G.isConstant()) o->ro = true;
  }
  Function *entry = M->getFunction(g_entry);
  if (!entry) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
  // static constructors, by priority
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<u64, Function *>> cs;
    if (gc->hasInitializer())
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &op : ca->operands()) {
          auto *st = cast<ConstantStruct>(op);
          if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
        }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) {
      S->inCtors = true;
      try {
        pushFrame(c.second, {});
        while (true) step();
      } catch (Kill &) {}
      if (!S->T().st.empty()) { fprintf(stderr, "static constructor failed\n"); g_unsupported.insert("static constructor " + c.second->getName().str()); S->T().st.clear(); }
    }
    S->inCtors = false;
  }
  S->steps = 0;
  try { pushFrame(entry, {}); } catch (Kill &) {}
  work.push_back(std::move(s0));
  while (!work.empty()) {
    auto st = std::move(work.back());
    work.pop_back();
    S = st.get();
    runState();
    S = nullptr;
    st.reset();
    if (errs_.size() >= g_maxErrs) break;
    if (!g_timeout && now() - g_t0 > g_maxTime) { g_timeout = true; g_timeoutWhy = "time budget"; }
    if (g_timeout) break;
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    if ((u64)ru.ru_maxrss * 1024 > g_maxMem) { g_timeout = true; g_timeoutWhy = "memory budget"; break; }
  }
  size_t left = work.size();
  // report
  std::ostringstream o;
  o << "{\n \"entry\": \"" << jsonEsc(g_entry) << "\",\n";
  o << " \"complete\": " << ((left == 0 && !g_timeout && g_unsupported.empty()) ? "true" : "false") << ",\n";
  o << " \"timeout\": \"" << g_timeoutWhy << "\", \"pending_states\": " << left << ",\n";
  o << " \"paths\": " << st_paths << ", \"forks\": " << st_forks << ", \"instructions\": " << st_steps << ", \"killed\": " << st_kill << ",\n";
  o << " \"asserts\": " << st_asserts << ", \"assert_queries\": " << st_assertQ << ", \"symbolic_branches\": " << st_symbranch << ", \"memory_checks\": " << st_memchk << ", \"sched_points\": " << st_schedpoints << ",\n";
  o << " \"queries\": " << g_ss.queries << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown << ", \"cache_hits\": " << g_ss.cacheHits << ", \"model_hits\": " << g_ss.modelHits << ",\n";
  o << " \"solver_time\": " << g_ss.time << ", \"max_query\": " << g_ss.maxq << ", \"wall\": " << now() - g_t0 << ",\n";
  auto strs = [&](const char *n, const std::vector<std::string> &v) {
    o << " \"" << n << "\": [";
    for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << "\"" << jsonEsc(v[i]) << "\"";
    o << "],\n";
  };
  std::vector<std::string> fl;
  for (auto &p : fns) if (p.second && p.second->covered && p.second->fromRepo) fl.push_back(demangle(p.second->name));
  std::sort(fl.begin(), fl.end());
  strs("functions", fl);
  strs("unsupported", std::vector<std::string>(g_unsupported.begin(), g_unsupported.end()));
  strs("stubs", std::vector<std::string>(g_stubs.begin(), g_stubs.end()));
  o << " \"witnesses\": {";
  bool first = true;
  for (auto &w : witnesses) { o << (first ? "" : ", ") << "\"" << jsonEsc(w.first) << "\": " << w.second; first = false; }
  o << "},\n \"errors\": [";
  for (size_t i = 0; i < errs_.size(); i++) {
    auto &e = errs_[i];
    o << (i ? ",\n  " : "\n  ") << "{\"kind\": \"" << jsonEsc(e.kind) << "\", \"msg\": \"" << jsonEsc(e.msg) << "\", \"count\": " << e.n << ", \"stack\": \"" << jsonEsc(e.stack) << "\", \"replay\": [";
    bool f1 = true;
    for (auto &in : e.inputs) { o << (f1 ? "" : ", ") << "\"in " << in.second << " " << jsonEsc(in.first) << "\""; f1 = false; }
    if (!e.sched.empty()) { o << (f1 ? "" : ", ") << "\"sched"; for (u8 x : e.sched) o << " " << (int)x; o << "\""; }
    o << "]}";
  }
  o << "],\n \"tests\": [";
  for (size_t i = 0; i < tests.size(); i++) {
    o << (i ? ",\n  [" : "\n  [");
    for (size_t k = 0; k < tests[i].lines.size(); k++) o << (k ? ", " : "") << "\"" << jsonEsc(tests[i].lines[k]) << "\"";
    o << "]";
  }
  o << "]\n}\n";
  if (g_out.empty()) std::cout << o.str();
  else { std::ofstream f(g_out); f << o.str(); }
  fflush(stdout);
  _Exit(0);
}
