#pragma once
#include "expr.h"
#include "solver.h"
#include <functional>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

template <typename T> struct IP { // intrusive pointer
  T *p = nullptr;
  IP() {}
  IP(T *q) : p(q) { if (p) p->refs++; }
  IP(const IP &o) : p(o.p) { if (p) p->refs++; }
  IP(IP &&o) : p(o.p) { o.p = nullptr; }
  IP &operator=(IP o) { std::swap(p, o.p); return *this; }
  ~IP() { if (p && --p->refs == 0) delete p; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  void cow() { if (p && p->refs > 1) { T *n = new T(*p); n->refs = 1; --p->refs; p = n; } }
};

struct V;
struct Agg { u32 refs = 0; std::vector<V> v; };
struct V {
  u64 c = 0;
  E e = nullptr;
  IP<Agg> agg;
  V() {}
  V(u64 x) : c(x) {}
};
static inline V mkV(E e) { V v; if (isC(e) && e->width <= 64) v.c = (u64)e->val; else v.e = e; return v; }
static inline E toE(const V &v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }

enum ObjKind : u8 { OK_NONE, OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC };
enum AllocKind : u8 { AK_NONE, AK_MALLOC, AK_NEW, AK_NEWARR, AK_EXC };

struct Shadow { u8 wt = 255; u32 wc = 0; u32 rc[4] = {0, 0, 0, 0}; bool watomic = false; };
struct ShadowVec { u32 refs = 0; std::vector<Shadow> v; };

struct Obj {
  u32 refs = 0;
  u64 size = 0;
  ObjKind kind = OK_NONE;
  AllocKind ak = AK_NONE;
  bool freed = false, ro = false;
  bool allInit = false;
  u32 seq = 0;
  std::vector<u8> bytes;
  std::vector<u8> init;    // empty if allInit
  std::vector<E> sym;      // empty if none symbolic
  IP<ShadowVec> sh;
  const llvm::Value *site = nullptr;
};

struct Chunk { u32 refs = 0; IP<Obj> o[64]; };
struct AddrSpace {
  std::vector<IP<Chunk>> ch;
  u32 next = 1;
  Obj *get(u32 id) const {
    u32 c = id >> 6;
    if (c >= ch.size() || !ch[c]) return nullptr;
    return ch[c]->o[id & 63].p;
  }
  Obj *getW(u32 id) {
    u32 c = id >> 6;
    if (c >= ch.size() || !ch[c] || !ch[c]->o[id & 63]) return nullptr;
    ch[c].cow();
    IP<Obj> &s = ch[c]->o[id & 63];
    s.cow();
    return s.p;
  }
  void set(u32 id, IP<Obj> o) {
    u32 c = id >> 6;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = IP<Chunk>(new Chunk());
    ch[c].cow();
    ch[c]->o[id & 63] = o;
  }
};

struct Opnd { int slot = -1; V cst; unsigned w = 0; };
struct FnInfo;
struct DI {
  llvm::Instruction *I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  unsigned w = 0;   // result width (0: none/aggregate)
  std::vector<Opnd> ops;
  // gep
  i64 goff = 0;
  std::vector<std::pair<u32, i64>> gidx; // operand index, scale
  // control
  u32 t0 = 0, t1 = 0;                       // target blocks
  std::vector<std::pair<u64, u32>> cases;   // switch
  // call
  llvm::Function *callee = nullptr;
  FnInfo *calleeInfo = nullptr;
  int builtin = -1;
  u32 block = 0;
};
struct Phi { int dst; std::vector<std::pair<u32, Opnd>> in; };
struct BB { u32 start; std::vector<Phi> phis; };
struct FnInfo {
  llvm::Function *F = nullptr;
  unsigned nslots = 0;
  std::vector<DI> code;
  std::vector<BB> bbs;
  bool fromRepo = false;
  std::string name;
  bool covered = false;
};

struct Frame {
  FnInfo *f = nullptr;
  u32 pc = 0, cur = 0, prev = 0;
  std::vector<V> regs;
  std::vector<u32> allocas;
  std::vector<V> varargs;
  std::vector<unsigned> vawidths;
  int hook = 0;
  u64 hookArg = 0;
};

struct VC { u32 c[4] = {0, 0, 0, 0}; void join(const VC &o) { for (int i = 0; i < 4; i++) c[i] = std::max(c[i], o.c[i]); } };

struct Thread {
  std::vector<Frame> st;
  int status = 0; // 0 runnable 1 blocked 2 finished
  int waitKind = 0; u64 waitAddr = 0; // what it is blocked on
  bool pass = false; // scheduling decision already taken for the current op
  int phase = 0;
  bool timedOut = false;
  VC vc;
  std::vector<u64> caught; // exception objects being handled
  u32 uncaught = 0;
  V ret;
  bool joined = false, detached = false;
  u32 depthBase = 0;
};

struct Exc { u64 type = 0, dtor = 0; u32 handlers = 0; bool rethrown = false; u64 adjusted = 0; u32 refs = 1; };
struct Mtx { int owner = -1; int count = 0; int readers[4] = {0, 0, 0, 0}; int kind = 0; VC vc, rvc; bool init = false; };
struct Waiters { std::vector<int> w; };

struct State {
  AddrSpace as;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<E> cons;
  std::vector<u32> inputs;
  std::vector<u8> sched;
  std::map<u64, Exc> excs;
  std::map<u64, Mtx> mtx;
  std::map<u64, VC> atomvc;
  std::map<u64, std::vector<int>> cond;
  std::map<u64, int> guards;
  std::vector<std::pair<std::string, V>> obs; // width 64
  std::vector<u32> asserts;
  u64 steps = 0;
  u32 heapSeq = 0, leakMark = 0;
  bool leakOn = false;
  u32 preempts = 0;
  u32 forks = 0;
  u64 failNew = 0;
  u32 bound = 0;
  E clock = nullptr; // nanoseconds, advanced by waits that time out
  std::map<u64, u64> reallocs;
  bool inCtors = false;
  int lastForkLoc = 0;
  Thread &T() { return th[cur]; }
  Frame &fr() { return th[cur].st.back(); }
};
