// included by engine.cpp
static bool g_inAtomic = false;
static int g_boundArg = 0;
static u64 g_maxAlloc = 1ull << 26;

enum { WK_MUTEX = 1, WK_RW, WK_COND, WK_JOIN, WK_GUARD };

static std::map<std::string, E> symCache;
static E inputSym(const std::string &name, unsigned w) {
  std::string key = std::to_string(S->inputs.size()) + ":" + name + ":" + std::to_string(w);
  auto &e = symCache[key];
  if (!e) e = mkSym(name, w);
  S->inputs.push_back(e->aux);
  return e;
}

static void retV(DI &d, const V &v) { setDst(d, v); advanceCall(d); }

static void atomicPre(const V &p, u64 n, bool write, AtomicOrdering ord) {
  if (S->th.size() < 2) return;
  if (p.e) unsupported("symbolic atomic address");
  u32 id = p.c >> 32;
  Obj *o = S->as.get(id);
  if (!o || o->freed) return; // reported by the access itself
  u64 off = p.c - addrOf(id);
  if (off + n > o->size) return;
  o = S->as.getW(id);
  if (g_races) raceCheck(o, off, n, write, true);
  bool acq = isAcquireOrStronger(ord), rel = isReleaseOrStronger(ord);
  VC &av = S->atomvc[p.c];
  if (acq) S->T().vc.join(av);
  if (write && rel) { av.join(S->T().vc); S->T().vc.c[S->cur]++; }
}

static void freeObjAt(u64 p, AllocKind want, const char *what) {
  if (p == 0) return;
  u32 id = p >> 32;
  Obj *o = S->as.get(id);
  if (!o) fail("invalid-free", std::string(what) + " of an invalid pointer");
  if (o->freed && o->kind == OK_HEAP) fail("double-free", std::string(what) + " of memory already released");
  if (o->kind != OK_HEAP) fail("invalid-free", std::string(what) + " of memory that was not allocated");
  if (p != addrOf(id)) fail("invalid-free", std::string(what) + " of the middle of an allocation");
  if (o->ak != want) fail("alloc-mismatch", std::string(what) + " does not match the allocation");
  if (g_races && S->th.size() > 1) { o = S->as.getW(id); raceCheck(o, 0, o->size, true, false); }
  S->as.set(id, g_deadHeap[want]);
}
static void freeExc(u64 ex) {
  S->excs.erase(ex);
  u32 id = ex >> 32;
  S->as.set(id, g_deadHeap[AK_EXC]);
}

static void callRt(DI &d, const char *name, const std::vector<V> &args) {
  Function *F = M->getFunction(name);
  if (!F || F->isDeclaration()) unsupported(std::string("runtime function ") + name);
  pushFrame(F, args);
}

static void doAlloc(DI &d, AllocKind k, bool zero = false, bool nothrow = false) {
  u64 n = concretize(d.ops[0]);
  if (k == AK_MALLOC && zero) { u64 m = concretize(d.ops[1]); n *= m; }
  bool failIt = n > g_maxAlloc;
  if (S->failNew && k != AK_MALLOC) { if (--S->failNew == 0) failIt = true; }
  if (failIt) {
    if (nothrow || k == AK_MALLOC) { retV(d, V(0)); return; }
    callRt(d, "__rt_throw_bad_alloc", {});
    return;
  }
  u32 id = newObj(OK_HEAP, n, k, d.I, zero);
  retV(d, V(addrOf(id)));
}

static void threadExit() {
  Thread &T = S->T();
  T.status = 2;
  wake(WK_JOIN, S->cur);
  if (S->cur == 0) return; // path end
  T.st.clear();
  if (S->th[0].status == 2) return;
  // keep T.st non-empty is not needed: a finished thread is never stepped
  chooseNext(false);
}

// ---- memory block operations
static void blockCopy(u64 dst, u64 src, u64 n, bool move, const char *what) {
  if (!n) return;
  u64 so, dof;
  Obj *s = lookupAddr(src, n, false, so, "read");
  IP<Obj> hold(s); // keep the source alive across copy-on-write
  Obj *o = lookupAddr(dst, n, true, dof, "write");
  if (!move && (src >> 32) == (dst >> 32) && src != dst) {
    u64 lo = std::min(so, dof), hi = std::max(so, dof);
    if (lo + n > hi) fail("overlap", std::string(what) + " with overlapping source and destination");
  }
  if (o != s && s == hold.p && (src >> 32) == (dst >> 32)) s = o; // same object after cow: contents equal anyway
  std::vector<u8> b(hold->bytes.begin() + so, hold->bytes.begin() + so + n);
  std::vector<u8> in;
  std::vector<E> sy;
  if (!hold->allInit) in.assign(hold->init.begin() + so, hold->init.begin() + so + n);
  if (!hold->sym.empty()) sy.assign(hold->sym.begin() + so, hold->sym.begin() + so + n);
  memcpy(&o->bytes[dof], b.data(), n);
  if (!in.empty()) {
    if (o->allInit) {
      bool all = true;
      for (u8 x : in) if (!x) all = false;
      if (!all) { o->init.assign(o->size, 1); o->allInit = false; }
    }
    if (!o->allInit) memcpy(&o->init[dof], in.data(), n);
  } else if (!o->allInit) memset(&o->init[dof], 1, n);
  bool any = false;
  for (E e : sy) if (e) any = true;
  if (any && o->sym.empty()) o->sym.assign(o->size, nullptr);
  if (!o->sym.empty()) for (u64 i = 0; i < n; i++) o->sym[dof + i] = sy.empty() ? nullptr : sy[i];
}
static void blockSet(u64 dst, const V &v, u64 n) {
  if (!n) return;
  u64 off;
  Obj *o = lookupAddr(dst, n, true, off, "write");
  E e = toE(v, 8);
  for (u64 i = 0; i < n; i++) storeInt(o, off + i, 8, mkV(e));
}
static E byteAt(u64 a) {
  u64 off;
  Obj *o = lookupAddr(a, 1, false, off, "read");
  return loadByte(o, off);
}

static void b_memcmp(DI &d) {
  u64 n = concretize(d.ops[2]), a = concretize(d.ops[0]), b = concretize(d.ops[1]);
  if (n) { u64 o; lookupAddr(a, n, false, o, "read"); lookupAddr(b, n, false, o, "read"); }
  E r = mkC(0, 32);
  for (u64 i = n; i-- > 0;) {
    E x = byteAt(a + i), y = byteAt(b + i);
    if (x == y) continue;
    E diff = mk(SUB, 32, mkZext(x, 32), mkZext(y, 32));
    r = mkIte(mkEq(x, y), r, diff);
  }
  retV(d, mkV(r));
}
// Hash values of texts are not observable: a constant keeps symbolic keys in one bucket so look-ups compare the keys themselves. Type names are hashed for real, since their hashes are compared.
static void b_hash_bytes(DI &d) {
  u64 a = concretize(d.ops[0]), n = concretize(d.ops[1]);
  auto g = gnameAt.find(a);
  if (g == gnameAt.end() || g->second.compare(0, 4, "_ZTS") != 0) { retV(d, V(7)); return; }
  u64 h = 14695981039346656037ull;
  for (u64 i = 0; i < n; i++) { E x = byteAt(a + i); h = (h ^ (isC(x) ? (u64)x->val : 0)) * 1099511628211ull; }
  retV(d, V(h));
}
static void b_memcpy(DI &d) { u64 n = concretize(d.ops[2]), a = concretize(d.ops[0]), b = concretize(d.ops[1]); blockCopy(a, b, n, false, "memcpy"); retV(d, V(a)); }
static void b_memmove(DI &d) { u64 n = concretize(d.ops[2]), a = concretize(d.ops[0]), b = concretize(d.ops[1]); blockCopy(a, b, n, true, "memmove"); retV(d, V(a)); }
static void b_memset(DI &d) { u64 n = concretize(d.ops[2]), a = concretize(d.ops[0]); V x = val(d.ops[1]); blockSet(a, mkV(mkExtract(toE(x, 32), 0, 8)), n); retV(d, V(a)); }

// ---- exceptions
static void b_alloc_exc(DI &d) {
  u64 n = concretize(d.ops[0]);
  u32 id = newObj(OK_HEAP, n, AK_EXC, d.I, true);
  retV(d, V(addrOf(id)));
}
static void b_free_exc(DI &d) { u64 p = concretize(d.ops[0]); S->as.set(p >> 32, g_deadHeap[AK_EXC]); retV(d, V(0)); }
static void b_throw(DI &d) {
  u64 o = concretize(d.ops[0]), t = concretize(d.ops[1]), dt = concretize(d.ops[2]);
  throwNew(o, t, dt);
}
static void b_begin_catch(DI &d) {
  u64 ex = concretize(d.ops[0]);
  Exc &x = S->excs[ex];
  x.handlers++;
  x.rethrown = false;
  S->T().caught.push_back(ex);
  if (S->T().uncaught) S->T().uncaught--;
  retV(d, V(x.adjusted ? x.adjusted : ex));
}
static void b_end_catch(DI &d) {
  auto &c = S->T().caught;
  if (c.empty()) { retV(d, V(0)); return; }
  u64 ex = c.back();
  c.pop_back();
  Exc &x = S->excs[ex];
  if (x.handlers) x.handlers--;
  if (x.handlers == 0 && !x.rethrown) {
    if (x.dtor) {
      auto it = fnAt.find(x.dtor);
      if (it == fnAt.end() || it->second->isDeclaration()) { freeExc(ex); retV(d, V(0)); return; }
      pushFrame(it->second, {V(ex)}, 3, ex);
      return;
    }
    freeExc(ex);
  }
  retV(d, V(0));
}
static void b_rethrow(DI &d) {
  auto &c = S->T().caught;
  if (c.empty()) callTerminate("rethrow without an active exception");
  u64 ex = c.back();
  S->excs[ex].rethrown = true;
  S->T().uncaught++;
  unwind(ex);
}
static void b_get_exc_ptr(DI &d) { u64 ex = concretize(d.ops[0]); Exc &x = S->excs[ex]; retV(d, V(x.adjusted ? x.adjusted : ex)); }
static void b_uncaught(DI &d) { retV(d, V(S->T().uncaught)); }
static void b_terminate(DI &d) { callTerminate("std::terminate called"); }
static void b_clang_terminate(DI &d) { callTerminate("exception escapes a function that must not throw"); }
static void b_abort(DI &d) { fail("abort", "abort called"); }
static void b_pure(DI &d) { fail("pure-virtual", "pure virtual function called"); }
static void b_nop(DI &d) { retV(d, V(0)); }
static void b_ret1(DI &d) { retV(d, V(1)); }
static void b_assert_fail(DI &d) { fail("abort", "assertion in library or code failed: " + cstrAt(concretize(d.ops[0]))); }
static void b_ubsan(DI &d) { fail("undefined-behaviour", d.callee ? d.callee->getName().str() : "ubsan"); }

static void b_dyncast(DI &d) {
  u64 src = concretize(d.ops[0]), st = concretize(d.ops[1]), dt = concretize(d.ops[2]);
  u64 vptr = rd(src, 8);
  i64 ott = (i64)rd(vptr - 16, 8);
  u64 whole = src + ott, wt = rd(vptr - 8, 8);
  std::vector<BaseHit> dh;
  findBases(wt, whole, true, dt, dh, true);
  std::vector<u64> cand;
  for (auto &h : dh) {
    std::vector<BaseHit> sh;
    findBases(dt, h.addr, true, st, sh, true);
    for (auto &s : sh) if (s.addr == src && s.pub) { cand.push_back(h.addr); break; }
  }
  if (cand.size() == 1) { retV(d, V(cand[0])); return; }
  if (cand.size() > 1) { retV(d, V(0)); return; }
  std::vector<BaseHit> sh;
  findBases(wt, whole, true, st, sh, true);
  bool pub = false;
  for (auto &s : sh) if (s.addr == src && s.pub) pub = true;
  if (pub && dh.size() == 1 && dh[0].pub) { retV(d, V(dh[0].addr)); return; }
  retV(d, V(0));
}

// ---- statics
static void b_guard_acquire(DI &d) {
  u64 g = concretize(d.ops[0]);
  u64 off;
  bool sv = g_races; g_races = false;
  Obj *o = lookupAddr(g, 8, false, off, "read");
  g_races = sv;
  if (o->bytes[off]) { if (S->th.size() > 1) S->T().vc.join(S->atomvc[g]); retV(d, V(0)); return; }
  auto it = S->guards.find(g);
  if (it != S->guards.end()) {
    if (it->second == S->cur) fail("deadlock", "recursive initialisation of a static");
    blockOn(WK_GUARD, g);
  }
  S->guards[g] = S->cur;
  retV(d, V(1));
}
static void guardEnd(DI &d, bool done) {
  u64 g = concretize(d.ops[0]);
  u64 off;
  bool sv = g_races; g_races = false;
  Obj *o = lookupAddr(g, 8, true, off, "write");
  if (done) { storeInt(o, off, 8, V(1)); }
  g_races = sv;
  S->guards.erase(g);
  S->atomvc[g].join(S->T().vc);
  S->T().vc.c[S->cur]++;
  wake(WK_GUARD, g);
  retV(d, V(0));
}
static void b_guard_release(DI &d) { guardEnd(d, true); }
static void b_guard_abort(DI &d) { guardEnd(d, false); }

// ---- threads
static void b_pcreate(DI &d) {
  u64 out = concretize(d.ops[0]), fn = concretize(d.ops[2]);
  V arg = val(d.ops[3]);
  if (S->th.size() >= 4) unsupported("more than 4 threads");
  int t = S->th.size();
  auto it = fnAt.find(fn);
  if (it == fnAt.end()) fail("bad-call", "thread start routine");
  wr(out, (u64)t + 1, 8);
  S->T().vc.c[S->cur]++;
  S->th.emplace_back();
  S->th[t].vc = S->T().vc;
  S->th[t].vc.c[t] = 1;
  int me = S->cur;
  DI &dd = d;
  retV(dd, V(0));
  S->cur = t;
  pushFrame(it->second, {arg});
  S->cur = me;
}
static void b_pjoin(DI &d) {
  u64 t = concretize(d.ops[0]);
  if (t == 0 || t > S->th.size()) fail("bad-thread", "join of an invalid thread");
  t--;
  if ((int)t == S->cur) { retV(d, V(35)); return; }
  if (S->th[t].joined || S->th[t].detached) fail("bad-thread", "join of a thread already joined");
  S->T().pass = false;
  if (S->th[t].status != 2) blockOn(WK_JOIN, t);
  S->th[t].joined = true;
  S->T().vc.join(S->th[t].vc);
  retV(d, V(0));
}
static void b_pdetach(DI &d) { u64 t = concretize(d.ops[0]); if (t && t <= S->th.size()) S->th[t - 1].detached = true; retV(d, V(0)); }
static void b_pself(DI &d) { retV(d, V((u64)S->cur + 1)); }

static void touchSync(u64 m, const char *what) { // validity of the synchronisation object itself
  u64 off;
  bool sv = g_races; g_races = false;
  Obj *o;
  try { o = lookupAddr(m, 4, false, off, what); } catch (...) { g_races = sv; throw; }
  (void)o;
  g_races = sv;
}
static bool mtxRecursive(u64 m) {
  u64 off;
  bool sv = g_races; g_races = false;
  Obj *o;
  try { o = lookupAddr(m, 20, false, off, "lock"); } catch (...) { g_races = sv; throw; }
  g_races = sv;
  return o->bytes[off + 16] == 1;
}
static bool mtxTake(u64 m) { // true if acquired
  bool rec = mtxRecursive(m);
  Mtx &x = S->mtx[m];
  if (x.owner == -1) { x.owner = S->cur; x.count = 1; S->T().vc.join(x.vc); return true; }
  if (x.owner == S->cur) {
    if (rec) { x.count++; return true; }
    fail("deadlock", "a thread locks a mutex it already holds");
  }
  return false;
}
static void mtxRelease(u64 m) {
  Mtx &x = S->mtx[m];
  if (x.owner != S->cur) fail("bad-unlock", "unlock of a mutex the thread does not hold");
  if (--x.count == 0) {
    x.owner = -1;
    x.vc = S->T().vc;
    S->T().vc.c[S->cur]++;
    wake(WK_MUTEX, m);
  }
}
static void b_mlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "lock");
  visible();
  if (!mtxTake(m)) blockOn(WK_MUTEX, m);
  retV(d, V(0));
}
static void b_mtrylock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "lock");
  visible();
  Mtx &x = S->mtx[m];
  if (x.owner == S->cur && !mtxRecursive(m)) { retV(d, V(16)); return; }
  retV(d, V(mtxTake(m) ? 0 : 16));
}
static void b_munlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "unlock");
  mtxRelease(m);
  retV(d, V(0));
}
static void b_mdestroy(DI &d) {
  u64 m = concretize(d.ops[0]);
  auto it = S->mtx.find(m);
  if (it != S->mtx.end() && it->second.owner != -1) fail("bad-destroy", "destruction of a locked mutex");
  S->mtx.erase(m);
  retV(d, V(0));
}
static bool anyReader(Mtx &x) { for (int r : x.readers) if (r) return true; return false; }
static void b_rdlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "lock");
  visible();
  Mtx &x = S->mtx[m];
  if (x.owner == S->cur) { retV(d, V(35)); return; }
  if (x.owner != -1) blockOn(WK_RW, m);
  x.readers[S->cur]++;
  S->T().vc.join(x.vc);
  retV(d, V(0));
}
static void b_tryrdlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "lock");
  visible();
  Mtx &x = S->mtx[m];
  if (x.owner != -1) { retV(d, V(16)); return; }
  x.readers[S->cur]++;
  S->T().vc.join(x.vc);
  retV(d, V(0));
}
static void b_wrlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "lock");
  visible();
  Mtx &x = S->mtx[m];
  if (x.owner == S->cur) { retV(d, V(35)); return; }
  if (x.owner != -1 || anyReader(x)) blockOn(WK_RW, m);
  x.owner = S->cur;
  S->T().vc.join(x.vc);
  S->T().vc.join(x.rvc);
  retV(d, V(0));
}
static void b_trywrlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "lock");
  visible();
  Mtx &x = S->mtx[m];
  if (x.owner != -1 || anyReader(x)) { retV(d, V(16)); return; }
  x.owner = S->cur;
  S->T().vc.join(x.vc);
  S->T().vc.join(x.rvc);
  retV(d, V(0));
}
static void b_rwunlock(DI &d) {
  u64 m = concretize(d.ops[0]);
  touchSync(m, "unlock");
  Mtx &x = S->mtx[m];
  if (x.owner == S->cur) { x.owner = -1; x.vc = S->T().vc; x.rvc = VC(); }
  else if (x.readers[S->cur]) { x.readers[S->cur]--; x.rvc.join(S->T().vc); }
  else fail("bad-unlock", "release of a lock the thread does not hold");
  S->T().vc.c[S->cur]++;
  wake(WK_RW, m);
  retV(d, V(0));
}
static void b_rwdestroy(DI &d) {
  u64 m = concretize(d.ops[0]);
  auto it = S->mtx.find(m);
  if (it != S->mtx.end() && (it->second.owner != -1 || anyReader(it->second))) fail("bad-destroy", "destruction of a held lock");
  S->mtx.erase(m);
  retV(d, V(0));
}
// The clock: a constant until a timed wait runs out, which moves it to that wait's deadline.
static E clockNow() { if (!S->clock) S->clock = mkC(1000000000ull, 64); return S->clock; }
static E deadlineAt(u64 a) {
  u64 o1, o2;
  Obj *x = lookupAddr(a, 8, false, o1, "read");
  E sec = toE(loadInt(x, o1, 64), 64);
  Obj *y = lookupAddr(a + 8, 8, false, o2, "read");
  E ns = toE(loadInt(y, o2, 64), 64);
  return mk(ADD, 64, mk(MUL, 64, sec, mkC(1000000000ull, 64)), ns);
}
static void condWait(DI &d, bool timed, unsigned tsArg) {
  u64 c = concretize(d.ops[0]), m = concretize(d.ops[1]);
  Thread &T = S->T();
  if (T.phase == 0) {
    touchSync(c, "wait");
    visible();
    Mtx &x = S->mtx[m];
    if (x.owner != S->cur) fail("bad-unlock", "wait with a mutex the thread does not hold");
    if (timed) {
      // may time out at once
      E dl = deadlineAt(concretize(d.ops[tsArg]));
      E to = inputSym("timeout", 8);
      State *o = forkState();
      State *me = S;
      S = o;
      addCons(mkEq(to, mkC(1, 8)));
      mtxRelease(m);
      S->T().phase = 1; S->T().timedOut = true; S->T().pass = false;
      S->clock = mkIte(mk(SLT, 1, clockNow(), dl), dl, clockNow());
      S = me;
      addCons(mkEq(to, mkC(0, 8)));
    }
    mtxRelease(m);
    S->cond[c].push_back(S->cur);
    S->T().phase = timed ? 2 : 1;
    blockOn(WK_COND, c);
  }
  // woken: reacquire
  auto &w = S->cond[c];
  w.erase(std::remove(w.begin(), w.end(), S->cur), w.end());
  if (S->T().timedOut && S->T().phase == 1 && !S->T().pass) visible();
  S->T().pass = false;
  if (!mtxTake(m)) blockOn(WK_MUTEX, m);
  bool to = S->T().timedOut;
  S->T().phase = 0;
  S->T().timedOut = false;
  retV(d, V(to ? 110 : 0));
}
static void b_cwait(DI &d) { condWait(d, false, 0); }
static void b_ctwait(DI &d) { condWait(d, true, 2); }
static void b_clwait(DI &d) { condWait(d, true, 3); }
static void b_csignal(DI &d) {
  u64 c = concretize(d.ops[0]);
  touchSync(c, "notify");
  auto &w = S->cond[c];
  if (!w.empty()) {
    // any waiter may be the one released
    if (w.size() > 1) {
      E which = inputSym("waiter", 8);
      size_t n = w.size();
      for (size_t i = 1; i < n; i++) {
        State *o = forkState();
        State *me = S;
        S = o;
        auto &w2 = S->cond[c];
        S->th[w2[i]].status = 0;
        w2.erase(w2.begin() + i);
        addCons(mkEq(which, mkC(i, 8)));
        retV(d, V(0));
        S = me;
      }
      addCons(mkEq(which, mkC(0, 8)));
    }
    auto &w3 = S->cond[c];
    S->th[w3[0]].status = 0;
    w3.erase(w3.begin());
  }
  retV(d, V(0));
}
static void b_cbroadcast(DI &d) {
  u64 c = concretize(d.ops[0]);
  touchSync(c, "notify");
  for (int t : S->cond[c]) S->th[t].status = 0;
  S->cond[c].clear();
  retV(d, V(0));
}
static void b_cdestroy(DI &d) { u64 c = concretize(d.ops[0]); S->cond.erase(c); retV(d, V(0)); }
static void b_yield(DI &d) { visible(); retV(d, V(0)); }

// ---- harness interface
static std::string argStr(DI &d, int i) { u64 p = concretize(d.ops[i]); return p ? cstrAt(p) : ""; }
static void b_sym64(DI &d) { retV(d, mkV(inputSym(argStr(d, 0), 64))); }
static void b_sym32(DI &d) { retV(d, mkV(inputSym(argStr(d, 0), 32))); }
static void b_sym16(DI &d) { retV(d, mkV(inputSym(argStr(d, 0), 16))); }
static void b_sym8(DI &d) { retV(d, mkV(inputSym(argStr(d, 0), 8))); }
static void b_symbool(DI &d) {
  E e = inputSym(argStr(d, 0), 8);
  addCons(mk(ULT, 1, e, mkC(2, 8)));
  retV(d, mkV(d.w == 1 ? mkExtract(e, 0, 1) : mkZext(e, d.w)));
}
static void b_symrange(DI &d) { // (name, lo, hi) unsigned inclusive -> u64 (symbolic)
  E e = inputSym(argStr(d, 0), 64);
  V lo = val(d.ops[1]), hi = val(d.ops[2]);
  addCons(mk(ULE, 1, toE(lo, 64), e));
  addCons(mk(ULE, 1, e, toE(hi, 64)));
  if (!mayBe(mk(ULE, 1, toE(lo, 64), toE(hi, 64)))) throw Kill();
  retV(d, mkV(e));
}
static void b_symsrange(DI &d) { // signed
  E e = inputSym(argStr(d, 0), 64);
  V lo = val(d.ops[1]), hi = val(d.ops[2]);
  addCons(mk(SLE, 1, toE(lo, 64), e));
  addCons(mk(SLE, 1, e, toE(hi, 64)));
  if (!mayBe(mk(SLE, 1, toE(lo, 64), toE(hi, 64)))) throw Kill();
  retV(d, mkV(e));
}
// choose(name, n): concrete 0..n-1, one state each
static void b_choose(DI &d) {
  u64 n = concretize(d.ops[1]);
  std::string name = argStr(d, 0);
  E e = inputSym(name, 64);
  if (n == 0) throw Kill();
  DI &dd = d;
  State *me = S;
  for (u64 i = n; i-- > 1;) {
    State *o = forkState();
    S = o;
    S->cons.push_back(mkEq(e, mkC(i, 64)));
    retV(dd, V(i));
    S = me;
  }
  addCons(mkEq(e, mkC(0, 64)));
  retV(d, V(0));
}
static void b_concretize(DI &d) { u64 x = concretize(d.ops[0]); retV(d, V(x)); }
static void b_assume(DI &d) {
  V v = val(d.ops[0]);
  unsigned w = d.ops[0].w;
  if (!v.e) { if (!(v.c & mask64(w))) { throw Kill(); } retV(d, V(0)); return; }
  E c = mkNot(mkEq(v.e, mkC(0, w)));
  if (!mayBe(c)) throw Kill();
  addCons(c);
  retV(d, V(0));
}
static void b_check(DI &d) { // (cond, message)
  V v = val(d.ops[0]);
  unsigned w = d.ops[0].w;
  std::string msg;
  st_asserts++;
  if (!v.e) {
    if (!(v.c & mask64(w))) fail("assertion", argStr(d, 1));
    retV(d, V(0));
    return;
  }
  st_assertQ++;
  E c = mkNot(mkEq(v.e, mkC(0, w)));
  E nc = mkNot(c);
  if (!isFalse(nc) && mayBe(nc)) {
    recordError("assertion", argStr(d, 1), nc);
    if (!mayBe(c)) throw Kill();
    addCons(c);
  }
  retV(d, V(0));
}
static void b_fail(DI &d) { st_asserts++; fail("assertion", argStr(d, 0)); }
static void b_witness(DI &d) { witnesses[argStr(d, 0)]++; retV(d, V(0)); }
static void b_observe(DI &d) {
  V v = val(d.ops[1]);
  S->obs.push_back({argStr(d, 0), v});
  retV(d, V(0));
}
static void b_leak_begin(DI &d) { S->leakMark = S->heapSeq; S->leakOn = true; retV(d, V(0)); }
static void b_leak_end(DI &d) {
  for (auto &c : S->as.ch) if (c) for (auto &o : c->o) if (o && o->kind == OK_HEAP && !o->freed && o->ak != AK_EXC && o->seq > S->leakMark) {
    std::string w;
    if (auto *I = dyn_cast_or_null<Instruction>(o->site)) w = demangle(I->getFunction()->getName().str());
    fail("memory-leak", "allocated memory is never released");
  }
  retV(d, V(0));
}
static void b_live(DI &d) { // number of live heap blocks allocated since leak_begin
  u64 n = 0;
  for (auto &c : S->as.ch) if (c) for (auto &o : c->o) if (o && o->kind == OK_HEAP && !o->freed && o->ak != AK_EXC && o->seq > S->leakMark) n++;
  retV(d, V(n));
}
static void b_failnew(DI &d) { S->failNew = concretize(d.ops[0]); retV(d, V(0)); }
static void b_bound(DI &d) { u64 def = concretize(d.ops[0]); retV(d, V(g_boundArg ? (u64)g_boundArg : def)); }
static void b_issym(DI &d) { retV(d, V(1)); }
static void b_print(DI &d) { if (g_verbose) { V v = val(d.ops[1]); fprintf(stderr, "PRINT %s %s\n", argStr(d, 0).c_str(), estr(toE(v, 64), 12).c_str()); } retV(d, V(0)); }
static void b_kill(DI &d) { throw Kill(); }
static void b_endpath(DI &d) { finishPath(true); throw Kill(); }
// make memory holding n bytes symbolic
static void b_symbytes(DI &d) {
  u64 p = concretize(d.ops[0]), n = concretize(d.ops[1]);
  std::string name = argStr(d, 2);
  u64 off;
  lookupAddr(p, n, true, off, "write");
  for (u64 i = 0; i < n; i++) {
    E e = inputSym(name + "[" + std::to_string(i) + "]", 8);
    Obj *o = lookupAddr(p, n, true, off, "write");
    storeInt(o, off + i, 8, mkV(e));
  }
  retV(d, V(0));
}
// make memory uninitialised again (to observe reads of it)
static void b_undef(DI &d) {
  u64 p = concretize(d.ops[0]), n = concretize(d.ops[1]), off;
  Obj *o = lookupAddr(p, n, true, off, "write");
  if (o->allInit) { o->init.assign(o->size, 1); o->allInit = false; }
  for (u64 i = 0; i < n; i++) { o->init[off + i] = 0; if (!o->sym.empty()) o->sym[off + i] = nullptr; }
  retV(d, V(0));
}
static void b_now(DI &d) { retV(d, mkV(clockNow())); }

static int findBuiltin(const std::string &name) {
  if (builtinId.empty()) {
    auto add = [](const char *n, Builtin b) { builtinId[n] = builtinFn.size(); builtinFn.push_back(b); };
    auto allocNew = [](DI &d) { doAlloc(d, AK_NEW); };
    auto allocNewArr = [](DI &d) { doAlloc(d, AK_NEWARR); };
    add("_Znwm", allocNew); add("_Znam", allocNewArr);
    add("_ZnwmSt11align_val_t", allocNew); add("_ZnamSt11align_val_t", allocNewArr);
    add("_ZnwmRKSt9nothrow_t", [](DI &d) { doAlloc(d, AK_NEW, false, true); });
    add("_ZnamRKSt9nothrow_t", [](DI &d) { doAlloc(d, AK_NEWARR, false, true); });
    add("malloc", [](DI &d) { doAlloc(d, AK_MALLOC); });
    add("calloc", [](DI &d) { doAlloc(d, AK_MALLOC, true); });
    add("free", [](DI &d) { freeObjAt(concretize(d.ops[0]), AK_MALLOC, "free"); retV(d, V(0)); });
    for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
      add(n, [](DI &d) { freeObjAt(concretize(d.ops[0]), AK_NEW, "delete"); retV(d, V(0)); });
    for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"})
      add(n, [](DI &d) { freeObjAt(concretize(d.ops[0]), AK_NEWARR, "delete[]"); retV(d, V(0)); });
    add("_ZSt11_Hash_bytesPKvmm", b_hash_bytes); add("memcmp", b_memcmp); add("bcmp", b_memcmp);
    add("memcpy", b_memcpy); add("memmove", b_memmove); add("memset", b_memset);
    add("__cxa_allocate_exception", b_alloc_exc); add("__cxa_free_exception", b_free_exc);
    add("__cxa_throw", b_throw); add("__cxa_begin_catch", b_begin_catch); add("__cxa_end_catch", b_end_catch);
    add("__cxa_rethrow", b_rethrow); add("__cxa_get_exception_ptr", b_get_exc_ptr);
    add("_ZSt18uncaught_exceptionv", b_uncaught); add("_ZSt19uncaught_exceptionsv", b_uncaught);
    add("_ZSt9terminatev", b_terminate); add("__clang_call_terminate", b_clang_terminate);
    add("abort", b_abort); add("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort); add("__assert_fail", b_assert_fail); add("exit", b_abort); add("_exit", b_abort);
    add("__cxa_pure_virtual", b_pure); add("__cxa_deleted_virtual", b_pure);
    add("__cxa_atexit", b_nop); add("atexit", b_nop); add("__cxa_thread_atexit", b_nop);
    add("__dynamic_cast", b_dyncast);
    add("__cxa_guard_acquire", b_guard_acquire); add("__cxa_guard_release", b_guard_release); add("__cxa_guard_abort", b_guard_abort);
    add("pthread_create", b_pcreate); add("pthread_join", b_pjoin); add("pthread_detach", b_pdetach); add("pthread_self", b_pself);
    add("pthread_mutex_lock", b_mlock); add("pthread_mutex_trylock", b_mtrylock); add("pthread_mutex_unlock", b_munlock);
    add("pthread_mutex_init", b_nop); add("pthread_mutex_destroy", b_mdestroy);
    add("pthread_rwlock_rdlock", b_rdlock); add("pthread_rwlock_tryrdlock", b_tryrdlock); add("pthread_rwlock_wrlock", b_wrlock);
    add("pthread_rwlock_trywrlock", b_trywrlock); add("pthread_rwlock_unlock", b_rwunlock); add("pthread_rwlock_destroy", b_rwdestroy); add("pthread_rwlock_init", b_nop);
    add("pthread_cond_wait", b_cwait); add("pthread_cond_timedwait", b_ctwait); add("pthread_cond_clockwait", b_clwait);
    add("pthread_cond_signal", b_csignal); add("pthread_cond_broadcast", b_cbroadcast); add("pthread_cond_destroy", b_cdestroy); add("pthread_cond_init", b_nop);
    add("sched_yield", b_yield); add("nanosleep", b_yield); add("clock_nanosleep", b_yield); add("__gthread_active_p", b_ret1);
    add("__libc_single_threaded_stub", b_nop);
    add("sym_u64", b_sym64); add("sym_u32", b_sym32); add("sym_u16", b_sym16); add("sym_u8", b_sym8); add("sym_bool", b_symbool);
    add("sym_range", b_symrange); add("sym_srange", b_symsrange); add("sym_choose", b_choose); add("sym_concretize", b_concretize);
    add("sym_assume", b_assume); add("sym_check", b_check); add("sym_fail", b_fail); add("sym_witness", b_witness); add("sym_observe", b_observe);
    add("sym_leak_begin", b_leak_begin); add("sym_leak_end", b_leak_end); add("sym_live_blocks", b_live); add("sym_fail_new", b_failnew);
    add("sym_bound", b_bound); add("sym_is_symbolic", b_issym); add("sym_print", b_print); add("sym_end", b_endpath); add("sym_bytes", b_symbytes);
    add("sym_yield", b_yield); add("sym_undef", b_undef);
    add("_ZNSt6chrono3_V212steady_clock3nowEv", b_now); add("_ZNSt6chrono3_V212system_clock3nowEv", b_now);
  }
  auto it = builtinId.find(name);
  if (it != builtinId.end()) return it->second;
  if (name.compare(0, 16, "__ubsan_handle_") == 0 || name.compare(0, 15, "__ubsan_handle_") == 0) {
    builtinId[name] = builtinFn.size();
    builtinFn.push_back(b_ubsan);
    return builtinId[name];
  }
  return -1;
}

// Undefined external function. Text formatting (iostream, locale) is cut: it has no effect and gives empty text.
static std::set<std::string> g_stubs;
static void stubCall(DI &d, Function *F) {
  std::string n = F->getName().str();
  auto has = [&](const char *x) { return n.find(x) != std::string::npos; };
  bool io = has("basic_ostream") || has("basic_istream") || has("ostringstream") || has("stringstream") || has("ios_base") || has("basic_ios") || has("6locale") ||
            has("ZNSo") || has("ZStls") || has("ZSt4endl") || has("ZSt16__ostream_insert") || has("basic_stringbuf") || has("NSi") || has("ZStrs") || has("ZNKSt5ctype") || has("basic_streambuf") || has("ZSt9use_facet") || has("lsERSo");
  if (!io) unsupported("call of external function " + demangle(n));
  g_stubs.insert(demangle(n));
  if (!F->getReturnType()->isVoidTy() && !F->getReturnType()->isPointerTy()) { retV(d, zeroV(F->getReturnType())); return; }
  if (F->arg_size() && F->getArg(0)->hasStructRetAttr() && (has("3strEv"))) {
    u64 p = concretize(d.ops[0]);
    wr(p, p + 16, 8); wr(p + 8, 0, 8); wr(p + 16, 0, 1);
    retV(d, V(0));
    return;
  }
  V r(0);
  if (F->getReturnType()->isPointerTy() && !d.ops.empty() && F->arg_size()) r = val(d.ops[0]);
  retV(d, r);
}

static E popcountE(E x, unsigned w) {
  E r = mkC(0, w);
  for (unsigned i = 0; i < w; i++) r = mk(ADD, w, r, mkZext(mkExtract(x, i, 1), w));
  return r;
}

static void doIntrinsic(DI &d, IntrinsicInst *I) {
  unsigned w = d.w;
  auto A = [&](int i) { return toE(val(d.ops[i]), d.ops[i].w); };
  switch (I->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { u64 n = concretize(d.ops[2]); u64 a = n ? concretize(d.ops[0]) : 0, b = n ? concretize(d.ops[1]) : 0; blockCopy(a, b, n, false, "memcpy"); retV(d, V(0)); return; }
  case Intrinsic::memmove: { u64 n = concretize(d.ops[2]); u64 a = n ? concretize(d.ops[0]) : 0, b = n ? concretize(d.ops[1]) : 0; blockCopy(a, b, n, true, "memmove"); retV(d, V(0)); return; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(d.ops[2]); u64 a = n ? concretize(d.ops[0]) : 0; blockSet(a, val(d.ops[1]), n); retV(d, V(0)); return; }
  case Intrinsic::umax: retV(d, mkV(mkIte(mk(ULT, 1, A(0), A(1)), A(1), A(0)))); return;
  case Intrinsic::umin: retV(d, mkV(mkIte(mk(ULT, 1, A(0), A(1)), A(0), A(1)))); return;
  case Intrinsic::smax: retV(d, mkV(mkIte(mk(SLT, 1, A(0), A(1)), A(1), A(0)))); return;
  case Intrinsic::smin: retV(d, mkV(mkIte(mk(SLT, 1, A(0), A(1)), A(0), A(1)))); return;
  case Intrinsic::abs: retV(d, mkV(mkIte(mk(SLT, 1, A(0), mkC(0, w)), mk(SUB, w, mkC(0, w), A(0)), A(0)))); return;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: retV(d, val(d.ops[0])); return;
  case Intrinsic::assume: case Intrinsic::var_annotation: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::stackrestore: case Intrinsic::donothing:
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: retV(d, V(0)); return;
  case Intrinsic::stacksave: retV(d, V(0)); return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: fail("trap", "undefined behaviour trap");
  case Intrinsic::eh_typeid_for: { u64 t = val(d.ops[0]).c; retV(d, V(selId(t))); return; }
  case Intrinsic::is_constant: retV(d, V(0)); return;
  case Intrinsic::objectsize: retV(d, V(~0ull)); return;
  case Intrinsic::ctpop: retV(d, mkV(popcountE(A(0), w))); return;
  case Intrinsic::bswap: {
    E x = A(0), r = mkExtract(x, 0, 8);
    for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
    retV(d, mkV(r));
    return;
  }
  case Intrinsic::ctlz: {
    E x = A(0), r = mkC(w, w);
    for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkC(w - 1 - i, w), r);
    retV(d, mkV(r));
    return;
  }
  case Intrinsic::cttz: {
    E x = A(0), r = mkC(w, w);
    for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkC(i, w), r);
    retV(d, mkV(r));
    return;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    E hi = A(0), lo = A(1), s = mk(UREM, w, A(2), mkC(w, w));
    if (w > 64) unsupported("fsh");
    E cat = mkConcat(hi, lo), s2 = mkZext(s, 2 * w);
    if (I->getIntrinsicID() == Intrinsic::fshl) retV(d, mkV(mkExtract(mk(SHL, 2 * w, cat, s2), w, w)));
    else retV(d, mkV(mkExtract(mk(LSHR, 2 * w, cat, s2), 0, w)));
    return;
  }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    unsigned n = d.ops[0].w;
    E a = A(0), b = A(1);
    E r, ov;
    auto id = I->getIntrinsicID();
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow;
    unsigned ww = mul ? 2 * n : n + 1;
    if (ww > 128) unsupported("wide overflow");
    E xa = sg ? mkSext(a, ww) : mkZext(a, ww), xb = sg ? mkSext(b, ww) : mkZext(b, ww);
    bool sub = id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow;
    Op o = mul ? MUL : sub ? SUB : ADD;
    r = mk(o, n, a, b);
    E wide = mk(o, ww, xa, xb);
    ov = mkNot(mkEq(wide, sg ? mkSext(r, ww) : mkZext(r, ww)));
    V v; v.agg = IP<Agg>(new Agg());
    v.agg->v.push_back(mkV(r));
    v.agg->v.push_back(mkV(ov));
    retV(d, v);
    return;
  }
  case Intrinsic::uadd_sat: { E a = A(0), b = A(1), r = mk(ADD, w, a, b); retV(d, mkV(mkIte(mk(ULT, 1, r, a), mkC(maskw(w), w), r))); return; }
  case Intrinsic::usub_sat: { E a = A(0), b = A(1); retV(d, mkV(mkIte(mk(ULT, 1, a, b), mkC(0, w), mk(SUB, w, a, b)))); return; }
  case Intrinsic::fabs: { retV(d, mkV(mk(AND, w, A(0), mkC(maskw(w - 1), w)))); return; }
  case Intrinsic::sqrt: retV(d, mkV(mk(FSQRT, w, A(0)))); return;
  case Intrinsic::floor: retV(d, mkV(mk(FRND, w, A(0), 0, 0, 0))); return;
  case Intrinsic::ceil: retV(d, mkV(mk(FRND, w, A(0), 0, 0, 1))); return;
  case Intrinsic::trunc: retV(d, mkV(mk(FRND, w, A(0), 0, 0, 2))); return;
  case Intrinsic::round: retV(d, mkV(mk(FRND, w, A(0), 0, 0, 3))); return;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: retV(d, mkV(mk(FRND, w, A(0), 0, 0, 4))); return;
  case Intrinsic::fmuladd: retV(d, mkV(mk(FADD, w, mk(FMUL, w, A(0), A(1)), A(2)))); return;
  case Intrinsic::copysign: { E a = A(0), b = A(1); retV(d, mkV(mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1)))); return; }
  case Intrinsic::is_fpclass: {
    u64 mask = val(d.ops[1]).c;
    unsigned n = d.ops[0].w;
    E x = A(0);
    unsigned mb = n == 32 ? 23 : 52, eb = n == 32 ? 8 : 11;
    E ex = mkExtract(x, mb, eb), ma = mkExtract(x, 0, mb), sg = mkExtract(x, n - 1, 1);
    E e1 = mkEq(ex, mkC(maskw(eb), eb)), m0 = mkEq(ma, mkC(0, mb)), e0 = mkEq(ex, mkC(0, eb));
    E nan = mkAnd(e1, mkNot(m0)), inf = mkAnd(e1, m0), zero = mkAnd(e0, m0), sub = mkAnd(e0, mkNot(m0)), nor = mkAnd(mkNot(e0), mkNot(e1));
    E r = mkC(0, 1);
    auto addc = [&](unsigned bit, E c) { if (mask & (1u << bit)) r = mkOr(r, c); };
    E qn = mkAnd(nan, mkExtract(x, mb - 1, 1)), sn = mkAnd(nan, mkNot(mkExtract(x, mb - 1, 1)));
    addc(0, sn); addc(1, qn); addc(2, mkAnd(inf, sg)); addc(3, mkAnd(nor, sg)); addc(4, mkAnd(sub, sg)); addc(5, mkAnd(zero, sg));
    addc(6, mkAnd(zero, mkNot(sg))); addc(7, mkAnd(sub, mkNot(sg))); addc(8, mkAnd(nor, mkNot(sg))); addc(9, mkAnd(inf, mkNot(sg)));
    retV(d, mkV(r));
    return;
  }
  default: unsupported("intrinsic " + I->getCalledFunction()->getName().str());
  }
}
