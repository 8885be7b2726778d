// Replays one counterexample (or one explored path) of the symbolic run on the natively compiled code.
//   replay ENTRY FILE      FILE: lines "in HEX name", "sched t t ...", "obs HEX name"
// exit 0: finished without a failure; 1: failure reproduced (message on stderr); 77: the run does not follow the recorded one.
#include "sym.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <map>
#include <set>
#include <chrono>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
#endif
#endif
static inline void hbAcq(void *p) {
#ifdef TSAN
  __tsan_acquire(p);
#endif
}
static inline void hbRel(void *p) {
#ifdef TSAN
  __tsan_release(p);
#endif
}

struct In { unsigned long long lo; std::string name; };
static std::vector<In> g_in;
static size_t g_pos = 0;
static std::vector<int> g_sched;
static size_t g_spos = 0;

static void die(int rc, const char *fmt, const char *a, const char *b = "") {
  fprintf(stderr, fmt, a, b);
  fprintf(stderr, "\n");
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
static unsigned long long take(const char *name) {
  if (g_pos >= g_in.size()) return 0; // inputs after the recorded failure
  if (g_in[g_pos].name != name) die(77, "REPLAY-DIVERGED expected input %s, recorded %s", name, g_in[g_pos].name.c_str());
  return g_in[g_pos++].lo;
}
extern "C" {
uint64_t sym_u64(const char *n) { return take(n); }
uint32_t sym_u32(const char *n) { return take(n); }
uint16_t sym_u16(const char *n) { return take(n); }
uint8_t sym_u8(const char *n) { return take(n); }
bool sym_bool(const char *n) { return take(n) & 1; }
uint64_t sym_range(const char *n, uint64_t lo, uint64_t) { bool over = g_pos >= g_in.size(); uint64_t v = take(n); return over ? lo : v; }
int64_t sym_srange(const char *n, int64_t lo, int64_t) { bool over = g_pos >= g_in.size(); int64_t v = (int64_t)take(n); return over ? lo : v; }
uint64_t sym_choose(const char *n, uint64_t) { return take(n); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(bool c) { if (!c) die(78, "REPLAY-ASSUME%s", ""); }
void sym_check(bool c, const char *m) { if (!c) die(1, "REPLAY-FAIL %s", m); }
void sym_fail(const char *m) { die(1, "REPLAY-FAIL %s", m); abort(); }
void sym_witness(const char *) {}
void sym_observe(const char *n, uint64_t v) { printf("obs %llx %s\n", (unsigned long long)v, n); }
uint64_t sym_bound(uint64_t def) { const char *e = getenv("SYM_BOUND"); return e && atoi(e) ? atoi(e) : def; }
bool sym_is_symbolic() { return false; }
void sym_print(const char *n, uint64_t v) { fprintf(stderr, "PRINT %s %llx\n", n, (unsigned long long)v); }
void sym_end() { fflush(stdout); _exit(0); }
void sym_bytes(void *p, uint64_t n, const char *name) {
  for (uint64_t i = 0; i < n; i++) ((unsigned char *)p)[i] = take((std::string(name) + "[" + std::to_string(i) + "]").c_str());
}
void sym_undef(void *p, uint64_t n) { memset(p, 0xA5, n); }
}

// ---- allocation
static uint64_t g_failNew = 0;
static bool g_leakOn = false;
static bool g_inTrack = false;
static const int MAXT = 1 << 16;
static void *g_live[MAXT];
static int g_nlive = 0;
static void track(void *p) { if (g_leakOn && g_nlive < MAXT) g_live[g_nlive++] = p; }
static void untrack(void *p) { for (int i = g_nlive; i-- > 0;) if (g_live[i] == p) { g_live[i] = g_live[--g_nlive]; return; } }
static bool allocFails(size_t n) {
  if (n > (1ull << 26)) return true;
  if (g_failNew && --g_failNew == 0) return true;
  return false;
}
extern "C" {
void sym_fail_new(uint64_t k) { g_failNew = k; }
void sym_leak_begin() { g_nlive = 0; g_leakOn = true; }
void sym_leak_end() { if (g_nlive) die(1, "REPLAY-FAIL %s", "allocated memory is never released"); }
uint64_t sym_live_blocks() { return g_nlive; }
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
void __real__ZdlPv(void *);
void __real__ZdlPvm(void *, size_t);
void __real__ZdaPv(void *);
void __real__ZdaPvm(void *, size_t);
static void *fillp(void *p, size_t n) { if (p) memset(p, 0xA5, n); return p; }
#ifdef PLAIN
#define FILL(p, n) (p)
#else
#define FILL(p, n) fillp(p, n)
#endif
void *__wrap__Znwm(size_t n) { if (allocFails(n)) throw std::bad_alloc(); void *p = FILL(__real__Znwm(n), n); track(p); return p; }
void *__wrap__Znam(size_t n) { if (allocFails(n)) throw std::bad_alloc(); void *p = FILL(__real__Znam(n), n); track(p); return p; }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (allocFails(n)) return nullptr; void *p = FILL(__real__ZnwmRKSt9nothrow_t(n, t), n); track(p); return p; }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (allocFails(n)) return nullptr; void *p = FILL(__real__ZnamRKSt9nothrow_t(n, t), n); track(p); return p; }
void __wrap__ZdlPv(void *p) { untrack(p); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { untrack(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPv(void *p) { untrack(p); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void *p, size_t n) { untrack(p); __real__ZdaPvm(p, n); }
}

// ---- threads: one runs at a time, in the recorded order
namespace {
enum { WK_MUTEX = 1, WK_RW, WK_COND, WK_JOIN };
struct T { int status = 0, kind = 0; void *addr = nullptr; bool joined = false; pthread_t h{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; };
T g_t[4];
int g_n = 1;
volatile int g_cur = 0;
thread_local int t_me = 0;
struct Mtx { int owner = -1, count = 0; int readers[4] = {0, 0, 0, 0}; };
std::map<void *, Mtx> &mtx() { static auto *m = new std::map<void *, Mtx>; return *m; }
std::map<void *, std::vector<int>> &conds() { static auto *m = new std::map<void *, std::vector<int>>; return *m; }

__attribute__((no_sanitize("thread"))) void waitTurn() {
  while (true) {
    int c;
    __asm__ volatile("movl %1, %0" : "=r"(c) : "m"(g_cur) : "memory");
    if (c == t_me) return;
    sched_yield();
  }
}
__attribute__((no_sanitize("thread"))) void handTo(int n) {
  __asm__ volatile("movl %1, %0" : "=m"(g_cur) : "r"(n) : "memory");
}
bool enabled(int t) { return g_t[t].status == 0; }
int pick(bool selfOk) {
  bool any = selfOk;
  for (int t = 0; t < g_n; t++) if (t != t_me && enabled(t)) any = true;
  if (!any) {
    bool fin = true;
    for (int t = 0; t < g_n; t++) if (g_t[t].status != 2) fin = false;
    if (fin) return t_me;
    die(1, "REPLAY-FAIL %s", "deadlock: all remaining threads are blocked");
  }
  if (g_spos < g_sched.size()) {
    int n = g_sched[g_spos++];
    if (n >= g_n || (n != t_me && !enabled(n)) || (n == t_me && !selfOk)) die(77, "REPLAY-DIVERGED%s", " schedule");
    return n;
  }
  if (selfOk) return t_me;
  for (int t = 0; t < g_n; t++) if (enabled(t)) return t;
  return t_me;
}
void visible() {
  if (g_n == 1) return;
  bool other = false;
  for (int t = 0; t < g_n; t++) if (t != t_me && enabled(t)) other = true;
  if (!other) return;
  int n = pick(true);
  if (n != t_me) { handTo(n); waitTurn(); }
}
void blockOn(int k, void *a) {
  g_t[t_me].status = 1; g_t[t_me].kind = k; g_t[t_me].addr = a;
  int n = pick(false);
  if (n != t_me) { handTo(n); waitTurn(); }
}
void wake(int k, void *a) { for (int t = 0; t < g_n; t++) if (g_t[t].status == 1 && g_t[t].kind == k && g_t[t].addr == a) g_t[t].status = 0; }
bool recursive(void *m) { return ((pthread_mutex_t *)m)->__data.__kind == 1; }
bool mtake(void *m) {
  Mtx &x = mtx()[m];
  if (x.owner == -1) { x.owner = t_me; x.count = 1; hbAcq(m); return true; }
  if (x.owner == t_me) {
    if (recursive(m)) { x.count++; return true; }
    die(1, "REPLAY-FAIL %s", "deadlock: a thread locks a mutex it already holds");
  }
  return false;
}
void mrelease(void *m) {
  Mtx &x = mtx()[m];
  if (x.owner != t_me) die(1, "REPLAY-FAIL %s", "unlock of a mutex the thread does not hold");
  if (--x.count == 0) { x.owner = -1; hbRel(m); wake(WK_MUTEX, m); }
}
bool anyReader(Mtx &x) { for (int r : x.readers) if (r) return true; return false; }
void *tramp(void *p) {
  int id = (int)(long)p;
  t_me = id;
  waitTurn();
  hbAcq(&g_t[id].h);
  void *r = g_t[id].fn(g_t[id].arg);
  hbRel(&g_t[id]);
  g_t[id].status = 2;
  wake(WK_JOIN, &g_t[id]);
  int n = pick(false);
  if (n != t_me) handTo(n);
  return r;
}
int tcreate(pthread_t *out, void *(*fn)(void *), void *arg) {
  if (g_n >= 4) die(77, "REPLAY too many threads%s", "");
  int id = g_n++;
  g_t[id].fn = fn; g_t[id].arg = arg;
  hbRel(&g_t[id].h);
  pthread_t h;
  pthread_create(&h, nullptr, tramp, (void *)(long)id);
  pthread_detach(h);
  *out = id + 1;
  return 0;
}
int tjoin(unsigned long t) {
  if (t == 0 || t > (unsigned long)g_n) die(1, "REPLAY-FAIL %s", "join of an invalid thread");
  --t;
  if ((int)t == t_me) return 35;
  if (g_t[t].joined) die(1, "REPLAY-FAIL %s", "join of a thread already joined");
  while (g_t[t].status != 2) blockOn(WK_JOIN, &g_t[t]);
  g_t[t].joined = true;
  hbAcq(&g_t[t]);
  return 0;
}
long long g_clock = 1000000000ll;
int cwait(void *c, void *m, const timespec *ts) {
  bool timed = ts != nullptr;
  visible();
  if (mtx()[m].owner != t_me) die(1, "REPLAY-FAIL %s", "wait with a mutex the thread does not hold");
  bool to = false;
  if (timed) to = take("timeout") & 1;
  mrelease(m);
  if (to) { long long dl = ts->tv_sec * 1000000000ll + ts->tv_nsec; if (g_clock < dl) g_clock = dl; visible(); }
  else {
    conds()[c].push_back(t_me);
    blockOn(WK_COND, c);
    auto &w = conds()[c];
    for (size_t i = 0; i < w.size(); i++) if (w[i] == t_me) { w.erase(w.begin() + i); break; }
  }
  while (!mtake(m)) blockOn(WK_MUTEX, m);
  return to ? 110 : 0;
}
}
extern "C" {
void sym_yield() { visible(); }
int __wrap_pthread_mutex_lock(void *m) { visible(); while (!mtake(m)) blockOn(WK_MUTEX, m); return 0; }
int __wrap_pthread_mutex_trylock(void *m) { visible(); Mtx &x = mtx()[m]; if (x.owner == t_me && !recursive(m)) return 16; return mtake(m) ? 0 : 16; }
int __wrap_pthread_mutex_unlock(void *m) { mrelease(m); return 0; }
int __wrap_pthread_mutex_destroy(void *m) { if (mtx()[m].owner != -1) die(1, "REPLAY-FAIL %s", "destruction of a locked mutex"); mtx().erase(m); return 0; }
int __wrap_pthread_rwlock_rdlock(void *m) {
  visible();
  while (true) { Mtx &x = mtx()[m]; if (x.owner == t_me) return 35; if (x.owner == -1) break; blockOn(WK_RW, m); }
  mtx()[m].readers[t_me]++; hbAcq(m); return 0;
}
int __wrap_pthread_rwlock_tryrdlock(void *m) { visible(); Mtx &x = mtx()[m]; if (x.owner != -1) return 16; x.readers[t_me]++; hbAcq(m); return 0; }
int __wrap_pthread_rwlock_wrlock(void *m) {
  visible();
  while (true) { Mtx &x = mtx()[m]; if (x.owner == t_me) return 35; if (x.owner == -1 && !anyReader(x)) break; blockOn(WK_RW, m); }
  mtx()[m].owner = t_me; hbAcq(m); return 0;
}
int __wrap_pthread_rwlock_trywrlock(void *m) { visible(); Mtx &x = mtx()[m]; if (x.owner != -1 || anyReader(x)) return 16; x.owner = t_me; hbAcq(m); return 0; }
int __wrap_pthread_rwlock_unlock(void *m) {
  Mtx &x = mtx()[m];
  if (x.owner == t_me) x.owner = -1;
  else if (x.readers[t_me]) x.readers[t_me]--;
  else die(1, "REPLAY-FAIL %s", "release of a lock the thread does not hold");
  hbRel(m); wake(WK_RW, m); return 0;
}
int __wrap_pthread_rwlock_destroy(void *m) { Mtx &x = mtx()[m]; if (x.owner != -1 || anyReader(x)) die(1, "REPLAY-FAIL %s", "destruction of a held lock"); mtx().erase(m); return 0; }
int __wrap_pthread_cond_wait(void *c, void *m) { return cwait(c, m, nullptr); }
int __wrap_pthread_cond_timedwait(void *c, void *m, const timespec *t) { return cwait(c, m, t); }
int __wrap_pthread_cond_clockwait(void *c, void *m, int, const timespec *t) { return cwait(c, m, t); }
static int csignal(void *c) { auto &w = conds()[c]; if (!w.empty()) { size_t i = w.size() > 1 ? take("waiter") : 0; if (i >= w.size()) i = 0; g_t[w[i]].status = 0; w.erase(w.begin() + i); } return 0; }
static int cbroadcast(void *c) { for (int t : conds()[c]) g_t[t].status = 0; conds()[c].clear(); return 0; }
int __wrap_pthread_cond_signal(void *c) { return csignal(c); }
int __wrap_pthread_cond_broadcast(void *c) { return cbroadcast(c); }
int __wrap_pthread_cond_destroy(void *c) { conds().erase(c); return 0; }
int __wrap_sched_yield() { visible(); return 0; }
int __wrap_nanosleep(const void *, void *) { visible(); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, std::unique_lock<std::mutex> *l) { cwait(c, l->mutex()->native_handle(), nullptr); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) { csignal(c); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) { cbroadcast(c); }
static void *stdMain(void *p) { std::unique_ptr<std::thread::_State> s((std::thread::_State *)p); s->_M_run(); return nullptr; }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread *t, std::unique_ptr<std::thread::_State> *s, void (*)()) {
  pthread_t h;
  tcreate(&h, stdMain, s->get());
  *(pthread_t *)t = h;
  s->release();
}
void __wrap__ZNSt6thread4joinEv(std::thread *t) { tjoin(*(pthread_t *)t); *(pthread_t *)t = 0; }
void __wrap__ZNSt6thread6detachEv(std::thread *t) { *(pthread_t *)t = 0; }
pthread_t __wrap_pthread_self() { return (pthread_t)(t_me + 1); }
std::chrono::nanoseconds __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return std::chrono::nanoseconds(g_clock); }
std::chrono::nanoseconds __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return std::chrono::nanoseconds(g_clock); }
}

int main(int argc, char **argv) {
  if (argc < 3) return 76;
  FILE *f = fopen(argv[2], "r");
  if (!f) return 76;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "in ", 3)) {
      char *e;
      unsigned long long v = strtoull(line + 3, &e, 16);
      g_in.push_back({v, *e == ' ' ? e + 1 : e});
    } else if (!strncmp(line, "sched", 5)) {
      char *p = line + 5;
      while (*p) { char *e; long v = strtol(p, &e, 10); if (e == p) break; g_sched.push_back((int)v); p = e; }
    }
  }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 76; }
  fn();
  fflush(stdout);
  _exit(0);
}
