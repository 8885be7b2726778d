// P05: guarded data.
// ENTRY p05_two quick=2 thorough=3 weight=5 --races
// ENTRY p05_three quick=1 thorough=2 weight=9 --races
// ENTRY p05_pairs quick=0 thorough=0 weight=5 --races
// ENTRY p05_handles quick=4 thorough=5 weight=5
// ENTRY p05_construct
#include "hlib.h"
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include "Xsmp/ThreadSafeData.h"
using Xsmp::ThreadSafeData;

namespace {
struct Data { unsigned a = 0, b = 0; };
typedef ThreadSafeData<Data> G;

void mutate(Data &d) {
  d.a++;
  sym_yield(); // any other thread may run here
  d.b++;
  sym_check(d.a == d.b, "nobody else changes the data while it is being written");
}
unsigned look(const Data &d) {
  unsigned x = d.a;
  sym_yield();
  unsigned y = d.b;
  sym_check(x == y, "a reader never sees a change in progress");
  return x;
}
// one operation of a thread; returns the number of writes done
unsigned act(G &g, unsigned op) {
  switch (op) {
  case 0: { auto r = g.read(); look(r.get()); return 0; }
  case 1: { auto w = g.write(); mutate(w.get()); return 1; }
  case 2: { auto r = g.try_read(); if (r) { look(r->get()); } return 0; }
  case 3: { auto w = g.try_write(); if (w) { mutate(w->get()); return 1; } return 0; }
  case 4: { // release early, take again
    auto r = g.read();
    unsigned x = look(r.get());
    r.unlock();
    r.lock();
    sym_check(look(r.get()) >= x, "writes are not lost");
    return 0;
  }
  case 5: {
    auto w = g.write();
    mutate(w.get());
    w.unlock();
    w.lock();
    mutate(w.get());
    return 2;
  }
  case 6: { // the handle is moved and released elsewhere
    auto w = g.write();
    auto v = std::move(w);
    mutate(v.get());
    v.unlock();
    return 1;
  }
  default: { // read handle released early, nothing held at the end
    auto r = g.read();
    auto q = std::move(r);
    look(q.get());
    q.unlock();
    return 0;
  }
  }
}
void run(unsigned threads, unsigned steps, unsigned nops) {
  G g;
  unsigned writes[3] = {0, 0, 0}, ops[3][4];
  for (unsigned t = 0; t < threads; t++)
    for (unsigned k = 0; k < steps; k++) ops[t][k] = (unsigned)sym_choose("op", nops);
  {
    auto body = [&](unsigned t) { for (unsigned k = 0; k < steps; k++) writes[t] += act(g, ops[t][k]); };
    std::thread t1(body, 0u), t2(body, 1u);
    if (threads == 3) { std::thread t3(body, 2u); t3.join(); }
    t1.join();
    t2.join();
  }
  auto w = g.try_write();
  sym_check(w.has_value(), "every handle was released");
  sym_check(w->get().a == writes[0] + writes[1] + writes[2] && w->get().b == w->get().a, "every write is kept");
  sym_observe("a", w->get().a);
}
}

// Two threads with one operation each: every pair of operations, every schedule.
ENTRY(p05_pairs) { run(2, 1, 8); }
// Two threads with several operations each.
ENTRY(p05_two) { run(2, (unsigned)sym_bound(2), 4); }
ENTRY(p05_three) { run(3, (unsigned)sym_bound(1), 4); }

// One thread: which handles can be taken, given which are held.
ENTRY(p05_handles) {
  G g;
  const G &c = g;
  struct Slot { std::optional<G::ReadLock> r; std::optional<G::WriteLock> w; bool held = false; } s[2];
  unsigned steps = (unsigned)sym_bound(4), writes = 0;
  for (unsigned k = 0; k < steps; k++) {
    unsigned readers = 0, writers = 0;
    for (auto &x : s) { readers += x.r && x.held; writers += x.w && x.held; }
    Slot &x = s[sym_choose("slot", 2)];
    bool vacant = !x.r && !x.w;
    switch (sym_choose("op", 8)) {
    case 0: // take a read handle
      if (!vacant || writers) break;
      x.r.emplace(c.read()); x.held = true;
      break;
    case 1: if (!vacant || writers || readers) break; x.w.emplace(g.write()); x.held = true; break;
    case 2: {
      if (!vacant) break;
      auto h = c.try_read();
      sym_check(h.has_value() == (writers == 0), "a read handle is given exactly when nobody writes");
      if (h) { x.r.emplace(std::move(*h)); x.held = true; if (readers) sym_witness("two readers"); }
      break;
    }
    case 3: {
      if (!vacant) break;
      auto h = g.try_write();
      sym_check(h.has_value() == (writers == 0 && readers == 0), "a write handle is given exactly when nobody reads or writes");
      if (h) { x.w.emplace(std::move(*h)); x.held = true; }
      break;
    }
    case 4: // release early
      if (!x.held) break;
      if (x.r) x.r->unlock(); else x.w->unlock();
      x.held = false;
      break;
    case 5: // take again
      if (vacant || x.held) break;
      if (x.r) { if (writers) break; x.r->lock(); } else { if (writers || readers) break; x.w->lock(); }
      x.held = true;
      sym_witness("taken again");
      break;
    case 6: x.r.reset(); x.w.reset(); x.held = false; break;
    default:
      if (!x.held) break;
      if (x.w) { x.w->get().a++; writes++; }
      else sym_check(x.r->get().a == writes, "a reader sees every write");
      break;
    }
  }
  for (auto &x : s) { x.r.reset(); x.w.reset(); }
  auto h = g.try_write();
  sym_check(h.has_value(), "every handle was released once");
  sym_check(h->get().a == writes, "every write is kept");
  h.reset();
  sym_check(c.read().get().a == writes, "every write is kept");
}

ENTRY(p05_construct) {
  unsigned x = sym_u32("x"), y = sym_u32("y");
  struct P { unsigned a, b; P(unsigned a, unsigned b) : a(a), b(b) {} };
  ThreadSafeData<P> g(x, y);
  auto r = g.read();
  sym_check(r.get().a == x && r.get().b == y, "constructed from the arguments");
  ThreadSafeData<std::string> t("text");
  sym_check(t.read().get() == "text", "constructed from the argument");
}
