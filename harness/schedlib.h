// A real Simulator and a real XsmpScheduler with recording services around them, and the reference
// meaning of the schedule.
#ifndef SCHEDLIB_H
#define SCHEDLIB_H
#include "simlib.h"
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <chrono>
#include <condition_variable>
#include <limits>
#include <mutex>
#include <stdexcept>
namespace sc {
using namespace sl;
using D = Smp::Duration;
using I = Smp::Int64;
enum Kind { IMM, SIM, MISSION, EPOCH, ZULU };
struct Clock : Times {
  using Times::Times;
  mutable std::atomic<D> z{0};
  bool far = true;      // wall clock far ahead: a run never waits
  bool changing = false;
  D GetZuluTime() const override {
    if (far) return z += D(1) << 40;
    return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  void SetSimulationTime(D t) override {
    sym_check(changing, "simulation time changes between PreSimTimeChange and PostSimTimeChange");
    sym_check(t >= sim, "simulation time does not go backwards");
    sim = t;
  }
};
// small unsigned value as a Duration
inline D small(const char *n, unsigned hi) { unsigned char c = sym_u8(n); sym_assume(c <= hi); return (D)c; }
struct Gate { // the main thread waits for the zulu events to have run
  std::mutex m;
  std::condition_variable c;
  int n = 0;
  void hit() { { std::scoped_lock l(m); n++; } c.notify_all(); }
  void wait(int k) { std::unique_lock l(m); c.wait(l, [&] { return n >= k; }); }
};
struct Ev {
  int kind;
  D time, own, cycle;
  I repeat;
  EId id;
  bool alive = true, queued = true, imm = false, imm0 = false;
  int runs = 0;
};
struct World {
  Xsmp::Simulator sim{"sim", ""};
  Events *em;
  Clock *tk;
  Logger *lg;
  Xsmp::Services::XsmpScheduler *s;
  std::vector<Ev> ev;
  std::vector<Xsmp::EntryPoint *> eps;
  std::function<void(int)> inside;
  std::function<void(EId)> handler;
  D holdAt = -1;      // time at which the run ends
  std::vector<D> holds;
  bool ended = false; // a hold was executed: nothing more runs
  int total = 0, current = -1;
  bool track = true;
  int ran[8] = {0, 0, 0, 0, 0, 0, 0, 0};

  explicit World(bool connect = true, bool logger = true) {
    lg = logger ? new Logger("lg", "", &sim, nullptr) : nullptr;
    em = new Events("em", "", &sim, nullptr);
    tk = new Clock("tk", "", &sim, nullptr);
    s = new Xsmp::Services::XsmpScheduler("s", "", &sim, &sim);
    em->hook = [this](EId e) {
      if (e == EM::SMP_PreSimTimeChangeId) tk->changing = true;
      if (e == EM::SMP_PostSimTimeChangeId) tk->changing = false;
      if (handler) handler(e);
    };
    if (lg) sim.AddService(lg);
    sim.AddService(em);
    sim.AddService(tk);
    sim.AddService(s);
    s->SetTargetSpeed(1.0);
    if (connect) sim.Connect();
  }
  ~World() { for (auto *e : eps) delete e; }

  const Smp::IEntryPoint *ep(int i) {
    while ((int)eps.size() <= i) {
      int k = (int)eps.size();
      eps.reserve(8);
      eps.push_back(new Xsmp::EntryPoint(k == 0 ? "e0" : k == 1 ? "e1" : k == 2 ? "e2" : k == 3 ? "e3" : "e4", "", &sim, [this, k] { run(k); }));
    }
    return eps[(std::size_t)i];
  }
  // time of another kind, at the current simulation time
  D own(int kind, D at) const { return kind == MISSION ? at + tk->epoch - tk->start : kind == EPOCH ? at + tk->epoch : at; }
  D now() const { return tk->sim; }

  // Adds an event in d from now; returns its index.
  int add(int kind, D d, D cycle = 0, I repeat = 0) {
    const int i = (int)ev.size();
    const auto *p = ep(i);
    EId id = -1;
    const D at = now() + d, o = own(kind, at);
    switch (kind) {
    case IMM: id = s->AddImmediateEvent(p); cycle = 0; repeat = 0; break;
    case SIM: id = s->AddSimulationTimeEvent(p, d, cycle, repeat); break;
    case MISSION: id = s->AddMissionTimeEvent(p, o, cycle, repeat); break;
    case EPOCH: id = s->AddEpochTimeEvent(p, o, cycle, repeat); break;
    default: id = s->AddZuluTimeEvent(p, d, cycle, repeat); break;
    }
    for (auto &e : ev) sym_check(e.id != id, "a new event has a new identifier");
    Ev e{kind, kind == IMM ? now() : at, o, cycle, repeat, id};
    e.imm = e.imm0 = kind == IMM;
    ev.push_back(e);
    return i;
  }
  // ---- the reference schedule
  int pick() const {
    int best = -1;
    for (std::size_t i = 0; i < ev.size(); i++) if (ev[i].queued && ev[i].imm) return (int)i;
    for (std::size_t i = 0; i < ev.size(); i++) {
      if (!ev[i].queued || ev[i].kind == ZULU) continue;
      if (best < 0 || ev[i].time < ev[(std::size_t)best].time) best = (int)i;
    }
    return best;
  }
  bool skipped(const Ev &e) const {
    if (e.kind == MISSION) return e.own < e.time + tk->epoch - tk->start;
    if (e.kind == EPOCH) return e.own < e.time + tk->epoch;
    return false;
  }
  void done(Ev &e) { // after an execution
    if (!e.alive) return;
    if (e.repeat == 0) { if (!e.queued) e.alive = false; return; }
    if (e.repeat > 0) e.repeat--;
    if (!e.queued) { e.time += e.cycle; e.own += e.cycle; e.queued = true; }
  }
  // drops the events that are skipped because their mission or epoch time has passed
  int next(D upto) {
    for (;;) {
      int i = pick();
      if (i < 0) return -1;
      Ev &e = ev[(std::size_t)i];
      if (!e.imm && e.time > upto) return -1;
      if (e.imm || !skipped(e)) return i;
      e.queued = false;
      done(e);
    }
  }
  void run(int k) {
    total++;
    sym_check(total < 40, "the run comes to an end");
    if (!track) { ran[k]++; if (inside) inside(k); return; }
    sym_check(sim.GetState() == SS::SSK_Executing, "events run in Executing");
    sym_check(!ended, "no event runs after the simulation is held or aborted");
    const int i = next(now());
    sym_check(i == k, "the event that runs is the first one posted among those due");
    Ev *e = &ev[(std::size_t)k];
    if (!e->imm) sym_check(e->time == now(), "an event runs at its own time");
    sym_check(s->GetCurrentEventId() == e->id, "the current event is the one that runs");
    e->queued = e->imm = false;
    e->runs++;
    current = k;
    if (inside) inside(k);
    current = -1;
    done(ev[(std::size_t)k]);
  }
  void runFor(D d) {
    // a run that was cut short leaves its hold behind
    holds.push_back(now() + d);
    std::size_t k = 0;
    for (std::size_t i = 1; i < holds.size(); i++) if (holds[i] < holds[k]) k = i;
    holdAt = holds[k];
    ended = false;
    sim.Run(d);
    if (!ended) for (std::size_t i = holds.size(); i-- > 0;) if (holds[i] <= now()) holds.erase(holds.begin() + (long)i);
  }
  // after a run that was not cut short
  void checkEnd() {
    sym_check(sim.GetState() == SS::SSK_Standby, "the run ends in Standby");
    sym_check(now() == holdAt, "the run stops at the requested time");
    sym_check(next(now()) < 0, "no due event is left out");
    checkIdle();
  }
  void checkIdle() {
    sym_check(s->GetCurrentEventId() == -1, "no event is current outside execution");
  }
  void checkNext() {
    D want = std::numeric_limits<D>::max();
    for (auto &e : ev) if (e.queued && !e.imm && e.kind != ZULU && e.time < want) want = e.time;
    for (D h : holds) if (h < want) want = h;
    sym_check(s->GetNextScheduledEventTime() == want, "the time of the next event");
  }
};
}
#endif
