// P27: managing an event affects that event and no other.
// SOURCES: src/Xsmp/Simulator.cpp src/Xsmp/Services/XsmpScheduler.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// FLAGS: @fake
// ENTRY p27_standby quick=2 thorough=3 weight=3 --preempt=0
// ENTRY p27_inside weight=3 --preempt=0
// ENTRY p27_refused --preempt=0
// ENTRY p27_values --preempt=0
// ENTRY p27_persist --preempt=0
// ENTRY p27_persist_zulu --preempt=0
#include "schedlib.h"
using namespace sc;
using namespace Smp::Services;

namespace {
enum Op { RETIME, CYCLE, REPEAT, REMOVE, NOP_ };
enum Res { OK, BADID, BADCYCLE, BADTIME, OTHER };
template <class F> Res call(F &&f) {
  try { f(); return OK; }
  catch (const InvalidEventId &) { return BADID; }
  catch (const InvalidCycleTime &) { return BADCYCLE; }
  catch (const InvalidEventTime &) { return BADTIME; }
  catch (...) { return OTHER; }
}
struct W : World {
  using World::World;
  // A management call on event i of the reference (or an unknown one, i < 0), of a kind that may not be the event's.
  void manage(int op, int i, int kind, D v, D c) {
    const EId id = i < 0 ? (EId)(i == -1 ? 77 : i == -2 ? -1 : -2) : ev[(std::size_t)i].id;
    Ev *e = i < 0 || !ev[(std::size_t)i].alive ? nullptr : &ev[(std::size_t)i];
    Res r = OK, want = e ? OK : BADID;
    switch (op) {
    case RETIME: {
      const bool sim_ = kind == SIM;
      const D at = now() + v, o = own(kind, at);
      const int k = e && e->kind == IMM ? SIM : e ? e->kind : -1;
      if (want == OK && k != kind) want = BADID;
      r = call([&] {
        if (sim_) s->SetEventSimulationTime(id, v);
        else if (kind == MISSION) s->SetEventMissionTime(id, o);
        else if (kind == EPOCH) s->SetEventEpochTime(id, o);
        else s->SetEventZuluTime(id, v);
      });
      if (want == OK && kind != ZULU) {
        e->imm = false;
        if (v < 0) e->alive = e->queued = false;
        else { e->time = at; e->own = o; e->queued = true; }
      }
      break;
    }
    case CYCLE:
      if (want == OK && e->repeat != 0 && c <= 0) want = BADCYCLE;
      r = call([&] { s->SetEventCycleTime(id, c); });
      if (want == OK) e->cycle = c;
      break;
    case REPEAT:
      if (want == OK && v != 0 && e->cycle <= 0) want = BADCYCLE;
      r = call([&] { s->SetEventRepeat(id, v); });
      if (want == OK) e->repeat = v;
      break;
    case REMOVE:
      r = call([&] { s->RemoveEvent(id); });
      if (want == OK) e->alive = e->queued = e->imm = false;
      break;
    default: return;
    }
    sym_check(r == want, "a management call is accepted or refused as documented");
  }
};
}

// calls in Standby, then a run
ENTRY(p27_standby) {
  W w;
  const int n = (int)sym_bound(2);
  const int k0 = (int)sym_choose("kind 0", 4);
  w.add(k0, small("time 0", 2), 1, (I)small("repeat 0", 2) - 1);
  w.add(SIM, small("time 1", 2), 1, 1);
  for (int j = 0; j < n; j++) {
    const int op = (int)sym_choose("call", 4);
    const int i = (int)sym_choose("event", 2);
    D v = 0, c = 0;
    int kind = SIM;
    if (op == RETIME) { kind = i == 0 && (k0 == MISSION || k0 == EPOCH) ? k0 : SIM; v = small("new time", 3) - 1; }
    if (op == CYCLE) c = small("new cycle", 2);
    if (op == REPEAT) v = small("new repeat", 2) - 1;
    w.manage(op, i, kind, v, c);
  }
  w.checkNext();
  w.runFor(3);
  w.checkEnd();
  w.checkNext();
  // the identifiers of finished and removed events are refused, the others accepted
  for (int i = 0; i < 2; i++) w.manage(REMOVE, i, SIM, 0, 0);
  w.checkNext();
  sym_witness("ran");
}
// calls made by an event while it runs, about itself or another one
ENTRY(p27_inside) {
  W w;
  const int k0 = (int)sym_choose("kind 0", 4);
  w.add(k0, small("time 0", 2), 1, (I)small("repeat 0", 2) - 1);
  w.add(SIM, small("time 1", 2), 1, 1);
  bool did = false;
  const int who = (int)sym_choose("who", 2), on = (int)sym_choose("event", 2), op = (int)sym_choose("call", 4);
  const int again = (int)sym_choose("second call", 3);
  w.inside = [&](int i) {
    if (i != who || did) return;
    did = true;
    D v = 0, c = 0;
    int kind = SIM;
    if (op == RETIME) { kind = on == 0 && (k0 == MISSION || k0 == EPOCH) ? k0 : SIM; v = small("new time", 3) - 1; }
    if (op == CYCLE) c = small("new cycle", 2);
    if (op == REPEAT) v = small("new repeat", 2) - 1;
    w.manage(op, on, kind, v, c);
    if (again == 1) w.manage(REMOVE, on, SIM, 0, 0);
    if (again == 2) w.manage(REPEAT, on, SIM, 1, 0);
  };
  w.runFor(3);
  w.checkEnd();
  w.checkNext();
  if (did) sym_witness("managed");
}
// unknown identifiers and wrong kinds; nothing else changes
ENTRY(p27_refused) {
  W w;
  const int k0 = (int)sym_choose("kind 0", 5);
  const bool zulu = k0 == ZULU;
  w.add(k0, zulu ? D(1) << 60 : small("time 0", 2), 1, 1);
  w.add(SIM, small("time 1", 2));
  const int op = (int)sym_choose("call", 4), kind = SIM + (int)sym_choose("kind", 4);
  const int i = (int)sym_choose("event", 4) - 3;
  D v = op == RETIME ? (kind == ZULU ? D(1) << 61 : small("new time", 3) - 1) : 1;
  if (op == RETIME || i < 0) w.manage(op, i, kind, v, 1);
  w.checkNext();
  if (zulu) { w.manage(REMOVE, 0, ZULU, 0, 0); w.manage(REMOVE, 0, ZULU, 0, 0); w.manage(CYCLE, 0, ZULU, 0, 1); }
  w.runFor(3);
  w.checkEnd();
  sym_witness("ran");
}
// arbitrary times, cycles and repetitions: refused without effect or taken as they are
ENTRY(p27_values) {
  W w;
  w.tk->sim = (D)(sym_u64("now") >> 3);
  w.tk->epoch = (D)sym_u64("epoch offset") >> 3;
  w.tk->start = (D)sym_u64("mission start") >> 3;
  w.tk->far = false;
  const int kind = SIM + (int)sym_choose("kind", 4);
  const D d = (D)sym_u64("delay") >> 3, cycle = (D)sym_u64("cycle");
  const I repeat = (I)sym_u64("repeat");
  const D zulu = w.tk->GetZuluTime();
  const D at = kind == ZULU ? zulu + d : w.now() + d, o = kind == ZULU ? at : w.own(kind, at);
  EId id = -1;
  const auto *p = w.ep(0);
  const Res r = call([&] {
    id = kind == SIM ? w.s->AddSimulationTimeEvent(p, d, cycle, repeat) : kind == MISSION ? w.s->AddMissionTimeEvent(p, o, cycle, repeat) : kind == EPOCH ? w.s->AddEpochTimeEvent(p, o, cycle, repeat) : w.s->AddZuluTimeEvent(p, o, cycle, repeat);
  });
  sym_check(r == (d < 0 ? BADTIME : repeat != 0 && cycle <= 0 ? BADCYCLE : OK), "times in the past and cycles that are not positive are refused");
  const D M = std::numeric_limits<D>::max();
  sym_check(w.s->GetNextScheduledEventTime() == (r == OK && kind != ZULU ? at : M), "the event is scheduled at its time");
  if (r != OK) { sym_witness("refused"); return; }
  const D c2 = (D)sym_u64("new cycle");
  const I r2 = (I)sym_u64("new repeat");
  if (sym_choose("set", 2)) sym_check(call([&] { w.s->SetEventCycleTime(id, c2); }) == (repeat != 0 && c2 <= 0 ? BADCYCLE : OK), "a cyclic event needs a positive cycle");
  else sym_check(call([&] { w.s->SetEventRepeat(id, r2); }) == (r2 != 0 && cycle <= 0 ? BADCYCLE : OK), "repetition needs a positive cycle");
  if (kind == ZULU) { sym_check(call([&] { w.s->RemoveEvent(id); }) == OK, "removed"); sym_witness("zulu"); return; }
  const D d2 = (D)sym_u64("new delay") >> 3;
  const D at2 = w.now() + d2, o2 = w.own(kind, at2);
  sym_check(call([&] { if (kind == SIM) w.s->SetEventSimulationTime(id, d2); else if (kind == MISSION) w.s->SetEventMissionTime(id, o2); else w.s->SetEventEpochTime(id, o2); }) == OK, "retimed");
  sym_check(w.s->GetNextScheduledEventTime() == (d2 < 0 ? M : at2), "retimed to its new time, or removed when that has passed");
  sym_check(call([&] { w.s->RemoveEvent(id); }) == (d2 < 0 ? BADID : OK), "an event that was removed is unknown");
  sym_check(w.s->GetNextScheduledEventTime() == M, "nothing is left");
  sym_witness("accepted");
}
// What the scheduler holds when it is stored is what it does after it is restored.
#include <Xsmp/Helper.h>
#include <cstring>
namespace {
struct Paths : Resolver {
  using Resolver::Resolver;
  World *w = nullptr;
  Smp::IObject *ResolveAbsolute(Smp::String8 p) override {
    for (auto *e : w->eps) if (p && p[0] == '/' && strcmp(p + 1, e->GetName()) == 0) return e;
    return p && p[0] == '/' ? ::Xsmp::Helper::Resolve(&w->sim, p) : nullptr;
  }
};
}
ENTRY(p27_persist) {
  W w(false);
  auto *r = new Paths("r", "", &w.sim, &w.sim);
  r->w = &w;
  w.sim.AddService(r);
  w.sim.Connect();
  const int k0 = (int)sym_choose("kind 0", 4);
  w.add(k0, small("time 0", 2), 1, (I)small("repeat 0", 2) - 1);
  w.add(SIM, small("time 1", 2), 1, 1);
  if (sym_choose("ran before", 2)) { w.runFor(1); w.checkEnd(); }
  const D now = w.now();
  const std::vector<Ev> was = w.ev;
  const std::vector<D> held = w.holds;
  w.sim.Store("dir");
  const int what = (int)sym_choose("meanwhile", 4);
  switch (what) {
  case 0: w.runFor(3); w.checkEnd(); break;
  case 1: w.manage(REMOVE, 0, SIM, 0, 0); w.add(SIM, 1, 1, 1); break;
  case 2: w.manage(RETIME, 1, SIM, 2, 0); w.add(IMM, 0); break;
  default: break;
  }
  w.sim.Restore("dir");
  w.ev = was;
  w.holds = held;
  w.tk->sim = now;
  sym_check(w.sim.GetState() == SS::SSK_Standby, "back in Standby");
  w.checkNext();
  w.add(SIM, 1);
  w.runFor(3);
  w.checkEnd();
  w.checkNext();
  sym_witness("ran");
}
// and the same of zulu events
ENTRY(p27_persist_zulu) {
  W w(false);
  auto *r = new Paths("r", "", &w.sim, &w.sim);
  r->w = &w;
  w.sim.AddService(r);
  w.sim.Connect();
  const D far = D(1) << 60;
  w.add(ZULU, far + small("time", 2), 1, 1);
  const int i = (int)sym_choose("removed", 2);
  w.sim.Store("dir");
  if (i) w.manage(REMOVE, 0, ZULU, 0, 0); else w.add(ZULU, far);
  w.sim.Restore("dir");
  if (!i) sym_check(call([&] { w.s->RemoveEvent(w.ev[1].id); }) == BADID, "an event added later is gone");
  w.track = false;
  w.ev.resize(1);
  w.ev[0].alive = true;
  w.s->SetEventRepeat(w.ev[0].id, 0);
  Gate g;
  w.inside = [&](int) { g.hit(); };
  w.s->SetEventZuluTime(w.ev[0].id, w.tk->GetZuluTime() + (D(1) << 42));
  g.wait(1);
  w.sim.Exit();
  sym_check(w.ran[0] == 1, "a restored zulu event runs once");
  sym_witness("ran");
}
