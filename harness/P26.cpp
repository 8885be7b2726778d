// P26: every event runs at its time, in order, the right number of times.
// SOURCES: src/Xsmp/Simulator.cpp src/Xsmp/Services/XsmpScheduler.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// FLAGS: @fake
// ENTRY p26_three quick=3 thorough=3 --preempt=0
// ENTRY p26_kinds quick=2 thorough=2 --preempt=0
// ENTRY p26_added --preempt=0
// ENTRY p26_hold --preempt=0
// ENTRY p26_skip --preempt=0
// ENTRY p26_nologger --preempt=0
// ENTRY p26_zulu --preempt=1
// ENTRY p26_both --preempt=1 --races
// ENTRY p26_wait --preempt=1
#include "schedlib.h"
using namespace sc;

// simulation time events: any order, equal times, cycles, repetitions
ENTRY(p26_three) {
  World w;
  const int n = (int)sym_bound(3);
  const char *tn[] = {"time 0", "time 1", "time 2", "time 3"};
  for (int i = 0; i < n; i++) w.add(SIM, small(tn[i], 5), i == 0 ? small("cycle", 2) + 1 : 1, i == 0 ? (I)small("repeat", 3) - 1 : 0);
  w.checkNext();
  w.runFor(4);
  w.checkEnd();
  w.checkNext();
  sym_witness("ran");
}
// every kind of event, two runs
ENTRY(p26_kinds) {
  World w;
  w.tk->epoch = (D)sym_u8("epoch offset");
  w.tk->start = (D)sym_u8("mission start");
  const int n = (int)sym_bound(2);
  const char *tn[] = {"time 0", "time 1", "time 2", "time 3"}, *cn[] = {"cycle 0", "cycle 1", "cycle 2"}, *rn[] = {"repeat 0", "repeat 1", "repeat 2"};
  for (int i = 0; i < n; i++) w.add((int)sym_choose("kind", 4), small(tn[i], 4), small(cn[i], 1) + 1, (I)small(rn[i], 2) - 1);
  w.runFor(2);
  w.checkEnd();
  w.runFor(2);
  w.checkEnd();
  w.checkNext();
  sym_witness("ran");
}
// events added while the run goes on, by an event or by a handler of a global event
ENTRY(p26_added) {
  World w;
  const D t0 = small("time 0", 3);
  w.add(SIM, t0, 1, (I)small("repeat", 1));
  w.add(SIM, small("time 1", 3));
  const int where = (int)sym_choose("where", 3);
  const int kind = (int)sym_choose("kind", 4);
  bool did = false;
  auto act = [&] {
    if (did) return;
    did = true;
    const int cyc = (int)sym_choose("cyclic", 2);
    w.add(kind, small("delay", 3), cyc, cyc);
  };
  if (where == 0) w.inside = [&](int i) { if (i == 0) act(); };
  else {
    int skip = (int)sym_choose("emission", 2);
    w.handler = [&, skip, where](EId e) mutable { if (e == (where == 1 ? EM::SMP_PreSimTimeChangeId : EM::SMP_PostSimTimeChangeId) && skip-- == 0) act(); };
  }
  w.runFor(3);
  w.handler = nullptr;
  // an event added while the run is being held waits for the next run
  if (where != 1) w.checkEnd();
  w.checkNext();
  w.runFor(2);
  w.checkEnd();
  if (did) sym_witness("added");
}
// holding from an event, and resuming; aborting
ENTRY(p26_hold) {
  World w;
  w.add(SIM, small("time 0", 2), 1, (I)small("repeat", 2) - 1);
  w.add(SIM, small("time 1", 2));
  w.add((int)sym_choose("kind", 2), small("time 2", 2));
  const int who = (int)sym_choose("who", 3), how = (int)sym_choose("how", 5);
  bool did = false, aborted = false;
  w.inside = [&](int i) {
    if (i != who || did) return;
    did = true;
    switch (how) {
    case 0: w.sim.Hold(true); w.ended = true; break;
    case 1: w.sim.Hold(false); w.holdAt = w.now(); break;
    case 2: w.sim.Abort(); w.ended = aborted = true; break;
    case 3: w.ended = aborted = true; w.current = -1; w.done(w.ev[(std::size_t)i]); throw std::runtime_error("x");
    default: w.sim.Hold(false); w.holdAt = w.now(); w.add(IMM, 0); w.add(SIM, 0); break;
    }
  };
  w.runFor(2);
  if (!did) { w.checkEnd(); return; }
  if (aborted) {
    sym_check(w.sim.GetState() == SS::SSK_Aborting, "the simulation is aborted");
    sym_witness("aborted");
    return;
  }
  if (how == 0) sym_check(w.sim.GetState() == SS::SSK_Standby, "the simulation is held");
  else if (!w.ev[(std::size_t)who].imm0) w.checkEnd(); // an immediate event runs before the time step starts
  w.checkIdle();
  w.runFor(3);
  w.checkEnd();
  w.checkNext();
  sym_witness("resumed");
}
// a simulator without a logger
ENTRY(p26_nologger) {
  World w(true, false);
  w.add((int)sym_choose("kind", 4), small("time 0", 2), 1, (I)small("repeat", 2) - 1);
  w.s->RemoveEvent(w.s->AddZuluTimeEvent(w.ep(1), D(1) << 60));
  w.runFor(2);
  w.checkEnd();
  sym_witness("ran");
}
// the mission or the epoch time is moved while events are scheduled
ENTRY(p26_skip) {
  World w;
  w.tk->epoch = (D)small("epoch offset", 3);
  const int kind = MISSION + (int)sym_choose("kind", 2);
  w.add(SIM, small("time 0", 3));
  w.add(kind, small("time 1", 3), 1, (I)small("repeat", 2) - 1);
  const int what = (int)sym_choose("what", 3);
  w.inside = [&](int i) {
    if (i) return;
    const D v = small("value", 3);
    if (what == 0) w.tk->SetEpochTime(v); else if (what == 1) w.tk->SetMissionStartTime(v); else w.tk->SetMissionTime(v);
  };
  w.runFor(4);
  w.checkEnd();
  w.checkNext();
  sym_witness("ran");
}

// ---- with the zulu thread
#include <condition_variable>
#include <mutex>
#include <thread>
namespace {
D wall() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
// zulu events run at their zulu time, in time order, in Standby
ENTRY(p26_zulu) {
  World w;
  w.tk->far = false;
  w.track = false;
  Gate g;
  D due[2] = {0, 0}, cyc = 1000 + small("cycle", 10);
  int seen = 0, wrong = 0;
  w.inside = [&](int i) {
    const D t = wall();
    if (t < due[i]) wrong |= 1;                        // before its time
    if (t > due[i] && i == 0) wrong |= 2;              // nothing held it back
    if (w.sim.GetState() != SS::SSK_Standby) wrong |= 4;
    due[i] += cyc;
    seen = seen * 4 + i + 1;
    g.hit();
  };
  const D base = wall();
  const bool later = sym_choose("the later one first", 2);
  const D d = 100 + small("delay", 10);
  const I rep = (I)sym_choose("repeat", 2);
  due[0] = base + d;
  due[1] = base + 5000;
  const auto *e0 = w.ep(0), *e1 = w.ep(1);
  try {
    if (later) { w.s->AddZuluTimeEvent(e1, due[1]); w.s->AddZuluTimeEvent(e0, due[0], cyc, rep); }
    else { w.s->AddZuluTimeEvent(e0, due[0], cyc, rep); w.s->AddZuluTimeEvent(e1, due[1]); }
  } catch (const Smp::Services::InvalidEventTime &) { return; } // the clock has passed it meanwhile
  const bool late = wall() > base + d;
  g.wait(rep ? 3 : 2);
  w.sim.Exit();
  if (late) return;
  sym_check(seen == (rep ? 0x16 : 0x6), "zulu events run in time order, the right number of times");
  sym_check(!(wrong & 1), "a zulu event does not run before its time");
  sym_check(!(wrong & 2), "a zulu event runs when its time has come");
  sym_check(!(wrong & 4), "zulu events run in Standby");
  sym_witness("done");
}
// zulu events do not run together with other events, and may use the scheduler
ENTRY(p26_both) {
  World w;
  w.track = false;
  std::atomic<int> busy{0};
  Gate g;
  D last = 0;
  w.add(SIM, 1);
  w.add(SIM, 2);
  const int act = (int)sym_choose("action", 4);
  w.inside = [&](int i) {
    sym_check(busy++ == 0, "one event at a time");
    sym_check(w.now() >= last, "simulation time does not go backwards");
    last = w.now();
    if (i == 2) {
      switch (act) {
      case 0: break;
      case 1: w.s->AddImmediateEvent(w.eps[3]); break;
      case 2: w.s->AddSimulationTimeEvent(w.eps[3], 0); break;
      default: try { w.s->RemoveEvent(w.ev[1].id); w.ran[1]++; } catch (const Smp::Services::InvalidEventId &) {} break;
      }
    }
    busy--;
    if (i == 2) g.hit();
  };
  w.ep(3);
  w.s->AddZuluTimeEvent(w.ep(2), w.tk->GetZuluTime() + (D(1) << 42));
  bool gone = false;
  try { w.sim.Run(2); } catch (...) { gone = true; }
  sym_check(!gone, "the run ends without an error");
  g.wait(1);
  w.sim.Exit();
  sym_check(w.ran[2] == 1, "the zulu event runs once");
  sym_check(w.ran[0] == 1 && w.ran[1] == 1, "every event runs once");
  sym_witness("done");
}
// holding from another thread ends a run that waits for the wall clock
ENTRY(p26_wait) {
  World w;
  w.tk->far = false;
  w.track = false;
  const bool ever = sym_choose("how", 2);
  const unsigned speed = (unsigned)sym_choose("speed", 3); // 1, 0.01, 100
  w.s->SetTargetSpeed(speed == 0 ? 1.0 : speed == 1 ? 0.01 : 100.0);
  const D T = 1000000, M = std::numeric_limits<D>::max();
  if (!ever) w.add(SIM, T);
  Gate g;
  w.handler = [&](EId e) { if (e == EM::SMP_PreSimTimeChangeId) g.hit(); };
  std::thread t([&] { g.wait(1); w.sim.Hold(true); });
  const D start = wall();
  if (ever) w.sim.Run(); else w.sim.Run(2 * T);
  const D at = w.now(), spent = wall() - start;
  sym_check(at == 0 || at == M || (!ever && (at == T || at == 2 * T)), "simulation time is that of an event");
  // not ahead of the wall clock times the speed (a wait is at most some decades long)
  if (at == M) sym_check(spent >= (D(1) << 56), "the simulation is not ahead of the wall clock");
  else sym_check(speed == 0 ? spent >= at : speed == 1 ? spent >= at * 100 : spent >= at / 100, "the simulation is not ahead of the wall clock");
  t.join();
  sym_check(w.sim.GetState() == SS::SSK_Standby, "the simulation is held");
  if (at == 0) sym_witness("held");
}
