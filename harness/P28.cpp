// P28: epoch and mission time stay tied to simulation time.
// SOURCES: src/Xsmp/Simulator.cpp src/Xsmp/Services/XsmpTimeKeeper.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// FLAGS: @fake
// ENTRY p28_history quick=4 thorough=5 weight=3 --preempt=0
// ENTRY p28_store --preempt=0
// ENTRY p28_zulu --preempt=0
// ENTRY p28_run --preempt=0
// ENTRY p28_threads --preempt=2 --races
// ENTRY p28_threads_set --preempt=1 --races
#include "schedlib.h"
#include <Smp/Services/InvalidSimulationTime.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <thread>
using namespace sc;
namespace {
struct T {
  std::vector<EId> seen;
  bool right = true;
  Xsmp::Simulator sim{"sim", ""};
  Events *em;
  Sched *sc;
  Xsmp::Services::XsmpTimeKeeper *tk;
  // reference
  D now = 0, epoch = 0, start = 0;
  bool open = false;
  T() {
    auto *lg = new Logger("lg", "", &sim, nullptr);
    em = new Events("em", "", &sim, nullptr);
    sc = new Sched("sc", "", &sim, nullptr);
    tk = new Xsmp::Services::XsmpTimeKeeper("tk", "", &sim, &sim);
    sim.AddService(lg);
    sim.AddService(em);
    sim.AddService(sc);
    sim.AddService(tk);
    sim.Connect();
    seen.clear();
    em->hook = [this](EId e) {
      if (e != EM::SMP_EpochTimeChangedId && e != EM::SMP_MissionTimeChangedId && e != EM::SMP_PreSimTimeChangeId && e != EM::SMP_PostSimTimeChangeId) return;
      seen.push_back(e);
      right &= tk->GetSimulationTime() == now && tk->GetEpochTime() == now + epoch && tk->GetMissionTime() == now + epoch - start; // a handler sees the new times
    };
  }
  void same() {
    sym_check(tk->GetSimulationTime() == now, "simulation time");
    sym_check(tk->GetEpochTime() == now + epoch, "epoch time keeps its distance from simulation time");
    sym_check(tk->GetMissionStartTime() == start, "mission start");
    sym_check(tk->GetMissionTime() == now + epoch - start, "mission time is epoch time less mission start");
  }
  static D any(const char *n) { return (D)sym_u64(n) >> 3; }
  void step(int op, D v, D next) {
    seen.clear();
    EId want = -1;
    switch (op) {
    case 0: epoch = v - now; tk->SetEpochTime(v); want = EM::SMP_EpochTimeChangedId; sym_check(tk->GetEpochTime() == v, "the epoch time that was set"); break;
    case 1: start = v; tk->SetMissionStartTime(v); want = EM::SMP_MissionTimeChangedId; break;
    case 2: start = now + epoch - v; tk->SetMissionTime(v); want = EM::SMP_MissionTimeChangedId; sym_check(tk->GetMissionTime() == v, "the mission time that was set"); break;
    case 3: {
      sc->next = next;
      const bool bad = open && (v < now || v > next);
      bool threw = false;
      try { tk->SetSimulationTime(v); } catch (const Smp::Services::InvalidSimulationTime &) { threw = true; }
      sym_check(threw == bad, "simulation time does not go back, nor beyond the next event");
      if (open && !bad) now = v;
      break;
    }
    case 4: em->Emit(want = EM::SMP_PreSimTimeChangeId); open = true; break;
    default: em->Emit(want = EM::SMP_PostSimTimeChangeId); open = false; break;
    }
    sym_check(want < 0 ? seen.empty() : seen.size() == 1 && seen[0] == want, "each change is announced, and nothing else");
    sym_check(right, "when it has taken effect");
    same();
  }
};
}
ENTRY(p28_history) {
  T t;
  t.same();
  const int n = (int)sym_bound(3);
  const char *v[] = {"value 0", "value 1", "value 2", "value 3", "value 4"}, *x[] = {"next 0", "next 1", "next 2", "next 3", "next 4"};
  t.open = sym_choose("open", 2);
  if (t.open) t.em->Emit(EM::SMP_PreSimTimeChangeId);
  for (int i = 0; i < n; i++) {
    const int op = (int)sym_choose("call", 6);
    t.step(op, T::any(v[i]), op == 3 ? T::any(x[i]) : 0);
  }
  sym_witness("done");
}
ENTRY(p28_store) {
  T t;
  t.step(4, 0, 0);
  t.step(3, T::any("now") & ~(D(1) << 63), std::numeric_limits<D>::max());
  t.step(5, 0, 0);
  t.step(0, T::any("epoch"), 0);
  t.step(1, T::any("start"), 0);
  const D a = t.now, b = t.epoch, c = t.start;
  t.sim.Store("dir");
  t.same();
  t.step((int)sym_choose("call", 3), T::any("value"), 0);
  t.step(1, T::any("other"), 0);
  t.sim.Restore("dir");
  t.now = a; t.epoch = b; t.start = c;
  t.same();
  t.step(4, 0, 0);
  t.step(3, T::any("later"), T::any("next"));
  t.step(5, 0, 0);
  sym_witness("done");
}
// zulu time is the clock's, whatever is set
ENTRY(p28_zulu) {
  T t;
  const D a = t.tk->GetZuluTime();
  t.step((int)sym_choose("call", 3), T::any("value"), 0);
  const D b = t.tk->GetZuluTime();
  t.step(4, 0, 0);
  t.step(3, T::any("time") & ~(D(1) << 63), std::numeric_limits<D>::max());
  const D c = t.tk->GetZuluTime();
  const D w = static_cast<D>(::Xsmp::DateTime::now());
  sym_check(a <= b && b <= c && c <= w, "zulu time is the time of the system clock");
  sym_witness("done");
}
// with the real scheduler: simulation time follows the events, the other times keep their distance
#include <Xsmp/Services/XsmpScheduler.h>
ENTRY(p28_run) {
  Xsmp::Simulator sim("sim", "");
  auto *lg = new Logger("lg", "", &sim, nullptr);
  auto *em = new Events("em", "", &sim, nullptr);
  auto *tk = new Xsmp::Services::XsmpTimeKeeper("tk", "", &sim, &sim);
  auto *s = new Xsmp::Services::XsmpScheduler("s", "", &sim, &sim);
  sim.AddService(lg); sim.AddService(em); sim.AddService(tk); sim.AddService(s);
  s->SetTargetSpeed(1.0);
  sim.Connect();
  D epoch = T::any("epoch"), start = T::any("start"), step = -1;
  tk->SetEpochTime(epoch);
  tk->SetMissionStartTime(start);
  const D t0 = small("time 0", 3), t1 = small("time 1", 3);
  D at[2] = {-1, -1};
  int n = 0;
  bool right = true;
  auto see = [&](int i, D due) {
    at[i] = tk->GetSimulationTime();
    right &= at[i] == due && tk->GetEpochTime() == at[i] + epoch && tk->GetMissionTime() == at[i] + epoch - start;
    n++;
  };
  Xsmp::EntryPoint e0("e0", "", &sim, [&] { see(0, t0); if (step >= 0) { epoch = step - tk->GetSimulationTime(); tk->SetEpochTime(step); } }), e1("e1", "", &sim, [&] { see(1, t1); });
  s->AddSimulationTimeEvent(&e0, t0);
  s->AddSimulationTimeEvent(&e1, t1);
  // a handler may move the simulation time forward, before the next event
  const D jump = small("jump", 3);
  const bool jumps = sym_choose("jumps", 2);
  if (sym_choose("sets", 2)) step = small("new epoch", 5);
  int bad = 0;
  Xsmp::EntryPoint pre("pre", "", &sim, [&] {
    if (!jumps) return;
    const D now = tk->GetSimulationTime(), next = s->GetNextScheduledEventTime();
    bool threw = false;
    try { tk->SetSimulationTime(jump); } catch (const Smp::Services::InvalidSimulationTime &) { threw = true; }
    if (threw != (jump < now || jump > next) || tk->GetSimulationTime() != (threw ? now : jump)) bad++;
  });
  em->Subscribe(EM::SMP_PreSimTimeChangeId, &pre);
  sim.Run(3);
  sym_check(n == 2 && right, "events run at their time, with the epoch and mission time that belong to it");
  sym_check(!bad, "a handler may move the time up to the next event");
  sym_check(tk->GetSimulationTime() == 3 && tk->GetEpochTime() == 3 + epoch && tk->GetMissionTime() == 3 + epoch - start, "the times at the end of the run");
  em->Unsubscribe(EM::SMP_PreSimTimeChangeId, &pre);
  tk->SetSimulationTime(4);
  sym_check(tk->GetSimulationTime() == 3, "simulation time does not change outside a run");
  sym_witness("done");
}
// readers and writers from different threads
ENTRY(p28_threads) {
  T t;
  t.em->hook = nullptr;
  const int op = (int)sym_choose("call", 4);
  if (op == 3) t.em->Emit(EM::SMP_PreSimTimeChangeId), t.sc->next = 100;
  D r[4] = {0, 0, 0, 0};
  std::thread th([&] {
    if (op == 0) t.tk->SetEpochTime(50);
    if (op == 1) t.tk->SetMissionStartTime(50);
    if (op == 2) t.tk->SetMissionTime(50);
    if (op == 3) t.tk->SetSimulationTime(50);
  });
  r[0] = t.tk->GetSimulationTime();
  r[1] = t.tk->GetEpochTime();
  r[2] = t.tk->GetMissionTime();
  r[3] = t.tk->GetMissionStartTime();
  th.join();
  const D M = op == 1 || op == 2 ? -50 : 50;
  sym_check(r[0] == 0 || (op == 3 && r[0] == 50), "a simulation time it had");
  sym_check(r[1] == 0 || ((op == 0 || op == 3) && r[1] == 50), "an epoch time it had");
  sym_check(r[2] == 0 || r[2] == (op == 2 ? 50 : M), "a mission time it had");
  sym_check(r[3] == 0 || r[3] == (op == 1 ? 50 : -50), "a mission start it had");
  sym_check(t.tk->GetMissionTime() == (op == 1 ? -50 : 50), "the last value");
  sym_witness("done");
}
ENTRY(p28_threads_set) {
  T t;
  t.em->hook = nullptr;
  const int a = (int)sym_choose("call", 3), b = (int)sym_choose("other call", 3);
  auto set = [&](int op, D v) { if (op == 0) t.tk->SetEpochTime(v); if (op == 1) t.tk->SetMissionStartTime(v); if (op == 2) t.tk->SetMissionTime(v); };
  std::thread th([&] { set(a, 50); });
  set(b, 7);
  th.join();
  const D e = t.tk->GetEpochTime(), m = t.tk->GetMissionTime(), s = t.tk->GetMissionStartTime();
  sym_check(m == e - s, "mission time is epoch time less mission start");
  auto is = [&](int op, D v) { return op == 0 ? e == v : op == 1 ? s == v : m == v; };
  const bool tied = a != b && a != 1 && b != 1; // mission time moves with the epoch time
  if (a == b) sym_check(is(a, 50) || is(a, 7), "one of the two values");
  else if (!tied && !(a == 2 || b == 2)) sym_check(is(a, 50) && is(b, 7), "both values");
  else sym_check(is(a, 50) || is(b, 7), "the last value set");
  sym_witness("done");
}
