// P25: the simulator's state machine.
// SOURCES: src/Xsmp/Simulator.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// FLAGS: @fake
// ENTRY p25_from_building quick=3 thorough=4 weight=3
// ENTRY p25_from_standby quick=3 thorough=4 weight=4
// ENTRY p25_from_executing quick=3 thorough=4 weight=3
// ENTRY p25_nested quick=1 thorough=1 weight=4
// ENTRY p25_tree weight=3
// ENTRY p25_services weight=2
// ENTRY p25_persist
// ENTRY p25_destruction
// ENTRY p25_run_for
#include "simlib.h"
#include <Smp/CannotRestore.h>
#include <Smp/DuplicateName.h>
#include <Smp/InvalidSimulatorState.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <string.h>
#include <string>
using namespace sl;
using CK = Smp::ComponentStateKind;

namespace {
enum Cmd { PUBLISH, CONFIGURE, CONNECT, INITIALISE, RUN, HOLDNOW, HOLD, TIME, STORE, RESTORE, RECONNECT, EXIT, ABORT, ADDINIT, ADDMODEL, ADDSERVICE, ADDCHILD, NCMD };
struct M : Xsmp::Model { using Xsmp::Model::Model; };
struct Root : Xsmp::Model, virtual Xsmp::Composite {
  using Xsmp::Model::Model;
  Xsmp::Container<Smp::IModel> parts{"parts", "", static_cast<Xsmp::Composite *>(this), 0, -1};
};
struct S : Xsmp::Service { using Xsmp::Service::Service; };
const char *const names[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"};

// The documented state machine.
struct World {
  Xsmp::Simulator sim{"sim", ""};
  Events *em;
  Root *root;
  Logger *lg;
  std::vector<Xsmp::Component *> comps;
  std::vector<CK> want;           // expected component states
  std::vector<bool> child;        // below the root given to Reconnect
  bool track = true;              // component states are decided
  // expected
  std::vector<Note> log;
  SS state = SS::SSK_Building;
  bool stored = false;            // a state vector of the present tree exists
  bool pending = false;           // a hold at the end of the current time step was asked for
  std::vector<int> init;          // init entry points to run
  std::vector<int> ran, wantRan;
  std::vector<Xsmp::EntryPoint *> eps;
  int opens = 0, named = 0;
  // a handler of event `at` that issues `nested`
  int at = -1, nested = -1;
  bool fired = false, ofired = false;
  int last = -1;

  World() {
    lg = new Logger("lg", "", &sim, nullptr);
    em = new Events("em", "", &sim, nullptr);
    em->sim = &sim;
    sim.AddService(lg);
    sim.AddService(em);
    root = new Root("m", "", &sim, nullptr);
    sim.AddModel(root);
    comps = {lg, em, root};
    want.assign(3, CK::CSK_Created);
    child.assign(3, false);
    addChild();
    for (int i = 0; i < 8; i++) eps.push_back(new Xsmp::EntryPoint(names[i], "", &sim, [this, i] { ran.push_back(i); sym_check(sim.GetState() == SS::SSK_Initialising, "initialisation entry points run in Initialising"); }));
    fakedisk::opened = fakedisk::closed = 0;
  }
  ~World() { for (auto *e : eps) delete e; }

  void addChild() {
    auto *m = new M(names[named & 7], "", root, nullptr);
    named++;
    root->parts.AddComponent(m);
    comps.push_back(m);
    want.push_back(CK::CSK_Created);
    child.push_back(true);
  }
  // ---- the expected behaviour
  void emit(EId e) {
    log.push_back({e, state});
    if ((int)e == at && !ofired) { ofired = true; int l = last; last = (int)e; expect(nested); last = l; }
  }
  bool standby() const { return state == SS::SSK_Standby && last != (int)EM::SMP_LeaveStandbyId; }
  void raise(bool pub, bool conf, bool conn, bool all = true) {
    for (std::size_t i = 0; i < want.size(); i++) {
      auto &k = want[i];
      if (!all && !child[i]) continue;
      if (pub && k == CK::CSK_Created) k = CK::CSK_Publishing;
      if (conf && k == CK::CSK_Publishing) k = CK::CSK_Configured;
      if (conn && k == CK::CSK_Configured) k = CK::CSK_Connected;
    }
  }
  bool dead() const { return state == SS::SSK_Aborting; }
  void to(SS s, EId e) { if (!dead()) { state = s; emit(e); } }
  void out(EId e) { if (!dead()) emit(e); }
  void runInit() {
    if (dead()) return;
    std::vector<int> l;
    l.swap(init);
    for (int i : l) wantRan.push_back(i);
  }
  void expect(int c) {
    switch (c) {
    case PUBLISH: if (state == SS::SSK_Building) raise(true, false, false); break;
    case CONFIGURE: if (state == SS::SSK_Building) raise(true, true, false); break;
    case CONNECT:
      if (state != SS::SSK_Building) break;
      state = SS::SSK_Connecting;
      raise(true, true, true);
      out(EM::SMP_LeaveConnectingId);
      to(SS::SSK_Initialising, EM::SMP_EnterInitialisingId);
      runInit();
      out(EM::SMP_LeaveInitialisingId);
      to(SS::SSK_Standby, EM::SMP_EnterStandbyId);
      break;
    case INITIALISE:
      if (!standby()) break;
      out(EM::SMP_LeaveStandbyId);
      to(SS::SSK_Initialising, EM::SMP_EnterInitialisingId);
      runInit();
      out(EM::SMP_LeaveInitialisingId);
      to(SS::SSK_Standby, EM::SMP_EnterStandbyId);
      break;
    case RUN:
      if (!standby()) break;
      out(EM::SMP_LeaveStandbyId);
      to(SS::SSK_Executing, EM::SMP_EnterExecutingId);
      break;
    case HOLDNOW:
      if (state != SS::SSK_Executing || last == (int)EM::SMP_LeaveExecutingId) break;
      pending = false;
      out(EM::SMP_LeaveExecutingId);
      to(SS::SSK_Standby, EM::SMP_EnterStandbyId);
      break;
    case HOLD: if (state == SS::SSK_Executing && last != (int)EM::SMP_LeaveExecutingId) pending = true; break;
    case TIME:
      emit(EM::SMP_PreSimTimeChangeId);
      if (pending) expect(HOLDNOW);
      break;
    case STORE: case RESTORE:
      if (!standby()) break;
      out(EM::SMP_LeaveStandbyId);
      to(c == STORE ? SS::SSK_Storing : SS::SSK_Restoring, c == STORE ? EM::SMP_EnterStoringId : EM::SMP_EnterRestoringId);
      if (!dead()) opens++;
      out(c == STORE ? EM::SMP_LeaveStoringId : EM::SMP_LeaveRestoringId);
      to(SS::SSK_Standby, EM::SMP_EnterStandbyId);
      break;
    case RECONNECT:
      if (!standby()) break;
      out(EM::SMP_LeaveStandbyId);
      to(SS::SSK_Reconnecting, EM::SMP_EnterReconnectingId);
      raise(true, true, true, false);
      out(EM::SMP_LeaveReconnectingId);
      to(SS::SSK_Standby, EM::SMP_EnterStandbyId);
      break;
    case EXIT:
      if (!standby()) break;
      out(EM::SMP_LeaveStandbyId);
      to(SS::SSK_Exiting, EM::SMP_EnterExitingId);
      for (auto &k : want) if (k == CK::CSK_Connected) k = CK::CSK_Disconnected;
      break;
    case ABORT:
      if (!dead()) { state = SS::SSK_Aborting; emit(EM::SMP_EnterAbortingId); }
      break;
    default: break;
    }
  }
  bool building() const { return state == SS::SSK_Building || state == SS::SSK_Connecting || state == SS::SSK_Standby; }

  // ---- the real thing
  void issue(int c) {
    switch (c) {
    case PUBLISH: sim.Publish(); break;
    case CONFIGURE: sim.Configure(); break;
    case CONNECT: sim.Connect(); break;
    case INITIALISE: sim.Initialise(); break;
    case RUN: sim.Run(); break;
    case HOLDNOW: sim.Hold(true); break;
    case HOLD: sim.Hold(false); break;
    case TIME: em->Emit(EM::SMP_PreSimTimeChangeId); break;
    case STORE: sim.Store("dir"); break;
    case RESTORE: sim.Restore("dir"); break;
    case RECONNECT: sim.Reconnect(root); break;
    case EXIT: sim.Exit(); break;
    case ABORT: sim.Abort(); break;
    default: break;
    }
  }
  // a command that also changes what the simulator holds
  void command(int c) {
    if (c == RESTORE && standby()) sym_assume(stored); // a state vector of another tree: not decided
    const std::vector<CK> before = want;
    const int o = opens;
    try {
      if (c == ADDINIT) {
        int k = named++ & 7;
        sim.AddInitEntryPoint(eps[(std::size_t)k]);
        if (building()) init.push_back(k);
      } else if (c == ADDMODEL || c == ADDSERVICE) {
        Xsmp::Component *x;
        M *m = nullptr; S *s = nullptr;
        if (c == ADDMODEL) x = m = new M(names[named & 7], "", &sim, nullptr);
        else x = s = new S(names[named & 7], "", &sim, nullptr);
        named++;
        bool refused = false;
        try { if (m) sim.AddModel(m); else sim.AddService(s); } catch (const Smp::InvalidSimulatorState &) { refused = true; }
        sym_check(refused == !building(), "components are accepted exactly in Building, Connecting and Standby");
        if (refused) delete x;
        else { comps.push_back(x); want.push_back(CK::CSK_Created); child.push_back(false); }
      } else if (c == ADDCHILD) addChild();
      else { issue(c); expect(c); }
    } catch (const Smp::Exception &) { sym_fail("a command raised an exception"); }
    if (c == STORE && opens > o) stored = true;
    if (!(want == before)) stored = false;
    verify();
  }
  void verify() {
    sym_check(sim.GetState() == state, "the simulator is in the documented state");
    sym_check(em->log.size() == log.size(), "exactly the documented events are emitted");
    for (std::size_t i = 0; i < log.size(); i++) {
      sym_check(em->log[i].id == log[i].id, "the events are emitted in the documented order");
      sym_check(em->log[i].state == log[i].state || log[i].id == EM::SMP_EnterAbortingId, "an event is emitted in the state it announces");
    }
    sym_check(ran == wantRan, "each initialisation entry point runs once, in order of addition");
    sym_check(fakedisk::closed == fakedisk::opened && (fakedisk::opened == opens || dead()), "the state vector is stored and restored exactly on demand");
    sym_check(!em->subs.size() == !pending || dead(), "a hold waits for the end of the time step exactly when it was asked for");
    if (track) for (std::size_t i = 0; i < comps.size(); i++) sym_check(comps[i]->GetState() == want[i], "components are in the documented state");
  }
  void history(int steps) { for (int s = 0; s < steps; s++) command((int)sym_choose("command", NCMD)); sym_observe("state", (unsigned)state); }
};
}
// Every sequence of commands from construction.
ENTRY(p25_from_building) {
  World w;
  w.verify();
  w.history((int)sym_bound(3));
  if (w.state == SS::SSK_Standby) sym_witness("standby");
  if (w.state == SS::SSK_Executing) sym_witness("executing");
  if (w.state == SS::SSK_Aborting) sym_witness("aborted");
}
// Every sequence from Standby, with a stored state vector, a new model and a pending initialisation entry point.
ENTRY(p25_from_standby) {
  World w;
  w.command(ADDINIT);
  w.command(CONNECT);
  w.command(STORE);
  w.command(ADDINIT);
  w.command(ADDINIT);
  w.history((int)sym_bound(2));
  if (w.state == SS::SSK_Exiting) sym_witness("exited");
  if (w.ran.size() == 3) sym_witness("initialised again");
}
ENTRY(p25_from_executing) {
  World w;
  w.command(CONNECT);
  w.command(RUN);
  w.history((int)sym_bound(3));
  if (w.state == SS::SSK_Standby) sym_witness("held");
}
// A handler of any event that issues any command, from inside any command.
ENTRY(p25_nested) {
  World w;
  w.track = false;
  unsigned start = (unsigned)sym_choose("start", 4);
  if (start >= 1) { w.command(ADDINIT); w.command(CONNECT); }
  if (start == 2) { w.command(RUN); }
  if (start == 3) { w.command(RUN); w.command(HOLD); }
  w.command(ADDINIT);
  const int outer = (int)sym_choose("outer", ADDINIT);
  w.nested = (int)sym_choose("nested", ADDINIT);
  const int at = (int)sym_range("at", 1, 18);
  sym_assume(at != 14 && at != 15);
  // Run from a handler of EnterStandby: not decided
  sym_assume(!(w.nested == RUN && at == (int)EM::SMP_EnterStandbyId));
  sym_assume(w.nested != TIME && w.nested != RESTORE);
  if (outer == RESTORE) sym_assume(w.nested == ABORT);
  sym_assume(at != (int)EM::SMP_PreSimTimeChangeId || outer == TIME);
  sym_assume(outer != TIME || start == 3);
  if (outer == RESTORE && start == 1) w.command(STORE);
  w.at = at;
  w.em->hook = [&w](EId e) { if ((int)e == w.at && !w.fired) { w.fired = true; w.issue(w.nested); } };
  // the handler's Hold at a time step comes before the simulator's own subscription
  if (outer == TIME) sym_assume(at != (int)EM::SMP_PreSimTimeChangeId || w.nested == ABORT || w.nested == HOLD);
  w.command(outer);
  sym_check(w.fired == w.ofired, "the event is emitted exactly when documented");
  if (w.fired && w.nested == ABORT) sym_witness("aborted within a transition");
  if (w.fired && w.nested == EXIT && w.state == SS::SSK_Exiting) sym_witness("exited from a handler");
  w.em->hook = nullptr;
}

// ---- the component tree
namespace {
struct Step { int who, what; };
std::vector<Step> steps;
struct Node;
std::vector<Node *> nodes;
struct Node : Xsmp::Model, virtual Xsmp::Composite {
  int id;
  Smp::ISimulator *theSim;
  Xsmp::Container<Smp::IComponent> parts;
  Node(int i, Smp::IComposite *p, Smp::ISimulator *s) : Xsmp::Model(names[i], "", p, nullptr), id(i), theSim(s), parts("parts", "", static_cast<Xsmp::Composite *>(this), 0, -1) { nodes.push_back(this); }
  bool grows = false;
  Smp::IPublication *pub = nullptr;
  void Publish(Smp::IPublication *p) override { steps.push_back({id, 0}); Xsmp::Model::Publish(p); pub = p; sym_check(p->GetTypeRegistry() == theSim->GetTypeRegistry(), "published with the simulator's types"); }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) override {
    steps.push_back({id, 1});
    Xsmp::Model::Configure(l, r);
    sym_check(l == theSim->GetLogger() && r == theSim->GetLinkRegistry(), "configured with the simulator's services");
    if (grows) { grows = false; auto *n = new Node((int)nodes.size(), this, theSim); parts.AddComponent(n); }
  }
  void Connect(Smp::ISimulator *s) override { steps.push_back({id, 2}); Xsmp::Model::Connect(s); sym_check(s == theSim, "connected to the simulator"); }
  void Disconnect() override { steps.push_back({id, 3}); Xsmp::Model::Disconnect(); }
};
struct NodeService : Xsmp::Service {
  using Xsmp::Service::Service;
  int calls[4] = {0, 0, 0, 0};
  void Publish(Smp::IPublication *p) override { calls[0]++; Xsmp::Service::Publish(p); }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) override { calls[1]++; Xsmp::Service::Configure(l, r); }
  void Connect(Smp::ISimulator *s) override { calls[2]++; Xsmp::Service::Connect(s); }
  void Disconnect() override { calls[3]++; Xsmp::Service::Disconnect(); }
};
}
// Whatever states the components of a tree are in, each command makes exactly the missing transitions, a
// parent's before its children's, also for children created on the way.
ENTRY(p25_tree) {
  steps.clear();
  nodes.clear();
  Xsmp::Simulator sim("sim", "");
  sim.AddService(new Logger("lg", "", &sim, nullptr));
  sim.AddService(new Links("lr", "", &sim, nullptr));
  auto *svc = new NodeService("svc", "", &sim, nullptr);
  sim.AddService(svc);
  auto *a = new Node(0, &sim, &sim);
  auto *b = new Node(1, a, &sim);
  auto *c = new Node(2, b, &sim);
  auto *d = new Node(3, &sim, &sim);
  sim.AddModel(a);
  a->parts.AddComponent(b);
  b->parts.AddComponent(c);
  sim.AddModel(d);
  const int parent[8] = {-1, 0, 1, -1, 1, 1, 1, 1};
  const unsigned cmd = (unsigned)sym_choose("command", 5);
  if (cmd >= 3) { sim.Connect(); }
  std::vector<Xsmp::Publication::Publication *> own;
  CK pre[8];
  if (cmd >= 3) {
    // new components below a, in any state
    auto *e = new Node(4, b, &sim), *f = new Node(5, b, &sim);
    b->parts.AddComponent(e);
    b->parts.AddComponent(f);
  }
  for (std::size_t i = 0; i < nodes.size(); i++) {
    if (cmd >= 3 && i < 4) continue;
    unsigned k = (unsigned)sym_choose("initial state", 4);
    if (k >= 1) { own.push_back(new Xsmp::Publication::Publication(nodes[i], sim.GetTypeRegistry())); nodes[i]->Publish(own.back()); }
    if (k >= 2) nodes[i]->Configure(sim.GetLogger(), sim.GetLinkRegistry());
    if (k >= 3) nodes[i]->Connect(&sim);
  }
  if (sym_choose("grows", 2) && cmd < 3) b->grows = true;
  const bool grew = b->grows;
  std::size_t n0 = nodes.size();
  for (std::size_t i = 0; i < n0; i++) pre[i] = nodes[i]->GetState();
  for (auto &x : svc->calls) if (cmd < 3) sym_check(x == 0, "no transition before a command");
  steps.clear();
  std::vector<int> svcBefore(svc->calls, svc->calls + 4);
  switch (cmd) {
  case 0: sim.Publish(); break;
  case 1: sim.Configure(); break;
  case 2: sim.Connect(); break;
  case 3: sim.Reconnect(a); break;
  default: sim.Exit(); break;
  }
  const CK goal = cmd == 0 ? CK::CSK_Publishing : cmd == 1 ? CK::CSK_Configured : CK::CSK_Connected;
  std::vector<int> at(nodes.size() * 4, -1);
  for (std::size_t i = 0; i < steps.size(); i++) {
    int &x = at[(std::size_t)(steps[i].who * 4 + steps[i].what)];
    sym_check(x < 0, "no transition is made twice");
    x = (int)i;
  }
  const CK order[4] = {CK::CSK_Created, CK::CSK_Publishing, CK::CSK_Configured, CK::CSK_Connected};
  for (std::size_t i = 0; i < nodes.size(); i++) {
    CK p = i < n0 ? pre[i] : CK::CSK_Created;
    CK g = goal;
    if (cmd == 4) {
      sym_check((at[i * 4 + 3] >= 0) == (p == CK::CSK_Connected), "exactly the connected components are disconnected");
      sym_check(at[i * 4] < 0 && at[i * 4 + 1] < 0 && at[i * 4 + 2] < 0, "Exit makes no other transition");
      sym_check(nodes[i]->GetState() == (p == CK::CSK_Connected ? CK::CSK_Disconnected : p), "the others stay as they are");
      continue;
    }
    int pi = -1, gi = -1;
    for (int k = 0; k < 4; k++) { if (order[k] == p) pi = k; if (order[k] == g) gi = k; }
    if (cmd == 3 && (i == 0 || i == 3)) gi = pi;
    for (int k = 0; k < 3; k++) sym_check((at[i * 4 + (std::size_t)k] >= 0) == (k >= pi && k < gi), "exactly the missing transitions are made");
    sym_check(at[i * 4 + 3] < 0, "nothing is disconnected");
    sym_check(nodes[i]->GetState() == order[pi > gi ? pi : gi], "the component reaches the state of the command");
    for (int k = 0; k < 3; k++) if (parent[i] >= 0 && at[i * 4 + (std::size_t)k] >= 0 && at[(std::size_t)parent[i] * 4 + (std::size_t)k] >= 0)
      sym_check(at[(std::size_t)parent[i] * 4 + (std::size_t)k] < at[i * 4 + (std::size_t)k], "a parent's transition comes first");
  }
  for (std::size_t i = 0; i < nodes.size(); i++) for (std::size_t j = i + 1; j < nodes.size(); j++) sym_check(!nodes[i]->pub || nodes[i]->pub != nodes[j]->pub, "every component has a publication of its own");
  if (grew && cmd >= 1 && pre[1] == CK::CSK_Publishing) { sym_check(nodes.size() == n0 + 1, "the child was created"); sym_witness("child created on the way"); }
  const int want[5][4] = {{1, 0, 0, 0}, {1, 1, 0, 0}, {1, 1, 1, 0}, {0, 0, 0, 0}, {0, 0, 0, 1}};
  for (int k = 0; k < 4; k++) sym_check(svc->calls[k] - svcBefore[(std::size_t)k] == want[cmd][k], "services go through the same transitions");
  sym_observe("steps", steps.size());
}
// The standard services are the first ones added that implement them; names are unique over models and services.
ENTRY(p25_services) {
  Xsmp::Simulator sim("sim", "");
  Smp::IService *all[3] = {nullptr, nullptr, nullptr};
  char nm[3][2];
  unsigned kind[3];
  void *first[6] = {nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
  for (int i = 0; i < 3; i++) {
    unsigned char x = (unsigned char)sym_u8("letter");
    sym_assume((unsigned)(x - 'a') < 26u);
    nm[i][0] = (char)x; nm[i][1] = 0;
    kind[i] = (unsigned)sym_choose("kind", 8);
    bool dup = false;
    for (int j = 0; j < i; j++) dup |= nm[j][0] == nm[i][0] && (all[j] || kind[j] == 7);
    bool refused = false;
    Smp::Services::ILogger *l = nullptr; Smp::Services::IEventManager *e = nullptr; Smp::Services::ILinkRegistry *k = nullptr;
    Smp::Services::IResolver *r = nullptr; Smp::Services::IScheduler *s = nullptr; Smp::Services::ITimeKeeper *t = nullptr;
    Smp::IService *v = nullptr; M *m = nullptr;
    switch (kind[i]) {
    case 0: { auto *q = new Logger(nm[i], "", &sim, nullptr); l = q; v = q; break; }
    case 1: { auto *q = new Events(nm[i], "", &sim, nullptr); e = q; v = q; break; }
    case 2: { auto *q = new Links(nm[i], "", &sim, nullptr); k = q; v = q; break; }
    case 3: { auto *q = new Resolver(nm[i], "", &sim, nullptr); r = q; v = q; break; }
    case 4: { auto *q = new Sched(nm[i], "", &sim, nullptr); s = q; v = q; break; }
    case 5: { auto *q = new Times(nm[i], "", &sim, nullptr); t = q; v = q; break; }
    case 6: v = new S(nm[i], "", &sim, nullptr); break;
    default: m = new M(nm[i], "", &sim, nullptr); break;
    }
    try { if (m) sim.AddModel(m); else sim.AddService(v); } catch (const Smp::DuplicateName &) { refused = true; }
    sym_check(refused == dup, "a component is refused exactly when its name is taken");
    if (refused) { sym_witness("refused"); kind[i] = 8; if (m) delete m; else delete v; }
    else {
      all[i] = v;
      void *p[6] = {l, e, k, r, s, t};
      for (int q = 0; q < 6; q++) if (!first[q] && p[q]) first[q] = p[q];
    }
    sym_check(sim.GetLogger() == first[0] && sim.GetEventManager() == first[1] && sim.GetLinkRegistry() == first[2] && sim.GetResolver() == first[3] && sim.GetScheduler() == first[4] && sim.GetTimeKeeper() == first[5], "the first service of a kind is the standard service");
    for (int j = 0; j <= i; j++) if (kind[j] != 8) sym_check(sim.GetService(nm[j]) == all[j], "a service is found by its name, a model is not a service");
    char q[2] = {(char)sym_u8("query"), 0};
    Smp::IService *w = nullptr;
    for (int j = 0; j <= i; j++) if (kind[j] != 8 && nm[j][0] == q[0]) w = all[j];
    sym_check(sim.GetService(q) == w, "a name finds its service or nothing");
  }
}
// What is stored is what is restored, to every object of the tree.
namespace {
struct Keeper : Xsmp::Model, virtual Xsmp::Composite, virtual Smp::IPersist {
  Xsmp::Container<Smp::IComponent> parts{"parts", "", static_cast<Xsmp::Composite *>(this), 0, -1};
  std::uint32_t hidden = 0;
  Smp::Int32 f = 0;
  Smp::Bool g = false;
  Keeper(const char *n, Smp::IComposite *p) : Xsmp::Model(n, "", p, nullptr) {}
  void Publish(Smp::IPublication *p) override {
    Xsmp::Model::Publish(p);
    p->PublishField("f", "", &f, Smp::ViewKind::VK_All, true, false, false);
    p->PublishField("g", "", &g, Smp::ViewKind::VK_All, true, false, false);
  }
  void Store(Smp::IStorageWriter *w) override { w->Store(&hidden, sizeof hidden); }
  void Restore(Smp::IStorageReader *r) override { r->Restore(&hidden, sizeof hidden); }
};
}
ENTRY(p25_persist) {
  Xsmp::Simulator sim("sim", "");
  auto *em = new Events("em", "", &sim, nullptr);
  sim.AddService(em);
  Keeper *k[3];
  k[0] = new Keeper("a", &sim);
  k[1] = new Keeper("b", k[0]);
  k[2] = new Keeper("c", &sim);
  sim.AddModel(k[0]);
  k[0]->parts.AddComponent(k[1]);
  sim.AddModel(k[2]);
  sim.AddModel(new M("plain", "", &sim, nullptr));
  sim.Connect();
  std::uint32_t h[3]; Smp::Int32 f[3]; bool g[3];
  for (int i = 0; i < 3; i++) { h[i] = k[i]->hidden = sym_u32("hidden"); f[i] = k[i]->f = (Smp::Int32)sym_u32("field"); g[i] = k[i]->g = sym_bool("flag"); }
  sim.Store("dir");
  sym_check(strcmp(fakedisk::path, "dir") == 0, "the state vector is stored where it was asked for");
  char file[32]; strcpy(file, fakedisk::file);
  for (int i = 0; i < 3; i++) { sym_check(k[i]->hidden == h[i] && k[i]->f == f[i] && k[i]->g == g[i], "storing changes nothing"); k[i]->hidden = sym_u32("other hidden"); k[i]->f = (Smp::Int32)sym_u32("other field"); k[i]->g = sym_bool("other flag"); }
  sim.Restore("dir");
  sym_check(strcmp(fakedisk::path, "dir") == 0 && strcmp(fakedisk::file, file) == 0, "and restored from there");
  for (int i = 0; i < 3; i++) { sym_check(k[i]->hidden == h[i], "an object of its own kind restores itself"); sym_check(k[i]->f == f[i] && k[i]->g == g[i], "every stored field is restored"); }
  sym_check(fakedisk::pos == fakedisk::disk.size(), "the state vector is read to its end");
  sym_check(sim.GetState() == SS::SSK_Standby, "back in Standby");
}
// A simulator that goes away ends the simulation properly.
ENTRY(p25_destruction) {
  std::vector<EId> seen;
  nodes.clear();
  steps.clear();
  const unsigned st = (unsigned)sym_choose("state", 5);
  {
    Xsmp::Simulator sim("sim", "");
    auto *em = new Events("em", "", &sim, nullptr);
    sim.AddService(em);
    auto *n = new Node(0, &sim, &sim);
    sim.AddModel(n);
    if (st >= 1) sim.Connect();
    if (st == 2) sim.Run();
    if (st == 3) sim.Exit();
    if (st == 4) sim.Abort();
    steps.clear();
    em->hook = [&seen](EId e) { seen.push_back(e); };
  }
  std::vector<EId> want;
  if (st == 2) { want.push_back(EM::SMP_LeaveExecutingId); want.push_back(EM::SMP_EnterStandbyId); }
  if (st == 1 || st == 2) { want.push_back(EM::SMP_LeaveStandbyId); want.push_back(EM::SMP_EnterExitingId); }
  sym_check(seen == want, "a simulator is held and exited before it goes");
  if (st == 1 || st == 2) sym_check(steps.size() == 1 && steps[0].what == 3, "and its components are disconnected");
}
// Running for a duration posts one hold at the end of it, which stays valid however the run ends.
ENTRY(p25_run_for) {
  Xsmp::Simulator sim("sim", "");
  auto *em = new Events("em", "", &sim, nullptr);
  auto *sc = new Sched("sc", "", &sim, nullptr);
  sim.AddService(em);
  sim.AddService(sc);
  const Smp::Duration d = (Smp::Duration)sym_u64("duration");
  sim.Run(d);
  sym_check(sim.GetState() == SS::SSK_Building && sc->posted.empty(), "ignored outside Standby");
  sim.Connect();
  sim.Run(d);
  sym_check(sim.GetState() == SS::SSK_Executing && sc->posted.size() == 1 && sc->next == d, "one hold is posted for the duration");
  const auto *hold = sc->posted[0].second;
  if (sym_choose("held early", 2)) { sim.Hold(true); if (sym_choose("run again", 2)) sim.Run(); }
  const bool running = sim.GetState() == SS::SSK_Executing;
  hold->Execute();
  em->Emit(EM::SMP_PreSimTimeChangeId);
  sym_check(sim.GetState() == SS::SSK_Standby, "the simulation is held at the end of the time step");
  if (running) sym_witness("held");
}
