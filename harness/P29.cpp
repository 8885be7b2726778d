// P29: global events: stable identifiers, one delivery per subscriber, safe under threads.
// SOURCES: src/Xsmp/Simulator.cpp src/Xsmp/Services/XsmpEventManager.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// FLAGS: @fake
// ENTRY p29_predefined
// ENTRY p29_names quick=3 thorough=4
// ENTRY p29_history quick=3 thorough=4 weight=3
// ENTRY p29_inside quick=2 thorough=3
// ENTRY p29_throws
// ENTRY p29_nologger
// ENTRY p29_persist
// ENTRY p29_threads_query --preempt=2 --races
// ENTRY p29_threads_emit --preempt=2 --races
#include "simlib.h"
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <stdexcept>
#include <string>
#include <thread>
using namespace sl;
namespace {
enum Res { OK, BADID, TWICE, NOTSUB, BADNAME, OTHER };
template <class F> Res call(F &&f) {
  try { f(); return OK; }
  catch (const Smp::Services::InvalidEventId &) { return BADID; }
  catch (const Smp::Services::EntryPointAlreadySubscribed &) { return TWICE; }
  catch (const Smp::Services::EntryPointNotSubscribed &) { return NOTSUB; }
  catch (const Smp::Services::InvalidEventName &) { return BADNAME; }
  catch (...) { return OTHER; }
}
struct W {
  std::vector<std::pair<EId, int>> ran; // which entry points ran
  EId cur = 0;
  std::function<void(int)> inside;
  Xsmp::Simulator sim{"sim", ""};
  Logger *lg = nullptr;
  Xsmp::Services::XsmpEventManager *em;
  std::vector<Xsmp::EntryPoint *> ep;
  std::vector<std::pair<EId, int>> subs; // reference, in order of subscription
  explicit W(int n = 3, bool logger = true) {
    if (logger) { lg = new Logger("lg", "", &sim, nullptr); sim.AddService(lg); }
    em = new Xsmp::Services::XsmpEventManager("em", "", &sim, &sim);
    sim.AddService(em);
    static const char *nm[] = {"e0", "e1", "e2", "e3"};
    for (int i = 0; i < n; i++) ep.push_back(new Xsmp::EntryPoint(nm[i], "", &sim, [this, i] { ran.emplace_back(cur, i); if (inside) inside(i); }));
  }
  ~W() { for (auto *e : ep) if (e) { for (auto &s : subs) if (ep[(std::size_t)s.second] == e) call([&] { em->Unsubscribe(s.first, e); }); delete e; } }
  bool subscribed(EId e, int i) { for (auto &s : subs) if (s.first == e && s.second == i) return true; return false; }
  void subscribe(EId e, int i, bool known = true) {
    const Res r = call([&] { em->Subscribe(e, ep[(std::size_t)i]); });
    sym_check(r == (!known ? BADID : subscribed(e, i) ? TWICE : OK), "an entry point subscribes once to a known event");
    if (r == OK) subs.emplace_back(e, i);
  }
  void unsubscribe(EId e, int i, bool known = true) {
    const Res r = call([&] { em->Unsubscribe(e, ep[(std::size_t)i]); });
    sym_check(r == (!known ? BADID : !subscribed(e, i) ? NOTSUB : OK), "only a subscribed entry point unsubscribes");
    if (r == OK) for (std::size_t k = 0; k < subs.size(); k++) if (subs[k].first == e && subs[k].second == i) { subs.erase(subs.begin() + (long)k); break; }
  }
  void emit(EId e, bool known = true, bool sync = true) {
    const auto was = subs; // calls made meanwhile count the next time
    const EId old = cur;
    std::vector<std::pair<EId, int>> outer;
    outer.swap(ran);
    cur = e;
    const Res r = call([&] { em->Emit(e, sync); });
    sym_check(r == (known ? OK : BADID), "a known event is emitted");
    std::vector<int> got, want;
    for (auto &x : ran) if (x.first == e) got.push_back(x.second);
    if (known) for (auto &s : was) if (s.first == e) want.push_back(s.second);
    sym_check(got == want && ran.size() == got.size(), "exactly the subscribed entry points run, once each, in the order of subscription");
    ran.swap(outer);
    cur = old;
  }
};
}
ENTRY(p29_predefined) {
  W w;
  const char *n[] = {"LeaveConnecting", "EnterInitialising", "LeaveInitialising", "EnterStandby", "LeaveStandby", "EnterExecuting", "LeaveExecuting", "EnterStoring", "LeaveStoring", "EnterRestoring", "LeaveRestoring", "EnterExiting", "EnterAborting", "EpochTimeChanged", "MissionTimeChanged", "EnterReconnecting", "LeaveReconnecting", "PreSimTimeChange", "PostSimTimeChange"};
  const EId id[] = {EM::SMP_LeaveConnectingId, EM::SMP_EnterInitialisingId, EM::SMP_LeaveInitialisingId, EM::SMP_EnterStandbyId, EM::SMP_LeaveStandbyId, EM::SMP_EnterExecutingId, EM::SMP_LeaveExecutingId, EM::SMP_EnterStoringId, EM::SMP_LeaveStoringId, EM::SMP_EnterRestoringId, EM::SMP_LeaveRestoringId, EM::SMP_EnterExitingId, EM::SMP_EnterAbortingId, EM::SMP_EpochTimeChangedId, EM::SMP_MissionTimeChangedId, EM::SMP_EnterReconnectingId, EM::SMP_LeaveReconnectingId, EM::SMP_PreSimTimeChangeId, EM::SMP_PostSimTimeChangeId};
  const auto i = sym_choose("event", 19);
  EId own = 0;
  if (sym_choose("another first", 2)) own = w.em->QueryEventId("own");
  const std::string name = std::string("SMP_") + n[i];
  sym_check(w.em->QueryEventId(name.c_str()) == id[i], "the predefined name has the predefined identifier");
  sym_check(own != id[i] && own == (own ? w.em->QueryEventId("own") : 0), "and no other has it");
  w.subscribe(id[i], 0);
  w.subscribe(id[(i + 1) % 19], 1);
  w.emit(id[i]);
  w.unsubscribe(id[i], 0);
  w.emit(id[i]);
  sym_witness("done");
}
ENTRY(p29_names) {
  W w(1);
  const int n = (int)sym_bound(3);
  std::vector<std::pair<std::string, EId>> seen;
  for (int i = 0; i < n; i++) {
    const int what = (int)sym_choose("what", 4);
    if (what == 0) { sym_check(call([&] { w.em->QueryEventId(sym_choose("null", 2) ? nullptr : ""); }) == BADNAME, "no name is refused"); continue; }
    char t[3] = {0, 0, 0};
    for (int k = 0; k < what && k < 2; k++) { t[k] = (char)sym_u8("char"); sym_assume(t[k] != 0); }
    EId id = 0;
    if (what == 3) id = w.em->QueryEventId("SMP_EnterStandby"); else id = w.em->QueryEventId(t);
    if (what == 3) { sym_check(id == EM::SMP_EnterStandbyId, "predefined"); continue; }
    sym_check(id > 19 || id < 0, "a predefined identifier stays reserved");
    for (auto &s : seen) sym_check((s.second == id) == (s.first == t), "one identifier for each name");
    seen.emplace_back(t, id);
    w.emit(id);
  }
  // identifiers that no query gave are refused
  const EId big[] = {(EId)1 << 63, ~((EId)1 << 63), (EId)1 << 32, ((EId)1 << 32) + 1};
  const int xi = (int)sym_choose("id", 34);
  const EId x = xi < 30 ? xi - 3 : big[xi - 30];
  bool known = x >= 1 && x <= 19;
  for (auto &s : seen) known |= s.second == x;
  w.subscribe(x, 0, known);
  if (!known) { w.unsubscribe(x, 0, false); w.emit(x, false); }
  sym_witness(known ? "known" : "unknown");
}
ENTRY(p29_history) {
  W w(3, sym_choose("logger", 2));
  const EId e[3] = {EM::SMP_EpochTimeChangedId, w.em->QueryEventId("own"), 21};
  const int n = (int)sym_bound(4);
  for (int k = 0; k < n; k++) {
    const int op = (int)sym_choose("call", 3), j = (int)sym_choose("event", k == 0 ? 3 : 2);
    if (op == 0) w.subscribe(e[j], (int)sym_choose("entry point", 3), j < 2);
    if (op == 1) w.unsubscribe(e[j], (int)sym_choose("entry point", 3), j < 2);
    if (op == 2) w.emit(e[j], j < 2, sym_choose("synchronous", 2));
  }
  w.emit(e[0]);
  w.emit(e[1]);
  sym_witness("done");
}
// calls made by an entry point while an event is emitted
ENTRY(p29_inside) {
  W w;
  const EId e[2] = {EM::SMP_MissionTimeChangedId, w.em->QueryEventId("own")};
  for (int i = 0; i < 3; i++) if (sym_choose("subscribed", 2)) w.subscribe(e[0], i);
  w.subscribe(e[1], 0);
  const int who = (int)sym_choose("who", 3), n = (int)sym_bound(2);
  bool did = false;
  w.inside = [&](int i) {
    if (i != who || did) return;
    did = true;
    for (int k = 0; k < n; k++) {
      const int op = (int)sym_choose("call", 4), j = (int)sym_choose("event", 2);
      if (op == 0) w.subscribe(e[j], (int)sym_choose("entry point", 3));
      if (op == 1) w.unsubscribe(e[j], (int)sym_choose("entry point", 3));
      if (op == 2) w.emit(e[j]);
      if (op == 3) w.em->QueryEventId(j ? "more" : "own");
    }
  };
  w.emit(e[0]);
  w.emit(e[0]);
  w.emit(e[1]);
  if (did) sym_witness("done");
}
// an entry point that fails aborts the simulation, the others run all the same
ENTRY(p29_throws) {
  W w;
  const int who = (int)sym_choose("who", 3), what = (int)sym_choose("what", 3);
  for (int i = 0; i < 3; i++) w.subscribe(EM::SMP_EpochTimeChangedId, i);
  w.inside = [&](int i) {
    if (i != who) return;
    if (what == 0) throw std::runtime_error("x");
    if (what == 1) ::Xsmp::Exception::throwException(&w.sim, "Failed", "", "for %s", "x");
    throw 3;
  };
  w.lg->count[3] = 0;
  w.emit(EM::SMP_EpochTimeChangedId);
  sym_check(w.sim.GetState() == SS::SSK_Aborting, "the simulation is aborted");
  sym_check(w.lg->count[3] > 0, "and the error is logged");
  sym_witness("done");
}
// a simulator without a logger
ENTRY(p29_nologger) {
  W w(2, false);
  w.subscribe(EM::SMP_EpochTimeChangedId, 0);
  w.subscribe(EM::SMP_EpochTimeChangedId, 1);
  const int what = (int)sym_choose("what", 4);
  if (what) w.inside = [&](int i) {
    if (i) return;
    if (what == 1) throw std::runtime_error("x");
    if (what == 2) ::Xsmp::Exception::throwException(&w.sim, "Failed", "", "for %s", "x");
    throw 3;
  };
  w.emit(EM::SMP_EpochTimeChangedId);
  w.unsubscribe(EM::SMP_EpochTimeChangedId, 0);
  sym_check((w.sim.GetState() == SS::SSK_Aborting) == (what > 0), "aborted when one failed");
  sym_witness("done");
}
// names, identifiers and subscriptions are those that were stored
namespace {
struct Paths : Resolver {
  using Resolver::Resolver;
  W *w = nullptr;
  Smp::IObject *ResolveAbsolute(Smp::String8 p) override {
    for (auto *e : w->ep) if (p && p[0] == '/' && strcmp(p + 1, e->GetName()) == 0) return e;
    return nullptr;
  }
};
}
ENTRY(p29_persist) {
  W w;
  auto *r = new Paths("r", "", &w.sim, nullptr);
  r->w = &w;
  w.sim.AddService(r);
  w.sim.Connect();
  const EId own = w.em->QueryEventId("own");
  const EId e[2] = {EM::SMP_MissionTimeChangedId, own};
  w.subscribe(e[sym_choose("event", 2)], (int)sym_choose("entry point", 3));
  { const int j = (int)sym_choose("event", 2), i = (int)sym_choose("entry point", 3); if (!w.subscribed(e[j], i)) w.subscribe(e[j], i); }
  const auto was = w.subs;
  w.sim.Store("dir");
  const int op = (int)sym_choose("meanwhile", 4);
  const bool extra = op == 2;
  EId more = 0;
  switch (op) {
  case 0: w.unsubscribe(was[0].first, was[0].second); break;
  case 1: for (int i = 0; i < 3; i++) w.subscribe(own, i); break;
  case 2: more = w.em->QueryEventId("more"); w.subscribe(more, 0); break;
  default: break;
  }
  w.sim.Restore("dir");
  w.subs = was;
  sym_check(w.em->QueryEventId("own") == own, "the identifier is the same");
  sym_check(w.em->QueryEventId("SMP_PreSimTimeChange") == EM::SMP_PreSimTimeChangeId, "also the predefined ones");
  if (extra) { w.emit(more, false); sym_check(w.em->QueryEventId("more") != own, "a new identifier"); }
  w.emit(e[0]);
  w.emit(e[1]);
  w.unsubscribe(was[0].first, was[0].second);
  w.emit(was[0].first);
  sym_witness("done");
}
// two threads that ask for names
ENTRY(p29_threads_query) {
  W w(2);
  EId a = 0, b = 0;
  const bool same = sym_choose("same name", 2);
  Res ra = OTHER, rb = OTHER;
  std::thread th([&] { a = w.em->QueryEventId("x"); ra = call([&] { w.em->Subscribe(a, w.ep[0]); }); });
  b = w.em->QueryEventId(same ? "x" : "y");
  rb = call([&] { w.em->Subscribe(b, w.ep[1]); });
  th.join();
  sym_check((a == b) == same && a > 19 && b > 19, "one identifier for each name");
  sym_check(ra == OK && rb == OK, "an identifier can be used as soon as it is known");
  sym_check(w.em->QueryEventId("x") == a && w.em->QueryEventId(same ? "x" : "y") == b, "and stays the same");
  w.em->Emit(a);
  sym_check(w.ran.size() == (same ? 2 : 1), "the subscribed entry points run");
  sym_witness("done");
}
// one thread emits, the other changes the subscriptions
ENTRY(p29_threads_emit) {
  W w(2);
  const EId e = w.em->QueryEventId("x");
  std::mutex m;
  int n[2] = {0, 0};
  w.inside = nullptr;
  Xsmp::EntryPoint p0("p0", "", &w.sim, [&] { std::scoped_lock l(m); n[0]++; }), p1("p1", "", &w.sim, [&] { std::scoped_lock l(m); n[1]++; });
  w.em->Subscribe(e, &p0);
  const int op = (int)sym_choose("call", 4);
  Res r = OTHER;
  std::thread th([&] {
    r = call([&] {
      if (op == 0) w.em->Subscribe(e, &p1);
      if (op == 1) w.em->Unsubscribe(e, &p0);
      if (op == 2) w.em->Emit(e);
      if (op == 3) w.em->Subscribe(w.em->QueryEventId("y"), &p1);
    });
  });
  w.em->Emit(e);
  th.join();
  sym_check(r == OK, "the call succeeds");
  const int a = n[0], b = n[1];
  sym_check(op == 1 ? a <= 1 : a == (op == 2 ? 2 : 1), "the subscriber runs once for each emission");
  sym_check(op == 0 ? b <= 1 : b == 0, "a new one at most once");
  w.em->Emit(e);
  sym_check(n[0] == a + (op != 1) && n[1] == b + (op == 0), "the next emission reaches exactly those that are subscribed");
  sym_witness("done");
}
