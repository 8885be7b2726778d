// P17: lifecycle of components and their user hooks.
// SOURCES: src/Xsmp/Tests/ModelWithOperations.cpp src-gen/Xsmp/Tests/ModelWithOperationsGen.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// ENTRY p17_plain quick=6 thorough=7
// ENTRY p17_hooks quick=6 thorough=7 weight=2
// ENTRY p17_hooks_short quick=6 thorough=7
// ENTRY p17_hooks_mixed quick=6 thorough=7
// ENTRY p17_generated quick=6 thorough=7
// ENTRY p17_features
#include "fieldlib.h"
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidOperationName.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Service.h>
#include "Xsmp/Publication/Publication.h"
#include "Xsmp/Tests/ModelWithOperations.h"
#include <string.h>
using namespace Xsmp;
using K = Smp::ComponentStateKind;

namespace {
int hooks[4]; // Publish, Configure, Connect, Disconnect
K seen[4];
const void *got[4];
// A generated-like base and a user class with hooks of every allowed signature.
template <class Base, class User> struct Gen : Base {
  using Base::Base;
  void Publish(Smp::IPublication *p) override { Base::Publish(p); Component::Helper::Publish<User>(static_cast<User *>(this), p); }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) override { Base::Configure(l, r); Component::Helper::Configure<User>(static_cast<User *>(this), l, r); }
  void Connect(Smp::ISimulator *s) override { Base::Connect(s); Component::Helper::Connect<User>(static_cast<User *>(this), s); }
  void Disconnect() override { Component::Helper::Disconnect<User>(static_cast<User *>(this)); Base::Disconnect(); }
};
#define NOTE(i, a) hooks[i]++, seen[i] = this->GetState(), got[i] = a
struct Full : Gen<Model, Full> {
  using Gen::Gen;
  void DoPublish(Smp::IPublication *p) { NOTE(0, p); }
  void DoConfigure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) { NOTE(1, l ? (const void *)l : r); }
  void DoConnect(Smp::ISimulator *s) { NOTE(2, s); }
  void DoDisconnect() { NOTE(3, nullptr); }
};
struct Short : Gen<Service, Short> {
  using Gen::Gen;
  void DoPublish() { NOTE(0, nullptr); }
  void DoConfigure() { NOTE(1, nullptr); }
  void DoConnect() { NOTE(2, nullptr); }
};
struct Mixed : Gen<Component, Mixed> {
  using Gen::Gen;
  void DoPublish() { NOTE(0, nullptr); }
  void DoConfigure(Smp::Services::ILogger *l) { NOTE(1, l); }
};
struct Mixed2 : Gen<Component, Mixed2> {
  using Gen::Gen;
  void DoConfigure(Smp::Services::ILinkRegistry *r) { NOTE(1, r); }
  void DoDisconnect() { NOTE(3, nullptr); }
};
struct Plain : Component { using Component::Component; };

struct Peek : Component { static Smp::ISimulator *of(const Component &c) { return (c.*(&Peek::GetSimulator))(); } };

char fakeLogger[8], fakeRegistry[8], fakeSim[8];
template <class C> void history(C &c, Smp::IPublication *pub, const bool (&has)[4], const void *(&arg)[4]) {
  K st = K::CSK_Created;
  int want[4] = {0, 0, 0, 0};
  const K from[4] = {K::CSK_Created, K::CSK_Publishing, K::CSK_Configured, K::CSK_Connected};
  const K to[4] = {K::CSK_Publishing, K::CSK_Configured, K::CSK_Connected, K::CSK_Disconnected};
  auto *lg = reinterpret_cast<Smp::Services::ILogger *>(fakeLogger);
  auto *lr = reinterpret_cast<Smp::Services::ILinkRegistry *>(fakeRegistry);
  auto *si = reinterpret_cast<Smp::ISimulator *>(fakeSim);
  const int n = (int)sym_bound(5);
  for (int s = 0; s < n; s++) {
    unsigned k = (unsigned)sym_choose("call", 4);
    int before[4] = {hooks[0], hooks[1], hooks[2], hooks[3]};
    bool refused = false;
    try {
      switch (k) {
      case 0: c.Publish(pub); break;
      case 1: c.Configure(lg, lr); break;
      case 2: c.Connect(si); break;
      default: c.Disconnect(); break;
      }
    } catch (const Smp::InvalidComponentState &) { refused = true; }
    sym_check(refused == (st != from[k]), "a call succeeds exactly from its documented state");
    if (!refused) {
      st = to[k];
      if (has[k]) {
        want[k]++;
        sym_check(hooks[k] == before[k] + 1, "the user hook runs exactly once");
        sym_check(k == 3 ? seen[k] == K::CSK_Connected : seen[k] == to[k], "the hook runs in the state entered (for the disconnection, before it is left)");
        sym_check(got[k] == arg[k], "the hook is given what the call was given");
      }
      for (unsigned i = 0; i < 4; i++) if (i != k) sym_check(hooks[i] == before[i], "no other hook runs");
    } else
      for (unsigned i = 0; i < 4; i++) if (i != 3 || k != 3) sym_check(hooks[i] == before[i], "a refused call runs no hook");
    sym_check(c.GetState() == st, "the state is the documented one");
    sym_check(Peek::of(c) == (st == K::CSK_Connected ? si : nullptr), "the simulator is known exactly while connected");
  }
}
}
ENTRY(p17_plain) {
  fl::Types t;
  Plain c("c");
  Publication::Publication p(&c, &t.reg);
  const void *arg[4] = {};
  history(c, &p, {false, false, false, false}, arg);
}
ENTRY(p17_hooks) {
  fl::Types t;
  Full c("c");
  Publication::Publication p(&c, &t.reg);
  const void *arg[4] = {static_cast<Smp::IPublication *>(&p), fakeLogger, fakeSim, nullptr};
  history(c, &p, {true, true, true, true}, arg);
}
ENTRY(p17_hooks_short) {
  fl::Types t;
  Short c("c", "", nullptr, nullptr);
  Publication::Publication p(&c, &t.reg);
  const void *arg[4] = {};
  history(c, &p, {true, true, true, false}, arg);
}
ENTRY(p17_hooks_mixed) {
  fl::Types t;
  if (sym_choose("class", 2)) {
    Mixed c("c");
    Publication::Publication p(&c, &t.reg);
    const void *arg[4] = {nullptr, fakeLogger, nullptr, nullptr};
    history(c, &p, {true, true, false, false}, arg);
  } else {
    Mixed2 c("c");
    Publication::Publication p(&c, &t.reg);
    const void *arg[4] = {nullptr, fakeRegistry, nullptr, nullptr};
    history(c, &p, {false, true, false, true}, arg);
  }
}
// A model made by the code generator.
ENTRY(p17_generated) {
  fl::Types t;
  Tests::ModelWithOperations c("c", "", nullptr, nullptr);
  Publication::Publication p(&c, &t.reg);
  const void *arg[4] = {};
  history(c, &p, {false, false, false, false}, arg);
}
// What a component offers before and after publication.
ENTRY(p17_features) {
  fl::Types t;
  Plain c("c", "text");
  Publication::Publication p(&c, &t.reg);
  sym_check(!strcmp(c.GetName(), "c") && !strcmp(c.GetDescription(), "text") && !c.GetParent(), "name, description and parent");
  sym_check(!c.GetFields() && !c.GetField("x") && !c.GetOperations() && !c.GetProperties() && !c.CreateRequest("op"), "nothing is offered before publication");
  bool refused = false;
  try { c.Publish(nullptr); } catch (const Smp::Exception &) { refused = true; }
  sym_check(refused && c.GetState() == K::CSK_Created, "publication without receiver is refused");
  c.Publish(&p);
  p.PublishOperation("op", "", Smp::ViewKind::VK_None);
  sym_check(c.GetFields() == p.GetFields() && c.GetOperations() == p.GetOperations() && c.GetProperties() == p.GetProperties(), "what was published is offered");
  Smp::IRequest *r = c.CreateRequest("op");
  sym_check(r && !strcmp(r->GetOperationName(), "op"), "a request for a published operation");
  sym_check(!c.CreateRequest("oq") && !c.CreateRequest(nullptr) && !c.CreateRequest("get_x"), "no request for an unknown operation");
  bool no = false;
  try { c.Invoke(r); } catch (const Smp::InvalidOperationName &) { no = true; }
  sym_check(no, "an operation without invocation support is refused");
  c.DeleteRequest(r);
  c.DeleteRequest(nullptr);
}
