// P30: the link registry counts links exactly.
// SOURCES: src/Xsmp/Services/XsmpLinkRegistry.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// ENTRY p30_history quick=3 thorough=4 weight=3
// ENTRY p30_repeat
// ENTRY p30_drop
// ENTRY p30_real
// ENTRY p30_threads --preempt=2 --races
// ENTRY p30_threads_target --preempt=1 --races
#include "hlib.h"
#include <Smp/ILinkingComponent.h>
#include <Smp/IPublication.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Model.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <functional>
#include <thread>
#include <vector>
using Reg = Xsmp::Services::XsmpLinkRegistry;
namespace {
// a component that cannot drop its links
struct Plain : virtual Smp::IComponent {
  const char *name;
  explicit Plain(const char *n) : name(n) {}
  Smp::String8 GetName() const override { return name; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
  Smp::ComponentStateKind GetState() const override { return Smp::ComponentStateKind::CSK_Created; }
  void Publish(Smp::IPublication *) override {}
  void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {}
  void Connect(Smp::ISimulator *) override {}
  void Disconnect() override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::OperationCollection *GetOperations() const { return nullptr; }
  const Smp::Uuid &GetUuid() const override { static Smp::Uuid u; return u; }
};
struct Dropper final : Plain, virtual Smp::ILinkingComponent {
  using Plain::Plain;
  std::function<void(const Smp::IComponent *)> drop;
  int asked = 0;
  Smp::String8 GetName() const override { return name; }
  void RemoveLinks(const Smp::IComponent *t) override { asked++; if (drop) drop(t); }
};
const char *names[] = {"a", "b", "c"};
bool has(const Smp::ComponentCollection *c, const Smp::IComponent *x) {
  bool r = false;
  for (auto *e : *c) r |= static_cast<const Smp::IComponent *>(e) == x;
  return r;
}
}
ENTRY(p30_history) {
  Reg reg("links", "", nullptr, nullptr);
  // the third component cannot drop its links; two may bear the same name (they are from different places)
  const bool twins = sym_choose("same names", 2);
  Dropper d0("a"), d1(twins ? "a" : "b");
  Plain p2("c");
  Smp::IComponent *c[3] = {&d0, &d1, &p2};
  int count[3][3] = {};
  const int n = (int)sym_bound(3);
  for (auto i = 0; i < 2; i++) {
    Dropper *me = i ? &d1 : &d0;
    me->drop = [&, i](const Smp::IComponent *t) {
      for (int j = 0; j < 3; j++) if (c[j] == t) {
        sym_check(count[i][j] > 0, "only a source of links to the component is asked to drop them");
        while (count[i][j] > 0) { sym_check(reg.RemoveLink(c[i], t), "dropped"); count[i][j]--; }
      }
    };
  }
  for (int k = 0; k < n; k++) {
    const int op = (int)sym_choose("call", 3);
    const int j = (int)sym_choose("target", 3), i = op < 2 ? (int)sym_choose("source", 3) : 0;
    if (op == 0) { reg.AddLink(c[i], c[j]); count[i][j]++; }
    else if (op == 1) { sym_check(reg.RemoveLink(c[i], c[j]) == (count[i][j] > 0), "a link is removed exactly when there is one"); if (count[i][j]) count[i][j]--; }
    else { reg.RemoveLinks(c[j]); sym_check(count[0][j] == 0 && count[1][j] == 0, "every source that can is asked to drop its links"); }
  }
  for (int j = 0; j < 3; j++) {
    const auto *s = reg.GetLinkSources(c[j]);
    std::size_t m = 0;
    for (int i = 0; i < 3; i++) {
      sym_check(reg.GetLinkCount(c[i], c[j]) == (unsigned)count[i][j], "the links are counted");
      sym_check(has(s, c[i]) == (count[i][j] > 0), "the sources are those with a link");
      m += count[i][j] > 0;
    }
    sym_check(s->size() == m, "each source once");
    sym_check(s->GetParent() == &reg, "the collection belongs to the registry");
    sym_check(reg.CanRemove(c[j]) == (count[2][j] == 0), "a component can be removed when its sources can drop their links");
    sym_check(reg.GetLinkSources(c[j]) == s, "the same collection");
  }
  sym_witness("done");
}
// many links between the same two
ENTRY(p30_repeat) {
  Reg reg("links", "", nullptr, nullptr);
  Dropper a("a"), b("b");
  const unsigned m = (unsigned)sym_choose("added", 6), k = (unsigned)sym_choose("removed", 7);
  for (unsigned i = 0; i < m; i++) { reg.AddLink(&a, &b); sym_check(reg.GetLinkCount(&a, &b) == i + 1, "counted up"); }
  unsigned done = 0;
  for (unsigned i = 0; i < k; i++) done += reg.RemoveLink(&a, &b);
  sym_check(done == (m < k ? m : k), "as many are removed as were added");
  sym_check(reg.GetLinkCount(&a, &b) == m - done && reg.GetLinkCount(&b, &a) == 0, "the rest is counted");
  sym_check(reg.GetLinkSources(&b)->size() == (m > done), "a source until its last link is gone");
  reg.AddLink(&a, &b);
  sym_check(reg.GetLinkCount(&a, &b) == m - done + 1 && reg.GetLinkSources(&b)->size() == 1, "and again");
  sym_witness("done");
}
// a source that is asked may drop the links of other sources, or go away with them
ENTRY(p30_drop) {
  Reg reg("links", "", nullptr, nullptr);
  Dropper *d[3] = {new Dropper("a"), new Dropper("b"), new Dropper("c")};
  Plain t("t");
  int links[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) { links[i] = (int)sym_choose("links", 3); for (int k = 0; k < links[i]; k++) reg.AddLink(d[i], &t); }
  const int who = (int)sym_choose("who", 3), on = (int)sym_choose("on", 3), keep = (int)sym_choose("keeps", 4);
  int asked[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) d[i]->drop = [&, i](const Smp::IComponent *x) {
    sym_check(x == &t, "for the component to be removed");
    asked[i]++;
    if (i != keep) while (reg.RemoveLink(d[i], x)) {}
    if (i == who && on != who) {
      while (reg.RemoveLink(d[on], x)) {}
      if (d[on]) { delete d[on]; d[on] = nullptr; }
    }
  };
  reg.RemoveLinks(&t);
  for (int i = 0; i < 3; i++) {
    const bool gone = on != who && i == on && !d[i];
    if (gone) { sym_check(asked[i] <= 1, "asked once"); continue; }
    sym_check(asked[i] == (links[i] > 0), "each source is asked once");
    sym_check(reg.GetLinkCount(d[i], &t) == (i == keep ? (unsigned)links[i] : 0), "its links are gone");
  }
  sym_check(reg.GetLinkSources(&t)->size() == (keep < 3 && links[keep] > 0 && d[keep]), "no other source is left");
  for (auto *x : d) delete x;
  sym_witness("done");
}
// real components drop their references
namespace {
struct Comp final : Xsmp::Model, virtual Xsmp::Aggregate {
  Xsmp::Reference<Smp::IComponent> ref{"ref", "", static_cast<Xsmp::Aggregate *>(this), 0, -1};
  Reg *reg;
  Comp(const char *n, Reg *r) : Xsmp::Model(n, "", nullptr, nullptr), reg(r) {}
  void link(Smp::IComponent *t) { ref.AddComponent(t); reg->AddLink(this, t); }
  void RemoveLinks(const Smp::IComponent *t) override { Xsmp::Model::RemoveLinks(t); while (reg->RemoveLink(this, t)) {} }
};
}
ENTRY(p30_real) {
  Reg reg("links", "", nullptr, nullptr);
  const bool twins = sym_choose("same names", 2);
  Comp a("a", &reg), b(twins ? "a" : "b", &reg), t("t", &reg);
  Comp *c[3] = {&a, &b, &t};
  unsigned n[3][3] = {};
  for (int k = 0; k < 3; k++) { const int i = (int)sym_choose("source", 2), j = (int)sym_choose("target", 3); c[i]->link(c[j]); n[i][j]++; }
  sym_check(reg.CanRemove(&t), "components drop their links");
  reg.RemoveLinks(&t);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    sym_check(reg.GetLinkCount(c[i], c[j]) == (j == 2 ? 0 : n[i][j]), "the links to the component are gone, and no others");
  }
  for (int i = 0; i < 2; i++) { sym_check(c[i]->ref.find(&t) == c[i]->ref.end(), "no reference to it is left"); sym_check(c[i]->ref.size() == n[i][0] + n[i][1], "the other references stay"); }
  sym_check(reg.GetLinkSources(&t)->size() == 0, "no source is left");
  sym_witness("done");
}
// two threads adding and removing
ENTRY(p30_threads) {
  Reg reg("links", "", nullptr, nullptr);
  Dropper a("a"), b("b");
  const unsigned was = (unsigned)sym_choose("before", 3);
  for (unsigned i = 0; i < was; i++) reg.AddLink(&a, &b);
  const bool add0 = sym_choose("adds", 2), add1 = sym_choose("other adds", 2);
  bool r0 = false, r1 = false;
  auto work = [&](bool add, bool &r) { if (add) reg.AddLink(&a, &b); else r = reg.RemoveLink(&a, &b); };
  std::thread th([&] { work(add0, r0); });
  work(add1, r1);
  th.join();
  const unsigned now = was + add0 + add1 - r0 - r1;
  sym_check(was == 0 || add0 + r0 + add1 + r1 == 2 || was == 1, "removal fails only without a link");
  if (was + add0 + add1 >= 2u && was >= 1 && !add0 && !add1 && was == 2) sym_check(r0 && r1, "both are removed");
  if (was == 1 && !add0 && !add1) sym_check(r0 != r1, "one of the two removes the only link");
  sym_check(reg.GetLinkCount(&a, &b) == now, "the links are counted");
  const auto *s = reg.GetLinkSources(&b);
  sym_check(s->size() == (now > 0) && has(s, &a) == (now > 0), "a source is listed exactly when it has a link");
  sym_check(reg.CanRemove(&b), "still usable");
  sym_witness("done");
}
ENTRY(p30_threads_target) {
  Reg reg("links", "", nullptr, nullptr);
  Dropper a("a"), b("b");
  Plain t("t");
  reg.AddLink(&a, &t);
  a.drop = [&](const Smp::IComponent *x) { while (reg.RemoveLink(&a, x)) {} };
  b.drop = [&](const Smp::IComponent *x) { while (reg.RemoveLink(&b, x)) {} };
  const int op = (int)sym_choose("call", 4);
  const Smp::ComponentCollection *s = nullptr;
  std::thread th([&] { reg.AddLink(&b, &t); });
  switch (op) {
  case 0: s = reg.GetLinkSources(&b); break;
  case 1: sym_check(reg.CanRemove(&t), "links can be dropped"); break;
  case 2: reg.RemoveLinks(&t); break;
  default: { unsigned n = reg.GetLinkCount(&b, &t); sym_check(n <= 1, "counted"); break; }
  }
  th.join();
  sym_check(!s || s->size() == 0, "no source of that component");
  const auto *l = reg.GetLinkSources(&t);
  sym_check(has(l, &a) == (reg.GetLinkCount(&a, &t) == 1) && has(l, &a) == (op != 2), "the first source");
  sym_check(has(l, &b) == (reg.GetLinkCount(&b, &t) == 1) && (has(l, &b) || op == 2), "the second source");
  sym_witness("done");
}
