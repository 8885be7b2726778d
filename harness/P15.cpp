// P15: containers.
// SOURCES: src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// ENTRY p15_history quick=4 thorough=5 weight=3
// ENTRY p15_two_containers quick=4 thorough=5 weight=2
// ENTRY p15_duplicate_names
// ENTRY p15_order
// ENTRY p15_lookup
#include "fieldlib.h"
#include <Smp/CannotDelete.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/NotContained.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Model.h>
#include "Xsmp/Publication/Publication.h"
#include <string.h>
#include <string>
#include <vector>
using namespace Xsmp;

namespace {
int alive;
bool deleting;
std::vector<const void *> gone;
struct Face { virtual ~Face() = default; };
struct Other : Model { using Model::Model; };
struct Part : Model, virtual Face {
  bool disconnected = false;
  Part(const char *n, Smp::IComposite *p) : Model(n, "", p, nullptr) { alive++; }
  ~Part() override { alive--; gone.push_back(static_cast<Smp::IComponent *>(this)); if (deleting) sym_check(GetState() != Smp::ComponentStateKind::CSK_Connected, "a connected component is disconnected before it is deleted"); }
  void Disconnect() override { disconnected = true; Model::Disconnect(); }
};
struct Owner : Component, virtual Composite, virtual EntryPointPublisher, virtual EventConsumer, virtual EventProvider, virtual FallibleModel { using Component::Component; };
enum Res { OK, FULL, DUPLICATE, TYPE, DELETE, CONTAINED, PARENT };
template <class F> Res attempt(F f) {
  try { f(); return OK; }
  catch (const Smp::ContainerFull &) { return FULL; }
  catch (const Smp::DuplicateName &) { return DUPLICATE; }
  catch (const Smp::InvalidObjectType &) { return TYPE; }
  catch (const Smp::CannotDelete &) { return DELETE; }
  catch (const Smp::NotContained &) { return CONTAINED; }
  catch (const Smp::Exception &) { return PARENT; }
}
char letters(const char *what) { unsigned char x = (unsigned char)sym_u8(what); sym_assume(((x | 32u) - 'a') < 26u); return (char)x; }
bool connect(Component *c, Publication::Publication *p) { c->Publish(p); c->Configure(nullptr, nullptr); c->Connect(nullptr); return true; }
}
// Every history of additions and deletions under every bound.
ENTRY(p15_history) {
  const std::int64_t lower = sym_srange("lower", 0, 1LL << 62), upper = sym_srange("upper", -1, 1LL << 62);
  fl::Types types;
  Owner owner("owner"), stranger("stranger");
  std::vector<Part *> parts;
  {
    Container<Face> c("parts", "", static_cast<Composite *>(&owner), lower, upper);
    sym_check(c.GetLower() == lower && c.GetUpper() == upper, "the bounds are the ones given");
    std::vector<Part *> in;
    std::vector<Publication::Publication *> pubs;
    const int steps = (int)sym_bound(3);
    for (int s = 0; s < steps; s++) {
      unsigned k = (unsigned)sym_choose("operation", 5);
      if (k == 0) {
        char n[2] = {letters("name"), 0};
        Part *p = new Part(n, &owner);
        parts.push_back(p);
        bool dup = false;
        for (auto *q : in) dup |= q->GetName()[0] == n[0];
        const bool full = upper >= 0 && (std::int64_t)in.size() >= upper;
        Res r = attempt([&] { c.AddComponent(p); });
        if (full) sym_check(r == FULL, "a full container takes no more");
        else sym_check(r == (dup ? DUPLICATE : OK), "an addition is refused exactly for a duplicate name");
        if (r == OK) { in.push_back(p); if (sym_choose("connect it", 2)) { pubs.push_back(new Publication::Publication(p, &types.reg)); connect(p, pubs.back()); } }
        else delete p;
      } else if (k == 1) {
        if (in.empty()) continue;
        std::size_t i = (std::size_t)sym_choose("which", in.size());
        const bool no = (std::int64_t)in.size() <= lower;
        Part *p = in[i];
        std::size_t before = gone.size();
        const void *id = static_cast<Smp::IComponent *>(p);
        deleting = true;
        Res r = attempt([&] { c.DeleteComponent(p); });
        deleting = false;
        sym_check(r == (no ? DELETE : OK), "a contained component is deleted exactly when the lower bound allows it");
        if (r == OK) { sym_check(gone.size() == before + 1 && gone.back() == id, "deletion destroys that component"); in.erase(in.begin() + (long)i); sym_witness("deleted"); }
        else sym_check(gone.size() == before, "a refused deletion destroys nothing");
      } else if (k == 2) {
        Part x("x", &owner);
        sym_check(attempt([&] { c.DeleteComponent(&x); }) == CONTAINED, "only a contained component can be deleted");
      } else if (k == 3) {
        Other x("x", "", &owner);
        sym_check(attempt([&] { c.AddComponent(&x); }) == TYPE && attempt([&] { c.DeleteComponent(&x); }) == CONTAINED, "a component of another type is refused");
      } else {
        Part x("zz", &stranger);
        Res r = attempt([&] { c.AddComponent(&x); });
        sym_check(r == (upper >= 0 && (std::int64_t)in.size() >= upper ? FULL : PARENT), "a component of another parent is refused");
      }
      sym_check(c.GetCount() == (std::int64_t)in.size() && (upper < 0 || c.GetCount() <= upper), "the count is the number of components, at most the upper bound");
      sym_check(c.GetComponents()->size() == in.size(), "the collection has the same size");
      for (std::size_t i = 0; i < in.size(); i++)
        sym_check(c.GetComponent(i) == in[i] && c.GetComponents()->at(i) == in[i] && c.GetComponent(in[i]->GetName()) == in[i] && c.GetComponents()->at(in[i]->GetName()) == in[i], "the components in order of addition");
      sym_check(!c.GetComponent(in.size()) && !c.GetComponents()->at(in.size()), "nothing beyond the components");
      sym_check(alive == (int)in.size(), "exactly the contained components are alive");
    }
    for (auto *p : pubs) (void)p;
    gone.clear();
    sym_observe("count", in.size());
  }
  sym_check(alive == 0, "the container's components go with it, each once");
}
// A component is owned by one container of a composite, and its name is unique among all of them.
ENTRY(p15_two_containers) {
  Owner owner("owner");
  {
    Container<Part> a("a", "", static_cast<Composite *>(&owner), 0, -1), b("b", "", static_cast<Composite *>(&owner), 0, -1);
    Container<Part> *c[2] = {&a, &b};
    std::vector<Part *> in[2];
    const int steps = (int)sym_bound(3);
    for (int s = 0; s < steps; s++) {
      unsigned w = (unsigned)sym_choose("container", 2);
      if (sym_choose("add", 2)) {
        char n[2] = {letters("name"), 0};
        Part *p = new Part(n, &owner);
        bool dup = false;
        for (auto &v : in) for (auto *q : v) dup |= q->GetName()[0] == n[0];
        Res r = attempt([&] { c[w]->AddComponent(p); });
        sym_check(r == (dup ? DUPLICATE : OK), "a name is unique among all containers of a composite");
        if (r == OK) in[w].push_back(p); else delete p;
      } else {
        unsigned o = (unsigned)sym_choose("from", 2);
        if (in[o].empty()) continue;
        Part *p = in[o].back();
        Res r = attempt([&] { c[w]->DeleteComponent(p); });
        sym_check(r == (o == w ? OK : CONTAINED), "only its own container deletes a component");
        if (r == OK) in[o].pop_back();
      }
      sym_check(a.size() == in[0].size() && b.size() == in[1].size() && alive == (int)(in[0].size() + in[1].size()), "each container has its own components");
    }
    if (in[0].size()) {
      Part *p = in[0][0];
      sym_check(attempt([&] { a.AddComponent(p); }) == DUPLICATE && attempt([&] { b.AddComponent(p); }) == DUPLICATE, "a contained component is not added again");
    }
    sym_check(owner.GetContainers()->size() == 2 && owner.GetContainer("a") == &a && owner.GetContainer("b") == &b && !owner.GetContainer("c"), "the composite knows its containers");
  }
  sym_check(alive == 0, "the components go with their containers, each once");
}
// A component's name is not that of another child of the composite; a parent that has already published its features takes components as before.
ENTRY(p15_duplicate_names) {
  fl::Types types;
  Owner owner("owner");
  char n[2] = {letters("name"), 0}, m[2] = {letters("child name"), 0};
  Publication::Publication pub(&owner, &types.reg);
  Smp::Int32 value = 0;
  bool published = sym_choose("published", 2);
  if (published) owner.Publish(&pub);
  EntryPoint *ep = nullptr; EventSource<> *src = nullptr; EventSink<> *sink = nullptr; Field<Smp::Int32>::failure *f = nullptr;
  switch (sym_choose("child", published ? 8 : 5)) {
  case 0: break;
  case 1: ep = new EntryPoint(m, "", static_cast<EntryPointPublisher *>(&owner), [] {}); break;
  case 2: src = new EventSource<>(m, "", static_cast<EventProvider *>(&owner)); break;
  case 3: sink = new EventSink<>(m, "", static_cast<EventConsumer *>(&owner), [](Smp::IObject *) {}); break;
  case 4: f = new Field<Smp::Int32>::failure(&types.reg, Smp::Uuids::Uuid_Int32, m, "", &owner); break;
  case 5: pub.PublishField(m, "", &value); break;
  case 6: pub.PublishOperation(m, "", Smp::ViewKind::VK_All); break;
  default: pub.PublishProperty(m, "", Smp::Uuids::Uuid_Int32, Smp::AccessKind::AK_ReadOnly); break;
  }
  const bool child = ep || src || sink || f || (published && (pub.GetFields()->size() || pub.GetOperations()->size() || pub.GetProperties()->size()));
  {
    Container<Part> c("c", "", static_cast<Composite *>(&owner), 0, -1);
    Part *p = new Part(n, &owner);
    Res r = attempt([&] { c.AddComponent(p); });
    sym_check(r == (child && n[0] == m[0] ? DUPLICATE : OK), "an addition is refused exactly when another child of the parent has that name");
    if (r != OK) delete p;
  }
  sym_check(alive == 0, "the component goes once");
}
// Components go in the reverse order of their addition.
ENTRY(p15_order) {
  Owner owner("owner");
  Part *a = nullptr, *b = nullptr, *d = nullptr;
  unsigned del = (unsigned)sym_choose("delete first", 4);
  const void *pa, *pb, *pd;
  {
    Container<Part> c("c", "", static_cast<Composite *>(&owner), 0, -1);
    c.AddComponent(a = new Part("a", &owner)); c.AddComponent(b = new Part("b", &owner)); c.AddComponent(d = new Part("d", &owner));
    pa = static_cast<Smp::IComponent *>(a); pb = static_cast<Smp::IComponent *>(b); pd = static_cast<Smp::IComponent *>(d);
    if (del == 1) c.DeleteComponent(a);
    if (del == 2) c.DeleteComponent(b);
    if (del == 3) c.DeleteComponent(d);
    gone.clear();
  }
  std::vector<const void *> want;
  if (del != 3) want.push_back(pd);
  if (del != 2) want.push_back(pb);
  if (del != 1) want.push_back(pa);
  sym_check(gone == want, "every contained component is destroyed once, the last added first");
  gone.clear();
  gone.shrink_to_fit();
}
// Access to the components through the container itself.
ENTRY(p15_lookup) {
  Owner owner("owner");
  char n[2][2] = {{letters("name"), 0}, {letters("name"), 0}};
  sym_assume(n[0][0] != n[1][0]);
  {
    Container<Part> c("c", "", static_cast<Composite *>(&owner), 0, 2);
    Part *p[2] = {new Part(n[0], &owner), new Part(n[1], &owner)};
    sym_check(c.empty() && c.begin() == c.end(), "a new container is empty");
    c.AddComponent(p[0]); c.AddComponent(p[1]);
    sym_check(c.size() == 2 && c[0] == p[0] && c[1] == p[1] && c[n[0]] == p[0] && c[n[1]] == p[1], "by index and by name");
    SymStr q(2, "query", true);
    Smp::IComponent *want = q.n != 1 ? nullptr : q.p[0] == n[0][0] ? p[0] : q.p[0] == n[1][0] ? p[1] : nullptr;
    sym_check(c.GetComponent(q.p) == want && c.GetComponents()->at(q.p) == want, "a name gives the component of that name, or nothing");
    std::uint64_t i = sym_u64("index");
    sym_check(c.GetComponent((std::size_t)i) == (i == 0 ? p[0] : i == 1 ? p[1] : nullptr), "an index gives the component there, or nothing");
    std::size_t k = 0;
    for (auto *x : c) sym_check(x == p[k++], "iteration in order");
    for (auto it = c.rbegin(); it != c.rend(); ++it) sym_check(*it == p[--k], "iteration in reverse order");
    sym_check(!strcmp(c.GetName(), "c") && c.GetParent() == &owner && c.GetComponents()->GetParent() == &c, "its place in the tree");
  }
}
