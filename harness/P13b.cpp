// P13: paths of objects and their resolution, in a tree of real objects under the real simulator.
// SOURCES: src/Xsmp/Helper.cpp src/Xsmp/cstring.cpp src/Xsmp/Exception.cpp src/Xsmp/Simulator.cpp src/Xsmp/Field.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Services/XsmpResolver.cpp
// ENTRY p13_path_resolve quick=1 thorough=2 weight=3
// ENTRY p13_path_items
// ENTRY p13_path_unknown quick=2 thorough=3 weight=2
// ENTRY p13_path_up
// ENTRY p13_resolver
// ENTRY p13_path_reference
#include "fieldlib.h"
#include <Smp/IFailure.h>
#include <Smp/InvalidFieldName.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Reference.h>
#include "Xsmp/Services/XsmpResolver.h"
#include "Xsmp/Simulator.h"
#include "Xsmp/Publication/Publication.h"
#include <string>
using namespace Xsmp;

namespace {
bool letter(unsigned char c) { return ((c | 32u) - 'a') < 26u; }
// a name of 1..max symbolic characters, a letter and letters or digits
struct Name : std::string {
  Name(unsigned max, const char *what) {
    unsigned n = 1 + (max > 1 ? (unsigned)sym_choose("length", max) : 0);
    char b[4] = {0, 0, 0, 0};
    sym_bytes(b, n, what);
    for (unsigned i = 0; i < n; i++) { unsigned char c = (unsigned char)b[i]; bool dig = (c - '0') + 0u < 10u; sym_assume(letter(c) | (bool)(dig & (i > 0))); }
    assign(b, n);
  }
};
struct Mod : Model, virtual Composite, virtual Aggregate, virtual EntryPointPublisher, virtual EventConsumer, virtual EventProvider, virtual FallibleModel {
  Container<Mod> children;
  Reference<Mod> ref;
  Mod(const char *n, Smp::IComposite *parent)
      : Model(n, "", parent, nullptr), children("kids", "", static_cast<Composite *>(this), 0, -1), ref("refs", "", static_cast<Aggregate *>(this), 0, -1) {}
  const Smp::Uuid &GetUuid() const override { static Smp::Uuid u{}; return u; }
};
struct Tree {
  fl::Types types;
  Simulator sim;
  Mod *top, *kid, *other;
  Tree(const char *t, const char *k, const char *o) {
    top = new Mod(t, &sim);
    sim.AddModel(top);
    kid = new Mod(k, top);
    other = new Mod(o, top);
    top->children.AddComponent(other);
    top->children.AddComponent(kid);
  }
};
Smp::IObject *abs(Tree &t, const std::string &p) { return Helper::Resolve(static_cast<Smp::IObject *>(&t.sim), p.c_str()); }
}

// The path of an element of a component is its chain of names, and resolves to that element.
ENTRY(p13_path_resolve) {
  unsigned m = (unsigned)sym_bound(1);
  Name a(1, "top name"), b(m, "kid name"), c(1, "sibling name"), e(m, "element name");
  sym_assume(b != c);
  Tree t(a.c_str(), b.c_str(), c.c_str());
  sym_check(Helper::GetPath(nullptr) == "<null>", "the path of no object");
  sym_check(Helper::GetPath(&t.sim) == "/", "the path of the simulator");
  sym_check(abs(t, "/") == &t.sim, "the root resolves to the simulator");
  sym_check(Helper::GetPath(t.top) == "/" + a, "the path of a top level component");
  sym_check(abs(t, "/" + a) == t.top, "the path of a top level component resolves to it");
  const std::string kp = "/" + a + "/" + b;
  sym_check(Helper::GetPath(t.kid) == kp, "the path of a nested component");
  sym_check(abs(t, kp) == t.kid, "the path of a nested component resolves to it");
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(t.top), b.c_str()) == t.kid, "its name resolves it from its parent");
  Smp::IObject *o = nullptr;
  EventSink<> *sink = nullptr;
  EntryPoint *ep = nullptr;
  EventSource<> *src = nullptr;
  Field<Smp::Int32>::failure *f = nullptr;
  switch (sym_choose("element", 4)) {
  case 0: o = ep = new EntryPoint(e.c_str(), "", static_cast<EntryPointPublisher *>(t.kid), [] {}); break;
  case 1: o = sink = new EventSink<>(e.c_str(), "", static_cast<EventConsumer *>(t.kid), [](Smp::IObject *) {}); break;
  case 2: o = src = new EventSource<>(e.c_str(), "", static_cast<EventProvider *>(t.kid)); break;
  default: o = f = new Field<Smp::Int32>::failure(&t.types.reg, Smp::Uuids::Uuid_Int32, e.c_str(), "", t.kid); break;
  }
  const std::string ep2 = kp + "." + e;
  sym_check(Helper::GetPath(o) == ep2, "the path of an element of a component");
  sym_check(abs(t, ep2) == o, "the path of an element resolves to it");
  sym_check(abs(t, kp + "/" + e) == o, "an element is reached with a slash as well");
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(t.kid), e.c_str()) == o, "its name resolves it from its component");
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(t.top), (b + "." + e).c_str()) == o, "its relative path resolves it");
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(t.top), ("./" + b + "/./" + e).c_str()) == o, "'.' stays at the same object");
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(t.other), ("../" + b + "." + e).c_str()) == o, "'..' goes to the parent");
  if (o == sink || o == ep || o == src || o == f) sym_witness("resolved");
  delete ep; delete src; delete f;
  // the sink stays in its collection until the component goes
}
// Fields published by a component, their members and items.
ENTRY(p13_path_items) {
  Name a(1, "top name"), b(1, "kid name"), e(1, "field name");
  Tree t(a.c_str(), b.c_str(), b == "Z" ? "Y" : "Z");
  Publication::Publication pub(t.kid, &t.types.reg);
  Field<fl::St> s(&t.types.reg, fl::id(3), e.c_str(), "", t.kid);
  Field<fl::SArr> n(&t.types.reg, fl::id(2), e == "N" ? "M" : "N", "", t.kid);
  t.kid->Publish(&pub);
  pub.PublishField(&s);
  pub.PublishField(&n);
  unsigned i = (unsigned)sym_choose("item", 2);
  const std::string base = "/" + a + "/" + b + "." + e, ix = i ? "[1]" : "[0]", ng = i ? "[-1]" : "[-2]";
  sym_check(Helper::GetPath(&s) == base && abs(t, base) == &s, "a structure field");
  sym_check(Helper::GetPath(&s.p) == base + ".p" && abs(t, base + ".p") == &s.p, "a member of a structure");
  sym_check(Helper::GetPath(s.q.GetItem(i)) == base + ".q" + ix && abs(t, base + ".q" + ix) == s.q.GetItem(i), "an item of an array");
  sym_check(abs(t, base + ".q" + ng) == s.q.GetItem(i), "a negative index counts from the end");
  sym_check(!abs(t, base + ".q[2]") && !abs(t, base + ".q[-3]") && !abs(t, base + ".q[]") && !abs(t, base + ".q[x]") && !abs(t, base + ".q[0x]") && !abs(t, base + ".q[0")
            && !abs(t, base + ".q[99999999999999999999]"), "an index outside the array or malformed gives nothing");
  sym_check(!abs(t, base + ".r") && !abs(t, base + ".p.x") && !abs(t, base + ".p[0]"), "an unknown member gives nothing");
  sym_check(pub.GetField((e + ".q" + ix).c_str()) == s.q.GetItem(i), "a full field name gives the item");
  sym_check(Helper::Resolve(static_cast<Smp::IField *>(s.q.GetItem(i)), "../../p") == &s.p, "'..' goes from a field to its parent");
  sym_check(Helper::GetPath(&n) == "/" + a + "/" + b + "." + n.GetName() && abs(t, Helper::GetPath(&n)) == &n, "a simple array field");
  const char *wrong[] = {"", "zz", "zz.p"};
  const char *w = wrong[sym_choose("wrong", 3)];
  bool refused = false;
  try { pub.GetField(w); } catch (const Smp::InvalidFieldName &) { refused = true; }
  sym_check(refused, "an unknown field name is refused");
}
// A name that no object bears gives nothing.
ENTRY(p13_path_unknown) {
  Name b(1, "kid name"), e(1, "element name");
  Tree t("T", b.c_str(), b == "Z" ? "Y" : "Z");
  EntryPoint *ep = new EntryPoint(e.c_str(), "", static_cast<EntryPointPublisher *>(t.kid), [] {});
  SymStr q((unsigned)sym_bound(2), "segment");
  for (unsigned i = 0; i < q.n; i++) sym_assume((q.p[i] != '/') & (q.p[i] != '.') & (q.p[i] != '[') & (q.p[i] != '_'));
  const std::string s(q.p, q.n);
  Smp::IObject *o = Helper::Resolve(static_cast<Smp::IObject *>(t.kid), s.c_str());
  sym_check(o == (q.n == 0 ? static_cast<Smp::IObject *>(t.kid) : s == e ? static_cast<Smp::IObject *>(ep) : nullptr), "a segment resolves to the element of that name and to nothing otherwise");
  o = Helper::Resolve(static_cast<Smp::IObject *>(t.top), s.c_str());
  Smp::IObject *want = q.n == 0 ? static_cast<Smp::IObject *>(t.top) : s == b ? static_cast<Smp::IObject *>(t.kid) : s == t.other->GetName() ? static_cast<Smp::IObject *>(t.other) : nullptr;
  sym_check(o == want, "a segment resolves to the component of that name and to nothing otherwise");
  sym_check(!q.n || !Helper::Resolve(static_cast<Smp::IObject *>(t.kid), (e + "/" + s).c_str()), "nothing lies below an entry point");
  delete ep;
}
// Going up, above the root, and from or to nothing.
ENTRY(p13_path_up) {
  Tree t("T", "K", "O");
  t.other->ref.AddComponent(t.kid);
  static const struct { const char *path; int what; } cases[] = {
    {"..", 1}, {"../", 1}, {"./..", 1}, {"../..", 2}, {"../../", 2}, {"../../..", 0}, {"../../../..", 0}, {"../../../T", 0}, {"", 3}, {".", 3}, {"./", 3},
    {"../K/../O", 4}, {"../O/K", 3}, {"../O/K/..", 1}, {"../K/", 3}, {"../_kids", 5}, {"../_kids/..", 1}, {"../_none", 0}, {"../O/_refs", 6}};
  const auto &c = cases[sym_choose("path", 19)];
  Smp::IObject *w[] = {nullptr, t.top, &t.sim, t.kid, t.other, &t.top->children, &t.other->ref};
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(t.kid), c.path) == w[c.what], c.path);
  sym_check(Helper::Resolve(static_cast<Smp::IObject *>(nullptr), c.path) == nullptr, "nothing resolves from no object");
}
// A component refers to a namesake of its child: the child keeps its path, in whatever order the two came.
ENTRY(p13_path_reference) {
  Name n(1, "name"), r(1, "name of the referenced component");
  sym_assume((n != "T") & (r != "T"));
  fl::Types types;
  Simulator sim;
  Mod *top = new Mod("T", &sim), *far = new Mod("far", &sim), *kid = new Mod(n.c_str(), top), *alien = new Mod(r.c_str(), far);
  sim.AddModel(top);
  sim.AddModel(far);
  far->children.AddComponent(alien);
  bool first = sym_choose("reference first", 2) != 0;
  if (first) top->ref.AddComponent(alien);
  top->children.AddComponent(kid);
  if (!first) top->ref.AddComponent(alien);
  auto from = [](Smp::IObject *o, const std::string &p) { return Helper::Resolve(o, p.c_str()); };
  sym_check(from(&sim, Helper::GetPath(kid)) == kid && from(&sim, Helper::GetPath(alien)) == alien, "the path of a component resolves to it whatever its parent refers to");
  sym_check(from(top, n) == kid, "the child comes before a referenced component of its name");
  sym_check(from(top, r) == (r == n ? static_cast<Smp::IObject *>(kid) : alien), "a referenced component is reached by its name");
  EntryPoint k("e", "", static_cast<EntryPointPublisher *>(kid), [] {}), a("e", "", static_cast<EntryPointPublisher *>(alien), [] {});
  sym_check(from(&sim, Helper::GetPath(&k)) == &k && from(&sim, Helper::GetPath(&a)) == &a, "and so do the paths of their elements");
  sym_check(from(kid, "../" + r) == from(top, r), "also from below");
  if (r == n) sym_witness("namesake");
}
// The resolver takes absolute paths from the root and relative ones from the sender.
ENTRY(p13_resolver) {
  Name a(1, "top name"), b(1, "kid name");
  Tree t(a.c_str(), b.c_str(), b == "Z" ? "Y" : "Z");
  Services::XsmpResolver r("res", "", &t.sim, &t.sim);
  r.Publish(new Publication::Publication(&r, &t.types.reg));
  r.Configure(nullptr, nullptr);
  r.Connect(&t.sim);
  sym_check(r.ResolveAbsolute(("/" + a + "/" + b).c_str()) == t.kid && r.ResolveAbsolute("/") == &t.sim, "an absolute path resolves from the root");
  sym_check(!r.ResolveAbsolute(nullptr) && !r.ResolveAbsolute("") && !r.ResolveAbsolute(a.c_str()), "a path without leading slash is not absolute");
  sym_check(r.ResolveRelative(b.c_str(), t.top) == t.kid && r.ResolveRelative("..", t.kid) == t.top && r.ResolveRelative(".", t.top) == t.top, "a relative path resolves from the sender");
  sym_check(!r.ResolveRelative(nullptr, t.top) && !r.ResolveRelative("/", t.top) && !r.ResolveRelative(("/" + a).c_str(), t.top), "an absolute path is not relative");
  sym_check(!r.ResolveRelative(b.c_str(), nullptr), "without sender nothing resolves");
}
