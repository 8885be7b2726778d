// P16: references.
// SOURCES: src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// ENTRY p16_history quick=5 thorough=6 weight=3
// ENTRY p16_lookup
// ENTRY p16_links quick=4 thorough=5 weight=2
#include "hlib.h"
#include <Smp/CannotRemove.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/NotReferenced.h>
#include <Smp/ReferenceFull.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Component.h>
#include <Xsmp/Reference.h>
#include <stdexcept>
#include <string.h>
#include <vector>
using namespace Xsmp;

namespace {
struct Face { virtual ~Face() = default; };
struct Other : Component { using Component::Component; };
struct Part : Component, virtual Face { using Component::Component; };
struct Owner : Component, virtual Aggregate { using Component::Component; };
enum Res { OK, FULL, TYPE, REMOVE, REFERENCED };
template <class F> Res attempt(F f) {
  try { f(); return OK; }
  catch (const Smp::ReferenceFull &) { return FULL; }
  catch (const Smp::InvalidObjectType &) { return TYPE; }
  catch (const Smp::CannotRemove &) { return REMOVE; }
  catch (const Smp::NotReferenced &) { return REFERENCED; }
}
char letters(const char *what) { unsigned char x = (unsigned char)sym_u8(what); sym_assume(((x | 32u) - 'a') < 26u); return (char)x; }
template <class R> void holds(R &r, const std::vector<Part *> &in, std::int64_t upper) {
  sym_check(r.GetCount() == (std::int64_t)in.size() && r.size() == in.size() && r.GetComponents()->size() == in.size(), "the count is the number of references");
  sym_check(upper < 0 || r.GetCount() <= upper, "at most the upper bound");
  for (std::size_t i = 0; i < in.size(); i++) sym_check(r.GetComponent(i) == in[i] && r.GetComponents()->at(i) == in[i] && r[i] == in[i], "the components in order of addition");
  sym_check(!r.GetComponent(in.size()) && !r.GetComponents()->at(in.size()), "nothing beyond the components");
  std::size_t k = 0;
  for (auto *c : *r.GetComponents()) { sym_check(k < in.size() && c == in[k], "iteration in order"); k++; }
}
}
// Every history of additions and removals under every bound.
ENTRY(p16_history) {
  const std::int64_t lower = sym_srange("lower", 0, 1LL << 62), upper = sym_srange("upper", -1, 1LL << 62);
  Owner owner("owner");
  Part a("a"), b("b");
  Other o("o");
  Part *part[2] = {&a, &b};
  Reference<Face> r("refs", "", static_cast<Aggregate *>(&owner), lower, upper);
  sym_check(r.GetLower() == lower && r.GetUpper() == upper, "the bounds are the ones given");
  std::vector<Part *> in;
  const int steps = (int)sym_bound(4);
  for (int s = 0; s < steps; s++) {
    unsigned k = (unsigned)sym_choose("operation", 5);
    const bool full = upper >= 0 && (std::int64_t)in.size() >= upper;
    if (k < 2) {
      Res x = attempt([&] { r.AddComponent(part[k]); });
      sym_check(x == (full ? FULL : OK), "an addition is refused exactly when the reference is full");
      if (x == OK) in.push_back(part[k]); else sym_witness("full");
    } else if (k < 4) {
      Part *p = part[k - 2];
      std::size_t i = 0;
      while (i < in.size() && in[i] != p) i++;
      Res x = attempt([&] { r.RemoveComponent(p); });
      if (i == in.size()) sym_check(x == REFERENCED, "only a referenced component is removed");
      else sym_check(x == ((std::int64_t)in.size() <= lower ? REMOVE : OK), "a removal is refused exactly at the lower bound");
      if (x == OK) in.erase(in.begin() + (long)i);
    } else {
      Res x = attempt([&] { r.AddComponent(&o); });
      sym_check(x == TYPE || (full && x == FULL), "a component of another type is refused");
      sym_check(attempt([&] { r.RemoveComponent(&o); }) == REFERENCED, "what is not referenced is not removed");
    }
    holds(r, in, upper);
  }
}
// Look-up by index and by name.
ENTRY(p16_lookup) {
  Owner owner("owner");
  char n[2][2] = {{letters("name"), 0}, {letters("name"), 0}};
  Part a(n[0]), b(n[1]);
  Part *p[2] = {&a, &b};
  Reference<Part> r("refs", "text", static_cast<Aggregate *>(&owner), 0, 2), s("other", "", static_cast<Aggregate *>(&owner), 0, -1);
  sym_check(owner.GetReferences()->size() == 2 && owner.GetReference("refs") == &r && owner.GetReference("other") == &s && !owner.GetReference("zz"), "the aggregate knows its references");
  sym_check(r.empty() && r.begin() == r.end() && !r.GetComponent(n[0]), "a new reference is empty");
  r.AddComponent(&a); r.AddComponent(&b);
  SymStr q(2, "query", true);
  Part *want = q.n != 1 ? nullptr : q.p[0] == n[0][0] ? &a : q.p[0] == n[1][0] ? &b : nullptr;
  sym_check(r.GetComponent(q.p) == want && r.GetComponents()->at(q.p) == want, "a name gives the first component of that name, or nothing");
  if (q.p) {
    Part *got = nullptr;
    try { got = r.at(std::string_view(q.p)); } catch (const std::out_of_range &) {}
    sym_check(got == want, "at() of a name gives that component or fails");
  }
  std::uint64_t i = sym_u64("index");
  sym_check(r.GetComponent((std::size_t)i) == (i == 0 ? &a : i == 1 ? &b : nullptr), "an index gives the component there, or nothing");
  Part *at = nullptr;
  try { at = r.at((std::size_t)i); } catch (const std::out_of_range &) {}
  sym_check(at == (i == 0 ? &a : i == 1 ? &b : nullptr), "at() of an index gives the component there or fails");
  sym_check(r[n[0]] == &a && r.front() == &a && r.back() == &b && !s.GetCount(), "first and last");
  std::size_t k = 0;
  for (auto *x : r) sym_check(x == p[k++], "iteration in order");
  for (auto it = r.rbegin(); it != r.rend(); ++it) sym_check(*it == p[--k], "iteration in reverse order");
  sym_check(!strcmp(r.GetName(), "refs") && !strcmp(r.GetDescription(), "text") && r.GetParent() == &owner && r.GetComponents()->GetParent() == &r, "its place in the tree");
}
// A component drops all its links to another one, and only those.
ENTRY(p16_links) {
  Owner owner("owner");
  Part a("a"), b("b"), d("c");
  Part *part[3] = {&a, &b, &d};
  Reference<Part> r("refs", "", static_cast<Aggregate *>(&owner), sym_srange("lower", 0, 3), -1), s("more", "", static_cast<Aggregate *>(&owner), 0, -1);
  std::vector<Part *> in[2];
  const int n = (int)sym_bound(3);
  for (int i = 0; i < n; i++) {
    unsigned w = (unsigned)sym_choose("reference", 2), k = (unsigned)sym_choose("component", 3);
    (w ? s : r).AddComponent(part[k]);
    in[w].push_back(part[k]);
  }
  unsigned k = (unsigned)sym_choose("removed", 3);
  owner.RemoveLinks(part[k]);
  for (auto &v : in) { std::vector<Part *> keep; for (auto *x : v) if (x != part[k]) keep.push_back(x); v = keep; }
  holds(r, in[0], -1);
  holds(s, in[1], -1);
}
