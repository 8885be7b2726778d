// P14: collections.
// SOURCES: src/Xsmp/Object.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp
// ENTRY p14_collection quick=4 thorough=5 weight=2
// ENTRY p14_duplicates quick=4 thorough=5 weight=2
// ENTRY p14_interface quick=4 thorough=5 weight=2
// ENTRY p14_containing quick=4 thorough=5 weight=2
// ENTRY p14_containing_duplicates quick=4 thorough=5 weight=2
// ENTRY p14_delegate quick=3 thorough=4 weight=2
// ENTRY p14_names quick=4 thorough=5
#include "hlib.h"
#include <Smp/DuplicateName.h>
#include <Smp/Exception.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Object.h>
#include <string.h>
#include <type_traits>
#include <vector>
using namespace Xsmp;

namespace {
int alive;
struct Obj : Object { using Object::Object; Obj(const char *n) : Object(n) { alive++; } ~Obj() override { alive--; } };
struct Face { virtual ~Face() = default; };
struct FaceObj : Object, virtual Face { FaceObj(const char *n) : Object(n) { alive++; } ~FaceObj() override { alive--; } };

struct Names {
  char c[3][2];
  Names() { for (int i = 0; i < 3; i++) { unsigned char x = (unsigned char)sym_u8("name"); sym_assume(((x | 32u) - 'a') < 26u); c[i][0] = (char)x; c[i][1] = 0; } }
};
// the collection agrees with the list of what was added
template <class C, class P> void agrees(const C &c, const std::vector<P> &want, const std::vector<const char *> &names, const char *probe) {
  sym_check(c.size() == want.size(), "the size is the number of elements");
  sym_check(c.empty() == want.empty(), "empty");
  std::size_t i = 0;
  for (auto *e : c) { sym_check(i < want.size() && e == want[i], "elements are iterated in the order of insertion"); i++; }
  sym_check(i == want.size(), "every element is iterated");
  std::uint64_t x = sym_u64("index");
  if (x < want.size()) sym_check(c.at((std::size_t)x) == want[(std::size_t)sym_concretize(x)], "the element at an index");
  else sym_check(c.at((std::size_t)x) == nullptr, "nothing outside");
  P first = nullptr;
  for (std::size_t k = want.size(); k-- > 0;) if (strcmp(names[k], probe) == 0) first = want[k];
  sym_check(c.at(probe) == first, "look-up by name gives the element of that name, or nothing");
  sym_check(c.at(static_cast<const char *>(nullptr)) == nullptr, "no name, no element");
}
// Collections that hold pointers to objects that live elsewhere.
template <class C, class O, class P, bool DUP> void pointers(C &c, std::vector<P> want, std::vector<const char *> wn, O *(&o)[3], const char (*nm)[2], std::size_t fixed) {
  const int n = (int)sym_bound(3);
  for (int s = 0; s < n; s++) {
    unsigned k = (unsigned)sym_choose("operation", 7);
    if (k < 3) {
      bool dup = false, refused = false;
      if (!DUP) for (auto *x : wn) dup |= strcmp(x, nm[k]) == 0;
      try { c.Add(o[k]); } catch (const Smp::DuplicateName &) { refused = true; sym_witness("duplicate refused"); }
      sym_check(refused == dup, "an element is refused exactly when another one has its name");
      if (!dup) { want.push_back(o[k]); wn.push_back(nm[k]); }
    } else if (k < 6) {
      bool got = c.Remove(o[k - 3]), had = false;
      for (std::size_t i = fixed; i < want.size(); i++)
        if (want[i] == o[k - 3]) { had = true; want.erase(want.begin() + (long)i); wn.erase(wn.begin() + (long)i); break; }
      sym_check(got == had, "removal tells whether the element was there");
    } else { c.clear(); want.resize(fixed); wn.resize(fixed); }
  }
  char probe[2] = {(char)sym_u8("probe"), 0};
  agrees(c, want, wn, probe);
}
}
ENTRY(p14_collection) {
  Names n;
  Obj *o[3] = {new Obj(n.c[0]), new Obj(n.c[1]), new Obj(n.c[2])};
  { Collection<Obj> c("c", "", nullptr); pointers<decltype(c), Obj, Obj *, false>(c, {}, {}, o, n.c, 0); }
  sym_check(alive == 3, "a collection does not own its elements");
  for (auto *x : o) delete x;
}
ENTRY(p14_duplicates) {
  Names n;
  Obj *o[3] = {new Obj(n.c[0]), new Obj(n.c[1]), new Obj(n.c[2])};
  { Collection<Obj, true> c("c", "", nullptr); pointers<decltype(c), Obj, Obj *, true>(c, {}, {}, o, n.c, 0); }
  sym_check(alive == 3, "a collection does not own its elements");
  for (auto *x : o) delete x;
}
ENTRY(p14_interface) {
  Names n;
  FaceObj *o[3] = {new FaceObj(n.c[0]), new FaceObj(n.c[1]), new FaceObj(n.c[2])};
  {
    Collection<Face> c("c", "", nullptr);
    Face plain;
    int refused = 0;
    try { c.Add(&plain); } catch (const Smp::Exception &) { refused++; }
    try { c.Remove(&plain); } catch (const Smp::Exception &) { refused++; }
    sym_check(refused == 2 && c.size() == 0, "something that is no object is refused");
    pointers<decltype(c), FaceObj, Face *, false>(c, {}, {}, o, n.c, 0);
  }
  for (auto *x : o) delete x;
}
ENTRY(p14_delegate) {
  Names n;
  Obj *o[3] = {new Obj(n.c[0]), new Obj(n.c[1]), new Obj(n.c[2])};
  Obj owner("owner");
  unsigned have = (unsigned)sym_choose("in the delegate", 2);
  {
    Collection<Obj> base("base", "text", &owner);
    std::vector<Obj *> want;
    std::vector<const char *> wn;
    if (have) { base.Add(o[0]); want.push_back(o[0]); wn.push_back(n.c[0]); }
    DelegateCollection<Obj> c(&base);
    sym_check(!strcmp(c.GetName(), "base") && !strcmp(c.GetDescription(), "text") && c.GetParent() == &owner, "it has the name, description and parent of its delegate");
    pointers<decltype(c), Obj, Obj *, false>(c, want, wn, o, n.c, have);
    sym_check(base.size() == have, "the delegate is left alone");
  }
  for (auto *x : o) delete x;
}
// Collections that own their elements.
namespace {
template <bool DUP> void containing() {
  Names n;
  {
    ContainingCollection<Obj, DUP> c("c", "", nullptr);
    std::vector<Obj *> want;
    std::vector<const char *> wn;
    const int steps = (int)sym_bound(3);
    for (int s = 0; s < steps; s++) {
      unsigned k = (unsigned)sym_choose("operation", 6);
      if (k < 3) {
        bool dup = false, refused = false;
        if (!DUP) for (auto *x : wn) dup |= strcmp(x, n.c[k]) == 0;
        Obj *e = nullptr;
        try { e = c.template Add<Obj>(n.c[k]); } catch (const Smp::DuplicateName &) { refused = true; }
        sym_check(refused == dup, "an element is refused exactly when another one has its name");
        sym_check(refused || (e && strcmp(e->GetName(), n.c[k]) == 0), "the element is created as described");
        if (e) { want.push_back(e); wn.push_back(n.c[k]); }
      } else if (k == 3) {
        Obj stranger("stranger");
        sym_check(!c.Remove(&stranger), "what is not in the collection is not removed");
      } else if (k == 4) {
        if (want.empty()) continue;
        std::size_t i = (std::size_t)sym_choose("which", want.size());
        sym_check(c.Remove(want[i]), "an element is removed");
        want.erase(want.begin() + (long)i);
        wn.erase(wn.begin() + (long)i);
      } else { c.clear(); want.clear(); wn.clear(); }
      sym_check(alive == (int)want.size(), "exactly the elements of the collection are alive");
    }
    char probe[2] = {(char)sym_u8("probe"), 0};
    agrees(c, want, wn, probe);
  }
  sym_check(alive == 0, "the elements go with the collection");
}
}
ENTRY(p14_containing) { containing<false>(); }
ENTRY(p14_containing_duplicates) { containing<true>(); }
// Names are compared whole.
ENTRY(p14_names) {
  auto form = [](const SymStr &s) { sym_assume(s.n > 0); for (unsigned i = 0; i < s.n; i++) sym_assume((((unsigned char)s.p[i] | 32u) - 'a') < 26u); };
  SymStr a((unsigned)sym_bound(3), "first"), b((unsigned)sym_bound(3), "second");
  form(a); form(b);
  bool same = a.n == b.n && eqBytes(a.p, b.p, a.n);
  Obj x(a.p), y(b.p);
  Collection<Obj> c("c", "", nullptr);
  c.Add(&x);
  sym_check(c.at(b.p) == (same ? &x : nullptr), "look-up compares whole names");
  bool refused = false;
  try { c.Add(&y); } catch (const Smp::DuplicateName &) { refused = true; }
  sym_check(refused == same, "duplicates are told by whole names");
}
