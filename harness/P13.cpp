// P13: names of objects.
// SOURCES: src/Xsmp/Helper.cpp src/Xsmp/cstring.cpp src/Xsmp/Object.cpp src/Xsmp/Exception.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/Component.cpp src/Xsmp/Container.cpp
// ENTRY p13_name quick=6 thorough=10
// ENTRY p13_name_null
// ENTRY p13_objects quick=2 thorough=3
#include "hlib.h"
#include <Smp/InvalidObjectName.h>
#include <Smp/IObject.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Object.h>
#include <string.h>

namespace {
// letter (letter | digit | '_')*  or  '[' digit+ ']'
bool letter(unsigned char c) { return ((c | 32u) - 'a') < 26u; }
bool digitC(unsigned char c) { return (c - '0') + 0u < 10u; }
bool wordC(unsigned char c) { return letter(c) | digitC(c) | (c == '_'); }
bool valid(const char *s, unsigned n) {
  if (!s || n == 0) return false;
  bool word = letter((unsigned char)s[0]), index = (s[0] == '[') & (s[n - 1] == ']') & (n >= 3);
  for (unsigned i = 1; i < n; i++) word &= wordC((unsigned char)s[i]);
  for (unsigned i = 1; i + 1 < n; i++) index &= digitC((unsigned char)s[i]);
  return word | index;
}
struct Obj : Xsmp::Object { using Xsmp::Object::Object; };
struct Comp : Xsmp::Model { using Xsmp::Model::Model; };
template <class F> bool refused(F f) {
  try { f(); } catch (const Smp::InvalidObjectName &) { return true; }
  return false;
}
}
// A name is accepted exactly when it has the documented form, and is copied whole.
ENTRY(p13_name) {
  SymStr s((unsigned)sym_bound(6), "name");
  bool ok = valid(s.p, s.n);
  bool no = refused([&] {
    Xsmp::cstring c = Xsmp::Helper::checkName(s.p, nullptr);
    sym_check(c.c_str() && c.c_str() != s.p && eqBytes(c.c_str(), s.p, s.n + 1), "the accepted name is the name given");
    sym_witness("accepted");
  });
  sym_check(no == !ok, "a name is accepted exactly when it has the documented form");
}
ENTRY(p13_name_null) { sym_check(refused([] { Xsmp::Helper::checkName(nullptr, nullptr); }), "no name is refused"); }
// No object can be created with another name; the name, description and parent are kept.
ENTRY(p13_objects) {
  SymStr s((unsigned)sym_bound(2), "name", true), d(1, "description");
  Obj parent("parent");
  bool ok = valid(s.p, s.n);
  auto look = [&](const Smp::IObject &o, const Smp::IObject *p) {
    sym_check(eqBytes(o.GetName(), s.p, s.n + 1), "the object has the name given");
    sym_check(o.GetDescription() && strlen(o.GetDescription()) == d.n && eqBytes(o.GetDescription(), d.p, d.n), "the object has the description given");
    sym_check(o.GetParent() == p, "the object has the parent given");
  };
  bool no = false;
  switch (sym_choose("kind", 4)) {
  case 0: no = refused([&] { Obj o(s.p, d.p, &parent); look(o, &parent); }); break;
  case 1: no = refused([&] { Xsmp::EntryPoint o(s.p, d.p, &parent, [] {}); look(o, &parent); }); break;
  case 2: no = refused([&] { Comp o(s.p, d.p, nullptr); look(o, nullptr); }); break;
  default: no = refused([&] { Xsmp::Container<Comp> o(s.p, d.p, static_cast<Smp::IObject *>(&parent), 0, -1); look(o, &parent); }); break;
  }
  sym_check(no == !ok, "an object is created exactly when its name has the documented form");
}
