// P37: what a publication shows is what was published.
// SOURCES: src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Property.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/Field.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Smp/AnySimple.cpp
// ENTRY p37_fields quick=3 thorough=4 weight=3
// ENTRY p37_kinds
// ENTRY p37_nested
// ENTRY p37_properties quick=3 thorough=4
// ENTRY p37_operations quick=3 thorough=4
// ENTRY p37_refused
// ENTRY p37_unpublish
#include "fieldlib.h"
#include <Smp/DuplicateName.h>
#include <Smp/IArrayField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/IDataflowField.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <string.h>
#include <string>
#include <vector>
using PTK = Smp::PrimitiveTypeKind;
using Pub = ::Xsmp::Publication::Publication;
namespace U = Smp::Uuids;
namespace {
struct M : ::Xsmp::Model { using Model::Model; };
// one of two names
struct Nm : std::string {
  explicit Nm(const char *what = "name") : std::string(1, (char)('a' + (int)sym_bool(what))) {}
};
Smp::ViewKind view() { return static_cast<Smp::ViewKind>(sym_u8("view") & 3); }
struct Seen {
  std::string name, desc;
  Smp::ViewKind view;
  bool state, input, output;
  const Smp::Publication::IType *type;
  int kind; // 0 simple, 1 given by the caller, 2 simple array, 3 structure, 4 array
  Smp::IField *same;
};
bool isKind(Smp::IField *f, int k) {
  switch (k) {
  case 0: case 1: return dynamic_cast<Smp::ISimpleField *>(f) != nullptr;
  case 2: return dynamic_cast<Smp::ISimpleArrayField *>(f) != nullptr;
  case 3: return dynamic_cast<Smp::IStructureField *>(f) != nullptr;
  default: return dynamic_cast<Smp::IArrayField *>(f) != nullptr;
  }
}
template <typename F> int outcome(F f) {
  try { f(); return 0; }
  catch (const Smp::DuplicateName &) { return 1; }
  catch (const Smp::InvalidObjectName &) { return 2; }
  catch (const Smp::Publication::TypeNotRegistered &) { return 3; }
}
const char *descs[] = {"first", "second", "third"};
}
// Every history of publishing fields of every form under two names.
ENTRY(p37_fields) {
  fl::Types t;
  M m("m", "", nullptr);
  M other("other", "", nullptr);
  Pub pub(&m, &t.reg);
  m.Publish(&pub);
  Smp::Int32 mem[4] = {};
  ::Xsmp::Field<Smp::Int32> fa(&t.reg, U::Uuid_Int32, "a", "given", &m), fb(&t.reg, U::Uuid_Int32, "b", "given", &m);
  std::vector<Seen> own, given;
  unsigned n = (unsigned)sym_bound(2);
  for (unsigned i = 0; i < n; i++) {
    Nm nm;
    Seen s{nm, descs[i], view(), sym_bool("state"), sym_bool("input"), false, nullptr, (int)sym_choose("kind", 5), nullptr};
    if (s.kind == 0 || s.kind == 2) s.output = sym_choose("output", 2) != 0;
    bool known = false;
    for (const auto &x : own) known |= x.name == s.name;
    for (const auto &x : given) known |= x.name == s.name;
    const char *nn = s.name.c_str(), *d = descs[i];
    int r = outcome([&] {
      switch (s.kind) {
      case 0: pub.PublishField(nn, d, mem + i, s.view, s.state, s.input, s.output); s.type = t.reg.GetType(U::Uuid_Int32); break;
      case 1: s.same = s.name == "a" ? &fa : &fb; pub.PublishField(s.same); s.desc = "given"; s.view = s.same->GetView(); s.state = s.same->IsState(); s.input = s.same->IsInput(); s.output = s.same->IsOutput(); s.type = s.same->GetType(); break;
      case 2: pub.PublishArray(nn, d, 2, mem, PTK::PTK_Int32, s.view, s.state, s.input, s.output); s.type = t.reg.GetType(U::Uuid_Int32); break;
      case 3: sym_check(pub.PublishStructure(nn, d, s.view, s.state) != nullptr, "publishing a structure gives its publication"); s.input = false; break;
      default: sym_check(pub.PublishArray(nn, d, s.view, s.state) != nullptr, "publishing an array gives its publication"); s.input = false; break;
      }
    });
    sym_check(r == (known ? 1 : 0), "a name is published once, and only once");
    if (!known) (s.kind == 1 ? given : own).push_back(s);
    const auto *fs = pub.GetFields();
    sym_check(fs == m.GetFields(), "the component shows the fields of its publication");
    sym_check(fs->size() == own.size() + given.size() && !fs->at(fs->size()), "every published field is shown, once");
    std::size_t k = 0;
    for (auto *f : *fs) {
      const Seen &x = k < own.size() ? own[k] : given[k - own.size()];
      sym_check(x.name == f->GetName() && fs->at(k) == f && fs->at(x.name.c_str()) == f && pub.GetField(x.name.c_str()) == f && m.GetField(x.name.c_str()) == f, "the fields are shown in order, and by name");
      sym_check(!x.same || x.same == f, "a field given is the field shown");
      sym_check(x.desc == f->GetDescription() && f->GetParent() == &m && isKind(f, x.kind), "a field is of the form, with the description and parent it was published with");
      sym_check((f->GetView() == x.view) & (f->IsState() == x.state) & (f->IsInput() == x.input) & (f->IsOutput() == x.output), "a field has the view and flags it was published with");
      sym_check(x.kind > 2 || f->GetType() == x.type, "a field has the type it was published with");
      sym_check(x.kind == 1 || x.kind > 2 || (dynamic_cast<Smp::IDataflowField *>(f) != nullptr) == x.output, "a field can be connected when it is an output");
      ++k;
    }
    sym_check(k == fs->size(), "iterating shows every field");
    if (known) sym_witness("duplicate");
  }
}
// Each overload publishes memory of its own type.
ENTRY(p37_kinds) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  Smp::ViewKind v = view();
  bool st = sym_bool("state"), in = sym_bool("input"), out = sym_choose("output", 2) != 0;
  union { Smp::Char8 c; Smp::Bool b; Smp::Int8 i8; Smp::Int16 i16; Smp::Int32 i32; Smp::Int64 i64; Smp::UInt8 u8; Smp::UInt16 u16; Smp::UInt32 u32; Smp::UInt64 u64; Smp::Float32 f; Smp::Float64 d; } x{};
  PTK k{};
  const char *nn = "x", *d = "text";
  switch (sym_choose("kind", 15)) {
  case 0: k = PTK::PTK_Char8; pub.PublishField(nn, d, &x.c, v, st, in, out); break;
  case 1: k = PTK::PTK_Bool; pub.PublishField(nn, d, &x.b, v, st, in, out); break;
  case 2: k = PTK::PTK_Int8; pub.PublishField(nn, d, &x.i8, v, st, in, out); break;
  case 3: k = PTK::PTK_Int16; pub.PublishField(nn, d, &x.i16, v, st, in, out); break;
  case 4: k = PTK::PTK_Int32; pub.PublishField(nn, d, &x.i32, v, st, in, out); break;
  case 5: k = PTK::PTK_Int64; pub.PublishField(nn, d, &x.i64, v, st, in, out); break;
  case 6: k = PTK::PTK_UInt8; pub.PublishField(nn, d, &x.u8, v, st, in, out); break;
  case 7: k = PTK::PTK_UInt16; pub.PublishField(nn, d, &x.u16, v, st, in, out); break;
  case 8: k = PTK::PTK_UInt32; pub.PublishField(nn, d, &x.u32, v, st, in, out); break;
  case 9: k = PTK::PTK_UInt64; pub.PublishField(nn, d, &x.u64, v, st, in, out); break;
  case 10: k = PTK::PTK_Float32; pub.PublishField(nn, d, &x.f, v, st, in, out); break;
  case 11: k = PTK::PTK_Float64; pub.PublishField(nn, d, &x.d, v, st, in, out); break;
  case 12: k = PTK::PTK_Duration; pub.PublishField(nn, d, &x.i64, U::Uuid_Duration, v, st, in, out); break;
  case 13: k = PTK::PTK_DateTime; pub.PublishField(nn, d, &x.i64, U::Uuid_DateTime, v, st, in, out); break;
  default: k = PTK::PTK_None; pub.PublishField(nn, d, &x, fl::id(1), v, st, in, out); break;
  }
  auto *f = pub.GetFields()->at("x");
  sym_check(pub.GetFields()->size() == 1 && f && f == pub.GetFields()->at(std::size_t(0)), "the field is published");
  sym_check(strcmp(f->GetName(), "x") == 0 && strcmp(f->GetDescription(), "text") == 0 && f->GetParent() == &m, "with its name, description and parent");
  sym_check((f->GetView() == v) & (f->IsState() == st) & (f->IsInput() == in) & (f->IsOutput() == out), "with its view and flags");
  sym_check(f->GetType()->GetPrimitiveTypeKind() == k && (dynamic_cast<Smp::IDataflowField *>(f) != nullptr) == out, "with its type");
  auto *s = dynamic_cast<Smp::ISimpleField *>(f);
  sym_check((s != nullptr) == (k != PTK::PTK_None), "as a simple field exactly when its type is simple");
}
// The publications of structures and arrays show what was published into them, below their own name.
ENTRY(p37_nested) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  m.Publish(&pub);
  Smp::Int32 x = 0, y = 0;
  bool st = sym_bool("state"), arr = sym_choose("array", 2) != 0;
  Smp::ViewKind v = view();
  auto *in = arr ? pub.PublishArray("s", "d", v, st) : pub.PublishStructure("s", "d", v, st);
  Nm n1("first"), n2("second");
  sym_check(in->GetTypeRegistry() == &t.reg, "a nested publication uses the same types");
  in->PublishField(n1.c_str(), "one", &x, v, st);
  bool twice = outcome([&] { in->PublishField(n2.c_str(), "two", &y, v, st); }) == 1;
  sym_check(twice == (n1 == n2), "a name is published once inside a structure");
  auto *f = pub.GetFields()->at("s");
  sym_check(pub.GetFields()->size() == 1 && f && !pub.GetFields()->at(n1.c_str()), "what is published inside is shown only inside");
  std::size_t sz = twice ? 1 : 2;
  Smp::IField *first = nullptr;
  if (arr) {
    auto *a = dynamic_cast<Smp::IArrayField *>(f);
    sym_check(a && a->GetSize() == sz, "an array has the items published into it");
    first = a->GetItem(0);
    if (!twice) sym_check(a->GetItem(1)->GetName() == n2, "in the order they were published");
  } else {
    auto *s = dynamic_cast<Smp::IStructureField *>(f);
    sym_check(s && s->GetFields()->size() == sz, "a structure has the members published into it");
    first = s->GetFields()->at(std::size_t(0));
    if (!twice) sym_check(s->GetFields()->at(1)->GetName() == n2 && s->GetFields()->at(n2.c_str()) == s->GetFields()->at(1), "in the order they were published");
    sym_check(m.GetField(("s." + n1).c_str()) == first, "a member is found below its structure");
  }
  sym_check(first->GetName() == n1 && strcmp(first->GetDescription(), "one") == 0 && first->GetView() == v && first->IsState() == st, "a member is what was published");
}
// Publishing a property again updates it.
ENTRY(p37_properties) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  m.Publish(&pub);
  struct P { std::string name, desc; const Smp::Publication::IType *type; Smp::AccessKind access; Smp::ViewKind view; Smp::IProperty *at; };
  std::vector<P> ps;
  unsigned n = (unsigned)sym_bound(2);
  for (unsigned i = 0; i < n; i++) {
    Nm nm;
    unsigned ty = (unsigned)sym_choose("type", 3);
    const Smp::Uuid &u = ty == 0 ? U::Uuid_Int32 : ty == 1 ? U::Uuid_Bool : fl::id(77);
    std::uint8_t a8 = sym_u8("access"); sym_assume(a8 < 3);
    P p{nm, descs[i], t.reg.GetType(u), static_cast<Smp::AccessKind>(a8), view(), nullptr};
    int r = outcome([&] { pub.PublishProperty(nm.c_str(), descs[i], u, p.access, p.view); });
    sym_check(r == (ty == 2 ? 3 : 0), "a property is published exactly when its type is registered");
    if (ty != 2) {
      bool found = false;
      for (auto &x : ps) if (x.name == p.name) { p.at = x.at; x = p; found = true; sym_witness("again"); }
      if (!found) ps.push_back(p);
    }
    const auto *c = pub.GetProperties();
    sym_check(c == m.GetProperties() && c->size() == ps.size(), "every published property is shown, once");
    for (std::size_t k = 0; k < ps.size(); k++) {
      auto *q = c->at(k);
      auto &x = ps[k];
      sym_check(x.name == q->GetName() && x.desc == q->GetDescription() && q->GetParent() == &m && c->at(x.name.c_str()) == q, "a property has its last description");
      sym_check((q->GetAccess() == x.access) & (q->GetView() == x.view) & (q->GetType() == x.type), "a property has its last type, access and view");
      sym_check(!x.at || x.at == q, "an updated property stays the same object");
      x.at = q;
    }
  }
}
// Publishing an operation again starts it anew.
ENTRY(p37_operations) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  m.Publish(&pub);
  struct O { std::string name, desc; Smp::ViewKind view; std::string param; bool ret; Smp::IOperation *at; };
  std::vector<O> os;
  unsigned n = (unsigned)sym_bound(2);
  for (unsigned i = 0; i < n; i++) {
    Nm nm;
    O o{nm, descs[i], view(), "", false, nullptr};
    auto *p = pub.PublishOperation(nm.c_str(), descs[i], o.view);
    sym_check(p != nullptr, "publishing an operation gives it");
    if (sym_choose("parameter", 2)) { o.param = "p"; p->PublishParameter("p", "d", U::Uuid_Int32, Smp::Publication::ParameterDirectionKind::PDK_In); }
    if (sym_choose("return", 2)) { o.ret = true; p->PublishParameter("r", "d", U::Uuid_Bool, Smp::Publication::ParameterDirectionKind::PDK_Return); }
    bool found = false;
    for (auto &x : os) if (x.name == o.name) { o.at = x.at; x = o; found = true; sym_witness("again"); }
    if (!found) os.push_back(o);
    const auto *c = pub.GetOperations();
    sym_check(c == m.GetOperations() && c->size() == os.size(), "every published operation is shown, once");
    for (std::size_t k = 0; k < os.size(); k++) {
      auto *q = c->at(k);
      auto &x = os[k];
      sym_check(x.name == q->GetName() && x.desc == q->GetDescription() && q->GetParent() == &m && c->at(x.name.c_str()) == q && q->GetView() == x.view, "an operation has its last description and view");
      sym_check(!x.at || x.at == q, "an operation published again stays the same object");
      x.at = q;
      sym_check(q->GetParameters()->size() == x.param.size() && (q->GetParameter("p") != nullptr) == (x.param.size() != 0), "an operation has the parameters of its last publication");
      sym_check((q->GetReturnParameter() != nullptr) == x.ret && q->GetParameter("r") == q->GetReturnParameter(), "and its return value");
      Smp::IRequest *r = m.CreateRequest(x.name.c_str());
      sym_check(r && r->GetParameterCount() == (int)x.param.size(), "a request has the parameters of the operation");
      m.DeleteRequest(r);
    }
  }
}
// What is refused leaves no trace.
ENTRY(p37_refused) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  Smp::Int32 x = 0;
  const char *bad[] = {nullptr, "", "1a", "a b"};
  const char *b = bad[sym_choose("bad name", 4)];
  int r = 0;
  switch (sym_choose("what", 7)) {
  case 0: r = outcome([&] { pub.PublishField(b, "", &x); }); break;
  case 1: r = outcome([&] { pub.PublishArray(b, "", 1, &x, PTK::PTK_Int32); }); break;
  case 2: r = outcome([&] { pub.PublishStructure(b, ""); }); break;
  case 3: r = outcome([&] { pub.PublishArray(b, ""); }); break;
  case 4: r = outcome([&] { pub.PublishOperation(b, ""); }); break;
  case 5: r = outcome([&] { pub.PublishProperty(b, "", U::Uuid_Int32, Smp::AccessKind::AK_ReadWrite); }); break;
  default: r = outcome([&] { pub.PublishField("ok", "", &x, fl::id(99)); }) == 3 ? 2 : 0; break;
  }
  sym_check(r == 2, "an invalid name or unknown type is refused");
  sym_check(pub.GetFields()->size() == 0 && pub.GetOperations()->size() == 0 && pub.GetProperties()->size() == 0, "what was refused is not shown");
}
// After unpublishing nothing is shown, and everything can be published again.
ENTRY(p37_unpublish) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  Smp::Int32 x = 0;
  ::Xsmp::Field<Smp::Int32> f(&t.reg, U::Uuid_Int32, "f", "", &m);
  for (int i = 0; i < 2; i++) {
    pub.PublishField("x", "", &x);
    pub.PublishField(&f);
    pub.PublishStructure("s", "")->PublishField("x", "", &x);
    pub.PublishOperation("o", "");
    pub.PublishProperty("p", "", U::Uuid_Int32, Smp::AccessKind::AK_ReadWrite);
    sym_check(pub.GetFields()->size() == 3 && pub.GetOperations()->size() == 1 && pub.GetProperties()->size() == 1, "what was published is shown");
    pub.Unpublish();
    sym_check(pub.GetFields()->size() == 0 && pub.GetOperations()->size() == 0 && pub.GetProperties()->size() == 0, "nothing is shown after unpublishing");
    const char *nn[] = {"x", "f", "s", "s.x"};
    const char *q = nn[sym_choose("name", 4)];
    bool gone = false;
    try { pub.GetField(q); } catch (const Smp::InvalidFieldName &) { gone = true; }
    sym_check(gone && !pub.GetFields()->at(q) && !pub.CreateRequest("o") && !pub.CreateRequest("get_p") && !pub.CreateRequest("set_p"), "nothing is found after unpublishing");
  }
}
