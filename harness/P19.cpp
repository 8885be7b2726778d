// P19: simple fields, forcing and failures.
// SOURCES: src/Xsmp/Field.cpp src/Xsmp/Component.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Smp/AnySimple.cpp
// ENTRY p19_forcible quick=5 thorough=6 weight=4
// ENTRY p19_operators quick=3 thorough=4 weight=3
// ENTRY p19_types
// ENTRY p19_foreign
// ENTRY p19_text quick=4 thorough=5
// ENTRY p19_items quick=3 thorough=4 weight=2
// ENTRY p19_flags
// ENTRY p19_failures quick=4 thorough=5
#include "fieldlib.h"
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidFieldType.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Model.h>
#include <Xsmp/String.h>
#include <limits>
#include <string.h>
using namespace Xsmp;
using PTK = Smp::PrimitiveTypeKind;
using Smp::AnySimple;

namespace {
template <class F> bool refused(F f) { try { f(); return false; } catch (const Smp::InvalidAnyType &) { return true; } }
using FU16 = ::Xsmp::Field<Smp::UInt16>;
}
// Every history of writes, forces, freezes and releases.
ENTRY(p19_forcible) {
  fl::Types t;
  FU16::forcible f(&t.reg, Smp::Uuids::Uuid_UInt16, "f", "", nullptr, Smp::ViewKind::VK_None, sym_u16("initial"));
  Smp::IForcibleField *ff = &f;
  Smp::UInt16 want = *f;
  bool forced = false;
  const int n = (int)sym_bound(4);
  for (int s = 0; s < n; s++) {
    switch (sym_choose("operation", 7)) {
    case 0: { Smp::UInt16 v = sym_u16("set"); ff->SetValue(AnySimple{PTK::PTK_UInt16, v}); if (!forced) want = v; break; }
    case 1: { Smp::UInt16 v = sym_u16("assign"); f = v; if (!forced) want = v; break; }
    case 2: { Smp::UInt16 v = sym_u16("compute"); f += v; if (!forced) want = (Smp::UInt16)(want + v); ++f; if (!forced) want++; break; }
    case 3: { Smp::UInt16 v = sym_u16("force"); if (s & 1) f.Force(v); else ff->Force(AnySimple{PTK::PTK_UInt16, v}); want = v; forced = true; break; }
    case 4: ff->Freeze(); forced = true; break;
    case 5: ff->Unforce(); forced = false; break;
    default: {
      // A value that does not fit: nothing changes.
      std::int32_t v = (std::int32_t)sym_u32("other");
      bool fits = v >= 0 && v <= 65535;
      if (s & 1) {
        sym_check(refused([&] { ff->SetValue(AnySimple{PTK::PTK_Int32, v}); }) == (!fits && true) || forced, "a value is refused when it does not fit");
        if (fits && !forced) want = (Smp::UInt16)v;
      } else {
        bool r = refused([&] { ff->Force(AnySimple{PTK::PTK_Int32, v}); });
        sym_check(r == !fits, "a forced value is refused when it does not fit");
        if (!r) { want = (Smp::UInt16)v; forced = true; } else sym_witness("a refused force");
      }
    }
    }
    sym_check(*f == want, "the value is the last one set, or the forced one");
    AnySimple g = f.GetValue();
    sym_check(g.GetType() == PTK::PTK_UInt16 && (Smp::UInt16)g == want, "and so it reads through the interface");
    sym_check(ff->IsForced() == forced, "the field knows whether it is forced");
  }
}
// Assignment operators.
ENTRY(p19_operators) {
  fl::Types t;
  FU16 plain(&t.reg, Smp::Uuids::Uuid_UInt16, "plain");
  FU16::forcible f(&t.reg, Smp::Uuids::Uuid_UInt16, "f");
  FU16::connectable c(&t.reg, Smp::Uuids::Uuid_UInt16, "c");
  FU16::output o(&t.reg, Smp::Uuids::Uuid_UInt16, "o");
  sym_check(*plain == 0 && *f == 0 && *c == 0 && *o == 0, "a field starts at the default value");
  Smp::UInt16 w = sym_u16("start");
  plain = w; f = w; c = w; o = w;
  const int n = (int)sym_bound(2);
  for (int s = 0; s < n; s++) {
    unsigned k = (unsigned)sym_choose("operator", 12);
    Smp::UInt16 v = sym_u16("operand");
    if (k == 6 || k == 7) { v &= 15; w &= (Smp::UInt16)0x7fff; plain = w; f = w; c = w; o = w; }
    if (k == 4 || k == 5) { v |= 1; v &= 7; }
    auto op = [&](auto &x) {
      switch (k) {
      case 0: x = v; break;
      case 1: x += v; break;
      case 2: x -= v; break;
      case 3: x *= (unsigned)v; break;
      case 4: x /= v; break;
      case 5: x %= v; break;
      case 6: x <<= v; break;
      case 7: x >>= v; break;
      case 8: x &= v; break;
      case 9: x |= v; break;
      case 10: x ^= v; break;
      default: if (v & 1) ++x; else --x; break;
      }
    };
    op(plain); op(f); op(c); op(o); op(w);
    sym_check(*plain == w, "plain field");
    sym_check(*f == w, "forcible field");
    sym_check(*c == w, "connectable field");
    sym_check(*o == w, "output field");
  }
  FU16::forcible z(&t.reg, Smp::Uuids::Uuid_UInt16, "z", "", nullptr, Smp::ViewKind::VK_None, w);
  z.Freeze();
  unsigned k = (unsigned)sym_choose("frozen operator", 11);
  Smp::UInt16 v = sym_u16("operand");
  switch (k) {
  case 0: z = v; break;
  case 1: z += v; break;
  case 2: z -= v; break;
  case 3: z *= (unsigned)v; break;
  case 4: z /= (v | 1); break;
  case 5: z %= (v | 1); break;
  case 6: z <<= 3; break;
  case 7: z >>= 3; break;
  case 8: z &= v; break;
  case 9: z |= v; break;
  default: z ^= v; ++z; --z; break;
  }
  sym_check(*z == w, "no computation changes a frozen field");
}
namespace {
template <class T> T sym(const char *n);
template <class T> bool same(const T &a, const T &b) { return memcmp(&a, &b, sizeof a) == 0; }
// Every kind of value for a field of type T: set and forced values read back unchanged.
template <class T, class F> void type(const Smp::Uuid &id, PTK k, T a, T b, T c) {
  fl::Types t;
  F f(&t.reg, id, "f", "", nullptr, Smp::ViewKind::VK_None, a);
  auto is = [&](const T &v) {
    sym_check(same<T>(*f, v), "the value held");
    AnySimple g = f.GetValue();
    sym_check(g.GetType() == k && same<T>(AnySimpleConverter<T>::convert(g), v), "the value read through the interface");
  };
  sym_check(f.GetPrimitiveTypeKind() == k && f.GetType()->GetUuid() == id, "the kind is that of its type");
  is(a);
  f = b; is(b);
  f.SetValue(AnySimpleConverter<T>::convert(k, c)); is(c);
  f.Force(a); is(a);
  f = b; is(a);
  f.SetValue(AnySimpleConverter<T>::convert(k, b)); is(a);
  f.Unforce(); is(a);
  f = c; is(c);
}
enum class Color : std::int32_t { RED = -3, GREEN = 0, BLUE = 70000 };
double sd() { std::uint64_t u = sym_u64("double"); double x; memcpy(&x, &u, 8); sym_assume(x == x); return x; }
float sf() { std::uint32_t u = sym_u32("float"); float x; memcpy(&x, &u, 4); sym_assume(x == x); return x; }
#define T3(T, K, e) type<T, ::Xsmp::Field<T>::forcible>(Smp::Uuids::Uuid_##K, PTK::PTK_##K, (T)(e), (T)(e), (T)(e))
}
ENTRY(p19_types) {
  switch (sym_choose("type", 13)) {
  case 0: T3(char, Char8, sym_u8("v")); break;
  case 1: T3(bool, Bool, sym_bool("v")); break;
  case 2: T3(std::int8_t, Int8, sym_u8("v")); break;
  case 3: T3(std::uint8_t, UInt8, sym_u8("v")); break;
  case 4: T3(std::int16_t, Int16, sym_u16("v")); break;
  case 5: T3(std::int32_t, Int32, sym_u32("v")); break;
  case 6: T3(std::uint32_t, UInt32, sym_u32("v")); break;
  case 7: T3(std::int64_t, Int64, sym_u64("v")); break;
  case 8: T3(std::uint64_t, UInt64, sym_u64("v")); break;
  case 9: T3(std::int64_t, Duration, sym_u64("v")); break;
  case 10: T3(std::int64_t, DateTime, sym_u64("v")); break;
  case 11: T3(double, Float64, sd()); break;
  default: T3(float, Float32, sf()); break;
  }
}
// Values of another kind: taken exactly when the field can hold them, else refused without effect.
ENTRY(p19_foreign) {
  fl::Types t;
  auto *e = t.reg.AddEnumerationType("Color", "", fl::id(9), 4);
  e->AddLiteral("RED", "", -3); e->AddLiteral("GREEN", "", 0); e->AddLiteral("BLUE", "", 70000);
  ::Xsmp::Field<std::int16_t>::forcible s(&t.reg, Smp::Uuids::Uuid_Int16, "s", "", nullptr, Smp::ViewKind::VK_None, 5);
  ::Xsmp::Field<bool> b(&t.reg, Smp::Uuids::Uuid_Bool, "b", "", nullptr, Smp::ViewKind::VK_None, true);
  ::Xsmp::Field<double>::output d(&t.reg, Smp::Uuids::Uuid_Float64, "d", "", nullptr, Smp::ViewKind::VK_None, 2.5);
  ::Xsmp::Field<Color> c(&t.reg, fl::id(9), "c", "", nullptr, Smp::ViewKind::VK_None, Color::BLUE);
  ::Xsmp::Field<::Xsmp::String<3>> x(&t.reg, Smp::Uuids::Uuid_String8, "x", "", nullptr, Smp::ViewKind::VK_None, ::Xsmp::String<3>("abc"));
  AnySimple v;
  std::int64_t i = (std::int64_t)sym_u64("integer");
  unsigned k = (unsigned)sym_choose("kind", 5);
  switch (k) {
  case 0: v = AnySimple{PTK::PTK_Int64, i}; break;
  case 1: v = AnySimple{PTK::PTK_Char8, 'a'}; break;
  case 2: v = AnySimple{PTK::PTK_Bool, false}; break;
  case 3: v = AnySimple{PTK::PTK_String8, "zz"}; break;
  default: break;
  }
  bool small = k == 0 && i >= -32768 && i <= 32767, mid = k == 0 && i >= std::numeric_limits<std::int32_t>::min() && i <= std::numeric_limits<std::int32_t>::max();
  bool r = refused([&] { s.SetValue(v); });
  sym_check(r == !small && *s == (small ? (std::int16_t)i : 5), "a 16 bit field takes what fits, and keeps its value otherwise");
  r = refused([&] { b.SetValue(v); });
  sym_check(r == (k == 4) && *b == (k == 0 ? i != 0 : k != 2), "a Boolean field takes the truth of any value");
  r = refused([&] { c.SetValue(v); });
  sym_check(r == !mid && *c == (mid ? (Color)(std::int32_t)i : Color::BLUE), "an enumeration field takes what fits");
  r = refused([&] { x.SetValue(v); });
  sym_check(r == (k != 3) && x->size() == (k == 3 ? 2u : 3u) && !strcmp(x->c_str(), k == 3 ? "zz" : "abc"), "a text field takes text");
  if (k) { r = refused([&] { d.SetValue(v); }); sym_check(r && *d == 2.5, "a floating-point field takes numbers"); }
  if (k) {
    unsigned m = (unsigned)sym_choose("state", 3);
    if (m == 1) s.Freeze(); else if (m == 2) s.Force((std::int16_t)7);
    std::int16_t was = *s;
    r = refused([&] { s.Force(v); });
    sym_check(r && *s == was && s.IsForced() == (m != 0), "a refused force changes nothing");
    if (m) { s = 11; sym_check(*s == was, "and a forced field stays forced"); }
  }
}
// Text fields.
ENTRY(p19_text) {
  fl::Types t;
  using S = ::Xsmp::String<2>;
  ::Xsmp::Field<S>::forcible f(&t.reg, Smp::Uuids::Uuid_String8, "f");
  SymStr v(3, "text"), w(3, "other text");
  auto is = [&](const SymStr &s) {
    unsigned n = s.n < 2 ? s.n : 2;
    sym_check(f->size() == n && eqBytes(f->c_str(), s.p, n), "the text, cut at the capacity");
    AnySimple a = f.GetValue();
    const char *p = (const char *)a;
    sym_check(a.GetType() == PTK::PTK_String8 && strlen(p) == n && eqBytes(p, s.p, n), "and so it reads through the interface");
  };
  sym_check(f->empty(), "empty at first");
  sym_leak_begin();
  f.SetValue(AnySimple{PTK::PTK_String8, (Smp::String8)v.p}); is(v);
  f.Force(S(w.p)); is(w);
  f.SetValue(AnySimple{PTK::PTK_String8, (Smp::String8)v.p}); is(w);
  f = S(v.p); is(w);
  f.Unforce(); f = S(v.p); is(v);
  sym_leak_end();
}
// Forcing one item leaves the others alone.
ENTRY(p19_items) {
  fl::Types t;
  ::Xsmp::Field<fl::Arr>::forcible a(&t.reg, fl::id(1), "a", "", nullptr, Smp::ViewKind::VK_None, fl::Arr{{1, 2}});
  ::Xsmp::Field<fl::St>::forcible s(&t.reg, fl::id(3), "s", "", nullptr, Smp::ViewKind::VK_None, fl::St{3, {{4, 5}}});
  Smp::ISimpleField *it[5] = {dynamic_cast<Smp::ISimpleField *>(a.GetItem(0)), dynamic_cast<Smp::ISimpleField *>(a.GetItem(1)), &s.p,
                              dynamic_cast<Smp::ISimpleField *>(dynamic_cast<Smp::IArrayField *>(s.GetField("q"))->GetItem(0)), &s.q[1]};
  std::int32_t want[5] = {1, 2, 3, 4, 5};
  bool forced[5] = {};
  auto show = [&] {
    for (int i = 0; i < 5; i++) {
      sym_check((std::int32_t)it[i]->GetValue() == want[i], "the value of every item");
      sym_check(dynamic_cast<Smp::IForcibleField *>(it[i])->IsForced() == forced[i], "whether an item is forced");
    }
  };
  show();
  const int n = (int)sym_bound(2);
  for (int k = 0; k < n; k++) {
    unsigned i = (unsigned)sym_choose("item", 5), op = (unsigned)sym_choose("operation", 4);
    std::int16_t v = (std::int16_t)sym_u16("value");
    auto *g = dynamic_cast<Smp::IForcibleField *>(it[i]);
    AnySimple x = i == 2 ? AnySimple{PTK::PTK_Int16, v} : AnySimple{PTK::PTK_Int32, (std::int32_t)v};
    if (op == 0) { it[i]->SetValue(x); if (!forced[i]) want[i] = v; }
    else if (op == 1) { g->Force(x); want[i] = v; forced[i] = true; }
    else if (op == 2) { g->Freeze(); forced[i] = true; }
    else { g->Unforce(); forced[i] = false; }
    show();
  }
  fl::Arr all{{(std::int32_t)sym_u32("all"), (std::int32_t)sym_u32("all")}};
  a = all; s.q = all;
  for (int i = 0; i < 5; i++) if (i != 2 && !forced[i]) want[i] = all[(size_t)(i & 1 ? (i == 1 ? 1 : 0) : (i == 4 ? 1 : 0))];
  show();
  fl::Arr out = a;
  sym_check(out[0] == want[0] && out[1] == want[1], "an array field read as a whole");
}
// What a field says about itself.
ENTRY(p19_flags) {
  fl::Types t;
  struct Parent : Model { using Model::Model; } m("m");
  Smp::ViewKind v = (Smp::ViewKind)sym_choose("view", 4);
  using F = ::Xsmp::Field<Smp::Int32>;
  F a(&t.reg, Smp::Uuids::Uuid_Int32, "a", "text", &m, v);
  F::input b(&t.reg, Smp::Uuids::Uuid_Int32, "b", "", &m, v);
  F::output c(&t.reg, Smp::Uuids::Uuid_Int32, "c", "", &m, v);
  F::transient d(&t.reg, Smp::Uuids::Uuid_Int32, "d", "", &m, v);
  F::input::output::transient e(&t.reg, Smp::Uuids::Uuid_Int32, "e", "", &m, v);
  F::connectable g(&t.reg, Smp::Uuids::Uuid_Int32, "g", "", &m, v);
  F::forcible h(&t.reg, Smp::Uuids::Uuid_Int32, "h", "", &m, v);
  struct { Smp::IField *f; const char *n; bool state, in, out; } all[] = {
      {&a, "a", true, false, false}, {&b, "b", true, true, false}, {&c, "c", true, false, true}, {&d, "d", false, false, false},
      {&e, "e", false, true, true}, {&g, "g", true, false, false}, {&h, "h", true, false, false}};
  for (auto &x : all) {
    sym_check(!strcmp(x.f->GetName(), x.n) && x.f->GetParent() == &m && x.f->GetView() == v && x.f->GetType()->GetUuid() == Smp::Uuids::Uuid_Int32, "name, parent, view and type");
    sym_check(x.f->IsState() == x.state && x.f->IsInput() == x.in && x.f->IsOutput() == x.out, "state, input and output are as declared");
  }
  sym_check(!strcmp(a.GetDescription(), "text"), "the description");
  // A type the registry does not know, or of the wrong kind, is refused.
  Smp::Uuid u{};
  u.Data1 = sym_u32("uuid");
  sym_assume(u.Data1 != fl::id(1).Data1 && u.Data1 != fl::id(2).Data1 && u.Data1 != fl::id(3).Data1);
  bool bad = false;
  switch (sym_choose("field", 4)) {
  case 0: try { F x(&t.reg, u, "x"); } catch (const Smp::InvalidFieldType &) { bad = true; } break;
  case 1: try { ::Xsmp::Field<fl::Arr> x(&t.reg, sym_bool("other") ? u : fl::id(3), "x"); } catch (const Smp::InvalidFieldType &) { bad = true; } break;
  case 2: try { ::Xsmp::Field<fl::SArr> x(&t.reg, sym_bool("other") ? u : Smp::Uuids::Uuid_Int32, "x"); } catch (const Smp::InvalidFieldType &) { bad = true; } break;
  default: try { ::Xsmp::Field<fl::St> x(&t.reg, sym_bool("other") ? u : fl::id(1), "x"); } catch (const Smp::InvalidFieldType &) { bad = true; } break;
  }
  sym_check(bad, "a field of an unknown or unsuitable type is not created");
}
// Failures and the model that has them.
ENTRY(p19_failures) {
  fl::Types t;
  struct M : Model, virtual FallibleModel { using Model::Model; } m("m");
  struct P : Model { using Model::Model; } p("p");
  using F = ::Xsmp::Field<Smp::Int32>::failure;
  F a(&t.reg, Smp::Uuids::Uuid_Int32, "a", "", &m), b(&t.reg, Smp::Uuids::Uuid_Int32, "b", "", &m);
  F::forcible c(&t.reg, Smp::Uuids::Uuid_Int32, "c", "", &m);
  F other(&t.reg, Smp::Uuids::Uuid_Int32, "other", "", &p);
  Smp::IFailure *f[4] = {&a, &b, &c, &other};
  bool want[4] = {};
  sym_check(m.GetFailures()->size() == 3 && m.GetFailure("a") == &a && m.GetFailure("b") == &b && m.GetFailure("c") == &c && !m.GetFailure("other"), "a model has the failures created in it");
  const int n = (int)sym_bound(3);
  for (int s = 0; s < n; s++) {
    unsigned i = (unsigned)sym_choose("failure", 4);
    if (sym_bool("fail")) { f[i]->Fail(); want[i] = true; } else { f[i]->Unfail(); want[i] = false; }
    a = (Smp::Int32)sym_u32("value");
    for (int k = 0; k < 4; k++) sym_check(f[k]->IsFailed() == want[k], "a failure is failed from Fail to Unfail");
    sym_check(m.IsFailed() == (want[0] || want[1] || want[2]), "a model is failed when one of its failures is");
  }
}
