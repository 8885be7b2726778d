// P24: requests, operations and properties.
// SOURCES: src/Xsmp/Publication/Request.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Property.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/Request.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Smp/AnySimple.cpp
// UBSAN: yes
// ENTRY p24_kind
// ENTRY p24_integer
// ENTRY p24_float
// ENTRY p24_text quick=3 thorough=5
// ENTRY p24_enumeration weight=2
// ENTRY p24_index
// ENTRY p24_names
// ENTRY p24_flat
// ENTRY p24_return
// ENTRY p24_parameters quick=3 thorough=4
// ENTRY p24_refused_parameter
// ENTRY p24_invoke weight=2
// ENTRY p24_not_invokable
// ENTRY p24_property_value
// ENTRY p24_property_request
// ENTRY p24_create
// ENTRY p24_simple_helper
// ENTRY p24_helper
#include "fieldlib.h"
#include <Smp/DuplicateName.h>
#include <Smp/IDynamicInvocation.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Operation.h>
#include <Xsmp/Publication/Property.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Publication/Type.h>
#include <Xsmp/Request.h>
#include <memory>
#include <string.h>
#include <vector>
namespace XP = ::Xsmp::Publication;
using PTK = Smp::PrimitiveTypeKind;
using PDK = Smp::Publication::ParameterDirectionKind;
using Smp::AnySimple;
namespace U = Smp::Uuids;
namespace {
using fl::id;
struct M : ::Xsmp::Model {
  using Model::Model;
  int calls = 0;
  Smp::IRequest *last = nullptr;
  AnySimple seen, answer;
  bool answers = false;
  void Invoke(Smp::IRequest *r) override {
    calls++; last = r;
    if (r->GetParameterCount() == 1) seen = r->GetParameterValue(0);
    if (answers) r->SetReturnValue(answer);
  }
};
struct W {
  fl::Types t;
  M m{"m", "", nullptr, nullptr};
  XP::Publication p{&m, &t.reg};
  XP::Operation *op(const char *n = "op") { return dynamic_cast<XP::Operation *>(p.PublishOperation(n, "", Smp::ViewKind::VK_None)); }
};
// Any value of a kind that is not a text.
AnySimple number(PTK k, const char *n = "value") {
  switch (k) {
  case PTK::PTK_Char8: return {k, (Smp::Char8)sym_u8(n)};
  case PTK::PTK_Bool: return {k, sym_bool(n)};
  case PTK::PTK_Int8: return {k, (Smp::Int8)sym_u8(n)};
  case PTK::PTK_UInt8: return {k, (Smp::UInt8)sym_u8(n)};
  case PTK::PTK_Int16: return {k, (Smp::Int16)sym_u16(n)};
  case PTK::PTK_UInt16: return {k, (Smp::UInt16)sym_u16(n)};
  case PTK::PTK_Int32: return {k, (Smp::Int32)sym_u32(n)};
  case PTK::PTK_UInt32: return {k, (Smp::UInt32)sym_u32(n)};
  case PTK::PTK_Int64: case PTK::PTK_Duration: case PTK::PTK_DateTime: return {k, (Smp::Int64)sym_u64(n)};
  case PTK::PTK_UInt64: return {k, (Smp::UInt64)sym_u64(n)};
  case PTK::PTK_Float32: { auto b = sym_u32(n); float f; memcpy(&f, &b, 4); return {k, f}; }
  case PTK::PTK_Float64: { auto b = sym_u64(n); double f; memcpy(&f, &b, 8); return {k, f}; }
  case PTK::PTK_String8: { char s[2] = {(char)sym_u8(n), 0}; return {k, (Smp::String8)s}; }
  default: return {};
  }
}
std::size_t sizeOf(PTK k) {
  static const std::size_t s[] = {0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 8, 0};
  return s[(int)k];
}
// Same kind, same bytes.
bool same(const AnySimple &a, const AnySimple &b) {
  if (a.type != b.type) return false;
  if (a.type == PTK::PTK_String8) {
    if (!a.value.string8Value || !b.value.string8Value) return a.value.string8Value == b.value.string8Value;
    return !strcmp(a.value.string8Value, b.value.string8Value);
  }
  return !memcmp(&a.value, &b.value, sizeOf(a.type));
}
enum Res { OK, INDEX, TYPE, VALUE, VOIDOP };
template <typename F> Res outcome(F f) {
  try { f(); return OK; }
  catch (const Smp::InvalidParameterIndex &) { return INDEX; }
  catch (const Smp::InvalidAnyType &) { return TYPE; }
  catch (const Smp::InvalidParameterValue &) { return VALUE; }
  catch (const Smp::InvalidReturnValue &) { return VALUE; }
  catch (const Smp::VoidOperation &) { return VOIDOP; }
}
// An operation with a parameter and a return value of one type, used in two ways.
struct Slot {
  W w;
  std::unique_ptr<Smp::IRequest> r;
  bool ret = false;
  void open(Smp::Uuid u) {
    ret = sym_choose("return value", 2);
    auto *o = w.op();
    o->PublishParameter("p", "", u, ret ? PDK::PDK_Return : PDK::PDK_In);
    r.reset(w.p.CreateRequest("op"));
    if (!r) sym_fail("an operation of simple types has a request");
  }
  Res set(const AnySimple &v) { return outcome([&] { if (ret) r->SetReturnValue(v); else r->SetParameterValue(0, v); }); }
  AnySimple get() { return ret ? r->GetReturnValue() : r->GetParameterValue(0); }
  // Two assignments: each is accepted exactly when it is valid, and the last one accepted stays.
  void two(const AnySimple &a, bool va, const AnySimple &b, bool vb) {
    sym_check(get().type == PTK::PTK_None, "a request starts without values");
    const Res x = set(a);
    sym_check(x == (va ? OK : VALUE), "a value is accepted exactly when its type allows it");
    const Res y = set(b);
    sym_check(y == (vb ? OK : VALUE), "a value is accepted exactly when its type allows it");
    if (y == OK) sym_witness("accepted"); else sym_witness("refused");
    sym_check(same(get(), vb ? b : va ? a : AnySimple{}), "the last value accepted is kept");
  }
};
}
ENTRY(p24_kind) {
  Slot s;
  const auto k = static_cast<PTK>(1 + sym_choose("kind", 15));
  s.open(s.w.t.reg.GetType(k)->GetUuid());
  const auto j = static_cast<PTK>(sym_choose("kind of the value", 16));
  const AnySimple v = number(j);
  try {
    if (s.ret) s.r->SetReturnValue(v); else s.r->SetParameterValue(0, v);
    sym_check(j == k, "only a value of the kind is accepted");
    sym_check(same(s.get(), v), "the value is kept");
    sym_witness("accepted");
  } catch (const Smp::InvalidAnyType &e) {
    sym_check(j != k, "a value of the kind is accepted");
    sym_check(e.GetExpectedType() == k && e.GetInvalidType() == j, "the refusal tells the kind expected from the kind given");
    sym_check(s.get().type == PTK::PTK_None, "a refused value changes nothing");
    sym_witness("refused");
  }
}
ENTRY(p24_integer) {
  Slot s;
  const auto k = static_cast<PTK>(3 + sym_choose("kind", 8));
  const auto lo = (Smp::Int64)sym_u64("minimum"), hi = (Smp::Int64)sym_u64("maximum");
  s.w.t.reg.AddIntegerType("T", "", id(9), lo, hi, "", k);
  s.open(id(9));
  auto in = [&](const AnySimple &v) {
    if (k == PTK::PTK_UInt64) { const auto x = v.value.uInt64Value; return (x <= INT64_MAX) & ((Smp::Int64)x >= lo) & ((Smp::Int64)x <= hi); }
    Smp::Int64 x;
    switch (k) {
    case PTK::PTK_Int8: x = v.value.int8Value; break;
    case PTK::PTK_UInt8: x = v.value.uInt8Value; break;
    case PTK::PTK_Int16: x = v.value.int16Value; break;
    case PTK::PTK_UInt16: x = v.value.uInt16Value; break;
    case PTK::PTK_Int32: x = v.value.int32Value; break;
    case PTK::PTK_UInt32: x = v.value.uInt32Value; break;
    default: x = v.value.int64Value;
    }
    return (x >= lo) & (x <= hi);
  };
  const auto a = number(k), b = number(k, "second");
  s.two(a, in(a), b, in(b));
}
ENTRY(p24_float) {
  Slot s;
  const auto k = static_cast<PTK>(11 + sym_choose("kind", 2));
  const auto l = number(PTK::PTK_Float64, "minimum"), h = number(PTK::PTK_Float64, "maximum");
  const double lo = l.value.float64Value, hi = h.value.float64Value;
  const bool li = sym_bool("min inclusive"), hi2 = sym_bool("max inclusive");
  sym_assume(lo == lo); sym_assume(hi == hi);
  s.w.t.reg.AddFloatType("T", "", id(9), lo, hi, li, hi2, "", k);
  s.open(id(9));
  auto in = [&](const AnySimple &v) {
    const double x = k == PTK::PTK_Float32 ? (double)v.value.float32Value : v.value.float64Value;
    sym_assume(x == x); // what becomes of a value that is no number is not decided
    return ((x > lo) | (li & (x == lo))) & ((x < hi) | (hi2 & (x == hi)));
  };
  const auto a = number(k);
  const bool va = in(a);
  const Res x = s.set(a);
  sym_check(x == (va ? OK : VALUE), "a value is accepted exactly when its type allows it");
  if (x == OK) sym_witness("accepted"); else sym_witness("refused");
  sym_check(same(s.get(), va ? a : AnySimple{}), "the last value accepted is kept");
}
ENTRY(p24_text) {
  Slot s;
  const unsigned n = (unsigned)sym_bound(3);
  const auto len = (Smp::Int64)sym_u64("length");
  sym_assume(len >= 0);
  s.w.t.reg.AddStringType("T", "", id(9), len);
  s.open(id(9));
  const SymStr a(n, "text", true), b(n, "second", true);
  const AnySimple x{PTK::PTK_String8, (Smp::String8)a.p}, y{PTK::PTK_String8, (Smp::String8)b.p};
  s.two(x, a.n <= (Smp::UInt64)len, y, b.n <= (Smp::UInt64)len);
}
ENTRY(p24_enumeration) {
  Slot s;
  const int c = (int)sym_choose("size", 4);
  const PTK k = c == 0 ? PTK::PTK_Int8 : c == 1 ? PTK::PTK_Int16 : c == 2 ? PTK::PTK_Int32 : PTK::PTK_Int64;
  auto *t = s.w.t.reg.AddEnumerationType("T", "", id(9), (Smp::Int16)(1 << c));
  const auto l0 = (Smp::Int32)sym_u32("literal"), l1 = (Smp::Int32)sym_u32("literal");
  sym_assume(l0 < l1);
  t->AddLiteral("l0", "", l0); t->AddLiteral("l1", "", l1);
  s.open(id(9));
  auto in = [&](const AnySimple &v) {
    const Smp::Int64 x = k == PTK::PTK_Int8 ? v.value.int8Value : k == PTK::PTK_Int16 ? v.value.int16Value : k == PTK::PTK_Int32 ? v.value.int32Value : v.value.int64Value;
    return (x == l0) | (x == l1);
  };
  const auto a = number(k), b = number(k, "second");
  s.two(a, in(a), b, in(b));
}
ENTRY(p24_index) {
  W w;
  auto *o = w.op();
  const auto n = (int)sym_choose("parameters", 4);
  const PTK ks[] = {PTK::PTK_Int16, PTK::PTK_Bool, PTK::PTK_Int64};
  const char *names[] = {"a", "b", "c"};
  const bool ret = sym_choose("return", 2);
  if (ret) o->PublishParameter("r", "", U::Uuid_Int8, PDK::PDK_Return);
  for (int i = 0; i < n; i++) o->PublishParameter(names[i], "", w.t.reg.GetType(ks[i])->GetUuid(), static_cast<PDK>(i));
  std::unique_ptr<Smp::IRequest> r(w.p.CreateRequest("op"));
  sym_check(r && !strcmp(r->GetOperationName(), "op"), "a request names its operation");
  sym_check(r->GetParameterCount() == n, "the return value is no parameter of the request");
  for (int i = 0; i < 3; i++) sym_check(r->GetParameterIndex(names[i]) == (i < n ? i : -1), "parameters are counted in their order");
  sym_check(r->GetParameterIndex("r") == -1 && r->GetParameterIndex(nullptr) == -1, "other names have no index");
  const auto i = (Smp::Int32)sym_u32("index");
  const bool in = (i >= 0) & (i < n);
  AnySimple v;
  for (int k = 0; k < n; k++) if (i == k) v = number(ks[k]);
  try { r->SetParameterValue(i, v); sym_check(in, "only an index of a parameter is accepted"); sym_witness("accepted"); }
  catch (const Smp::InvalidParameterIndex &e) {
    sym_check(!in, "an index of a parameter is accepted");
    sym_check(e.GetParameterIndex() == i && e.GetParameterCount() == n, "the index refused is told");
    sym_witness("refused");
  }
  const auto j = (Smp::Int32)sym_u32("index asked for");
  AnySimple got;
  const Res y = outcome([&] { got = r->GetParameterValue(j); });
  sym_check(y == ((j >= 0) & (j < n) ? OK : INDEX), "a value is given for the parameters only");
  if (y == OK) sym_check(same(got, in & (i == j) ? v : AnySimple{}), "a parameter has the value it was given, and the others have theirs");
}
ENTRY(p24_names) {
  W w;
  auto *o = w.op();
  o->PublishParameter("ab", "", U::Uuid_Int8, PDK::PDK_In);
  o->PublishParameter("b", "", U::Uuid_Int8, PDK::PDK_Out);
  o->PublishParameter("a", "", U::Uuid_Int8, PDK::PDK_InOut);
  o->PublishParameter("c", "", U::Uuid_Int8, PDK::PDK_Return);
  std::unique_ptr<Smp::IRequest> r(w.p.CreateRequest("op"));
  const SymStr s(3, "name");
  const char *ns[] = {"ab", "b", "a", "c"};
  int at = -1;
  for (int i = 0; i < 4; i++) { bool e = s.n == strlen(ns[i]); if (e) e = eqBytes(s.p, ns[i], s.n); if (e) at = i; }
  sym_check(r->GetParameterIndex(s.p) == (at == 3 ? -1 : at), "a name has the index of its parameter");
  auto *q = o->GetParameter(s.p);
  sym_check((q != nullptr) == (at >= 0), "an operation gives its parameters by name");
  if (q) sym_check(q == (at == 3 ? o->GetReturnParameter() : o->GetParameters()->at((std::size_t)at)), "the parameter named is given");
}
ENTRY(p24_flat) {
  // A request of composed parameters has one value per simple item.
  W w;
  auto *o = w.op();
  const int order = (int)sym_choose("order", 3);
  auto add = [&](int k) {
    if (k == 0) o->PublishParameter("s", "", id(3), PDK::PDK_In);
    else if (k == 1) o->PublishParameter("x", "", U::Uuid_Bool, PDK::PDK_In);
    else o->PublishParameter("v", "", id(2), PDK::PDK_Out);
  };
  for (int i = 0; i < 3; i++) add((order + i) % 3);
  sym_check(w.p.CreateRequest("op") == nullptr, "an operation of composed parameters has no request to invoke");
  XP::Request r{o, &w.t.reg};
  const char *ns[] = {"s.p", "s.q[0]", "s.q[1]", "x", "v[0]", "v[1]", "v[2]"};
  const PTK ks[] = {PTK::PTK_Int16, PTK::PTK_Int32, PTK::PTK_Int32, PTK::PTK_Bool, PTK::PTK_Int32, PTK::PTK_Int32, PTK::PTK_Int32};
  sym_check(r.GetParameterCount() == 7, "each simple item is a value of the request");
  AnySimple v[7];
  const int start = order == 0 ? 0 : order == 1 ? 3 : 4;
  for (int i = 0; i < 7; i++) {
    const int k = (start + i) % 7;
    sym_check(r.GetParameterIndex(ns[k]) == i, "items are counted in their order");
    v[i] = number(ks[k]);
    sym_check(outcome([&] { r.SetParameterValue(i, v[i]); }) == OK, "an item has the kind of its type");
    sym_check(outcome([&] { r.SetParameterValue(i, AnySimple{PTK::PTK_Char8, 'c'}); }) == TYPE, "an item has the kind of its type only");
  }
  for (int i = 0; i < 7; i++) sym_check(same(r.GetParameterValue(i), v[i]), "each item has its value");
  sym_check(r.GetParameterIndex("s") == -1 && r.GetParameterIndex("s.q") == -1 && r.GetParameterIndex("v[3]") == -1, "what is composed has no index");
}
ENTRY(p24_return) {
  W w;
  auto *o = w.op();
  o->PublishParameter("p", "", U::Uuid_Int8, PDK::PDK_In);
  std::unique_ptr<Smp::IRequest> r(w.p.CreateRequest("op"));
  const AnySimple v = number(static_cast<PTK>(sym_choose("kind", 16)));
  sym_check(outcome([&] { r->SetReturnValue(v); }) == VOIDOP, "an operation without a return value takes none");
  sym_check(outcome([&] { r->GetReturnValue(); }) == VOIDOP, "an operation without a return value gives none");
  o->PublishParameter("r", "", U::Uuid_Int32, PDK::PDK_Return);
  const AnySimple x = number(PTK::PTK_Int32);
  sym_check(outcome([&] { r->SetReturnValue(x); }) == OK && same(r->GetReturnValue(), x), "a return value is kept");
  sym_check(r->GetParameterValue(0).type == PTK::PTK_None, "the return value is no parameter");
}
ENTRY(p24_parameters) {
  // Any sequence of publications of parameters.
  W w;
  auto *o = w.op();
  const unsigned n = (unsigned)sym_bound(3);
  const char *names[] = {"a", "b"};
  struct P { int n; PDK d; PTK k; const char *desc; };
  std::vector<P> in;
  P ret{-1, PDK::PDK_Return, PTK::PTK_None, nullptr};
  const char *descs[] = {"d0", "d1", "d2", "d3"};
  for (unsigned i = 0; i < n; i++) {
    const int nm = (int)sym_choose("name", 2);
    const auto d = static_cast<PDK>(sym_choose("direction", 4));
    const auto known = sym_choose("known type", 2);
    const PTK k = i & 1 ? PTK::PTK_Int16 : PTK::PTK_Bool;
    bool dup = ret.n == nm;
    for (auto &p : in) dup |= p.n == nm;
    const bool second = d == PDK::PDK_Return && ret.n >= 0;
    bool ok = false;
    try { o->PublishParameter(names[nm], descs[i], known ? w.t.reg.GetType(k)->GetUuid() : id(77), d); ok = true; }
    catch (const Smp::Publication::TypeNotRegistered &) { sym_check(!known, "a known type is accepted"); }
    catch (const Smp::DuplicateName &) { sym_check(dup, "a new name is accepted"); }
    catch (const Smp::Exception &) { sym_check(second, "an operation returns one value"); }
    sym_check(ok == (known && !dup && !second), "a parameter is published exactly when its type is known and its name is new");
    if (ok) { const P p{nm, d, k, descs[i]}; if (d == PDK::PDK_Return) ret = p; else in.push_back(p); }
  }
  auto is = [&](Smp::IParameter *q, const P &p) {
    return q && !strcmp(q->GetName(), names[p.n]) && !strcmp(q->GetDescription(), p.desc) && q->GetDirection() == p.d && q->GetType()->GetPrimitiveTypeKind() == p.k && q->GetParent() == o;
  };
  sym_check(o->GetParameters()->size() == in.size(), "an operation has the parameters published");
  for (std::size_t i = 0; i < in.size(); i++) {
    sym_check(is(o->GetParameters()->at(i), in[i]), "a parameter is as published");
    sym_check(o->GetParameter(names[in[i].n]) == o->GetParameters()->at(i), "a parameter is found by its name");
  }
  sym_check((o->GetReturnParameter() != nullptr) == (ret.n >= 0), "an operation has the return value published");
  if (ret.n >= 0) sym_check(is(o->GetReturnParameter(), ret) && o->GetParameter(names[ret.n]) == o->GetReturnParameter(), "the return value is as published");
  sym_check(o->GetParameter("c") == nullptr && o->GetParameter(nullptr) == nullptr, "there are no other parameters");
  if (sym_choose("again", 2)) {
    auto *o2 = w.p.PublishOperation("op", "new", Smp::ViewKind::VK_All);
    sym_check(o2 == o && !strcmp(o->GetDescription(), "new") && o->GetView() == Smp::ViewKind::VK_All && w.p.GetOperations()->size() == 1, "an operation published again is the same");
    sym_check(o->GetParameters()->size() == 0 && !o->GetReturnParameter(), "its parameters are published anew");
  }
}
ENTRY(p24_refused_parameter) {
  // A name that is none.
  W w;
  auto *o = w.op();
  if (sym_choose("return", 2)) o->PublishParameter("r", "", U::Uuid_Int8, PDK::PDK_Return);
  const auto before = o->GetReturnParameter();
  const SymStr s(1, "name", true);
  const bool valid = s.n == 1 && (((s.p[0] >= 'a') & (s.p[0] <= 'z') & ((s.p[0] != 'r') | !before)) | ((s.p[0] >= 'A') & (s.p[0] <= 'Z')));
  const auto d = static_cast<PDK>(sym_choose("direction", 4));
  bool ok = true;
  try { o->PublishParameter(s.p, "", U::Uuid_Int8, d); }
  catch (const Smp::Exception &) { ok = false; }
  sym_check(ok == (valid & !(d == PDK::PDK_Return && before)), "a parameter has a valid name");
  sym_check(o->GetParameters()->size() == (ok && d != PDK::PDK_Return), "a refused parameter is not published");
  if (!ok) sym_check(o->GetReturnParameter() == before, "a refused return value is not published");
}
namespace {
// A request that says what it likes.
struct Fake final : Smp::IRequest {
  const char *name = "op"; Smp::Int32 count = 2; AnySimple v[2];
  Smp::String8 GetOperationName() const override { return name; }
  Smp::Int32 GetParameterCount() const override { return count; }
  Smp::Int32 GetParameterIndex(Smp::String8 n) const override { return *n == 'a' ? 0 : 1; }
  void SetParameterValue(Smp::Int32, AnySimple) override {}
  AnySimple GetParameterValue(Smp::Int32 i) const override { return v[i]; }
  void SetReturnValue(AnySimple) override {}
  AnySimple GetReturnValue() const override { return {}; }
};
}
ENTRY(p24_invoke) {
  W w;
  auto *o = w.op();
  const auto d0 = static_cast<PDK>(sym_choose("direction", 3)), d1 = static_cast<PDK>(sym_choose("direction", 3));
  o->PublishParameter("a", "", U::Uuid_Int16, d0);
  o->PublishParameter("b", "", U::Uuid_Bool, d1);
  Fake f;
  const int name = (int)sym_choose("request", 4);
  const char *names[] = {"op", "other", nullptr};
  if (name < 3) f.name = names[name];
  f.count = (Smp::Int32)sym_u32("count");
  const PTK ks[] = {PTK::PTK_None, PTK::PTK_Int16, PTK::PTK_Bool};
  const PTK k0 = ks[sym_choose("first", 3)], k1 = ks[sym_choose("second", 3)];
  f.v[0] = number(k0); f.v[1] = number(k1);
  const bool named = name == 0, counted = f.count == 2, typed = (d0 == PDK::PDK_Out || k0 == PTK::PTK_Int16) && (d1 == PDK::PDK_Out || k1 == PTK::PTK_Bool);
  int why = 0;
  try { o->Invoke(name == 3 ? nullptr : &f); }
  catch (const Smp::InvalidOperationName &) { why = 1; }
  catch (const Smp::InvalidParameterCount &e) { why = 2; sym_check(e.GetOperationParameters() == 2 && e.GetRequestParameters() == f.count, "the counts are told"); }
  catch (const Smp::InvalidParameterType &e) {
    why = 3;
    const bool first = d0 != PDK::PDK_Out && k0 != PTK::PTK_Int16;
    sym_check(!strcmp(e.GetParameterName(), first ? "a" : "b") && e.GetInvalidType() == (first ? k0 : k1) && e.GetExpectedType() == (first ? PTK::PTK_Int16 : PTK::PTK_Bool), "the parameter of a wrong kind is told");
  }
  sym_check(why == (!named ? 1 : !counted ? 2 : !typed ? 3 : 0), "an operation is invoked exactly with a request of its name, count and kinds");
  sym_check(w.m.calls == (why ? 0 : 1) && (why || w.m.last == &f), "the component is invoked once with the request");
}
ENTRY(p24_not_invokable) {
  // The operation of a component without dynamic invocation.
  fl::Types t;
  ::Xsmp::Object owner{"o", "", nullptr};
  XP::Operation o{"op", "", sym_choose("parent", 2) ? &owner : nullptr, Smp::ViewKind::VK_None, &t.reg};
  std::unique_ptr<Smp::IRequest> r(o.CreateRequest());
  bool refused = false;
  try { o.Invoke(r.get()); } catch (const Smp::InvalidOperationName &) { refused = true; }
  sym_check(refused, "an operation without a component to invoke is refused");
  o.DeleteRequest(r.release());
}
ENTRY(p24_property_value) {
  W w;
  const auto lo = (Smp::Int64)sym_u64("minimum"), hi = (Smp::Int64)sym_u64("maximum");
  w.t.reg.AddIntegerType("T", "", id(9), lo, hi, "", PTK::PTK_Int16);
  const auto ak = static_cast<Smp::AccessKind>(sym_choose("access", 3));
  const bool rd = ak != Smp::AccessKind::AK_WriteOnly, wr = ak != Smp::AccessKind::AK_ReadOnly;
  w.p.PublishProperty("prop", "d", id(9), ak, Smp::ViewKind::VK_All);
  auto *p = w.p.GetProperties()->at("prop");
  sym_check(p && p->GetAccess() == ak && p->GetView() == Smp::ViewKind::VK_All && p->GetType() == w.t.reg.GetType(id(9)) && p->GetParent() == &w.m, "a property is as published");
  const AnySimple v = number(sym_choose("other kind", 2) ? PTK::PTK_UInt16 : PTK::PTK_Int16);
  const bool typed = v.type == PTK::PTK_Int16, in = typed & (v.value.int16Value >= lo) & (v.value.int16Value <= hi);
  if (sym_choose("write", 2)) {
    Res r = OK; bool access = true;
    try { r = outcome([&] { p->SetValue(v); }); } catch (const Smp::Exception &) { access = false; }
    sym_check(access == wr, "a property is written exactly when its access allows it");
    if (access) sym_check(r == (!typed ? TYPE : !in ? VALUE : OK), "a property accepts the values of its type");
    sym_check(w.m.calls == (access && r == OK), "the component is asked once, with a valid value");
    if (w.m.calls) sym_check(same(w.m.seen, v), "the component gets the value");
  } else {
    w.m.answers = true; w.m.answer = v;
    Res r = OK; bool access = true; AnySimple got;
    try { r = outcome([&] { got = p->GetValue(); }); } catch (const Smp::Exception &) { access = false; }
    sym_check(access == rd, "a property is read exactly when its access allows it");
    sym_check(w.m.calls == access, "the component is asked once");
    if (access) sym_check(r == (!typed ? TYPE : !in ? VALUE : OK), "a property gives the values of its type");
    if (access && r == OK) sym_check(same(got, v), "the value of the component is given");
  }
}
ENTRY(p24_property_request) {
  W w;
  const auto ak = static_cast<Smp::AccessKind>(sym_choose("access", 3));
  w.p.PublishProperty("prop", "", U::Uuid_Int32, ak, Smp::ViewKind::VK_None);
  std::unique_ptr<Smp::IRequest> g(w.p.CreateRequest("get_prop")), s(w.p.CreateRequest("set_prop"));
  sym_check((g != nullptr) == (ak != Smp::AccessKind::AK_WriteOnly) && (s != nullptr) == (ak != Smp::AccessKind::AK_ReadOnly), "a property has the requests its access allows");
  const auto i = (Smp::Int32)sym_u32("index");
  const AnySimple v = number(sym_choose("other kind", 2) ? PTK::PTK_UInt32 : PTK::PTK_Int32);
  const bool typed = v.type == PTK::PTK_Int32;
  if (g) {
    sym_check(!strcmp(g->GetOperationName(), "get_prop") && g->GetParameterCount() == 0 && g->GetParameterIndex("prop") == -1, "a getter has no parameters");
    try { if (sym_choose("set", 2)) g->SetParameterValue(i, v); else g->GetParameterValue(i); sym_fail("a getter has no parameters"); }
    catch (const Smp::InvalidParameterIndex &e) { sym_check(e.GetParameterIndex() == i && e.GetParameterCount() == 0, "the index refused is told"); }
    sym_check(outcome([&] { g->SetReturnValue(v); }) == (typed ? OK : TYPE), "a getter returns a value of the type");
    sym_check(same(g->GetReturnValue(), typed ? v : AnySimple{}), "a getter keeps the value");
  }
  if (s) {
    sym_check(!strcmp(s->GetOperationName(), "set_prop") && s->GetParameterCount() == 1 && s->GetParameterIndex("prop") == 0, "a setter has one parameter");
    Res r = OK;
    try { s->SetParameterValue(i, v); }
    catch (const Smp::InvalidParameterIndex &e) { r = INDEX; sym_check(e.GetParameterIndex() == i && e.GetParameterCount() == 1, "the index refused is told"); }
    catch (const Smp::InvalidAnyType &) { r = TYPE; }
    sym_check(r == (i != 0 ? INDEX : typed ? OK : TYPE), "a setter accepts a value of the type");
    AnySimple got;
    try { got = s->GetParameterValue(i); sym_check(i == 0, "a setter has one parameter"); }
    catch (const Smp::InvalidParameterIndex &e) { sym_check(i != 0 && e.GetParameterCount() == 1, "a setter has one parameter"); }
    sym_check(same(got, r == OK ? v : AnySimple{}), "a setter keeps the value");
    sym_check(outcome([&] { s->SetReturnValue(v); }) == VOIDOP && outcome([&] { s->GetReturnValue(); }) == VOIDOP, "a setter returns nothing");
  }
}
ENTRY(p24_create) {
  // Which operations have requests.
  W w;
  auto *o = w.op("op");
  const auto pk = sym_choose("parameter", 3), rk = sym_choose("return", 3);
  if (pk) o->PublishParameter("p", "", pk == 1 ? U::Uuid_Int8 : id(1), PDK::PDK_In);
  if (rk) o->PublishParameter("r", "", rk == 1 ? U::Uuid_Int8 : id(3), PDK::PDK_Return);
  auto *g = sym_choose("get operation", 2) ? w.op("get_prop") : nullptr;
  w.p.PublishProperty("prop", "", U::Uuid_Int32, Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_None);
  const char *ns[] = {"op", "get_prop", "set_prop", "get_", "set_op", "prop", "", nullptr, "oper"};
  const auto c = sym_choose("name", 9);
  auto *r = w.p.CreateRequest(ns[c]);
  sym_check((r != nullptr) == (c == 0 ? pk < 2 && rk < 2 : c < 3), "an operation of simple types and a property have requests, and nothing else has");
  if (r) sym_check(!strcmp(r->GetOperationName(), ns[c]), "a request names its operation");
  if (r && c == 1) sym_check(outcome([&] { r->GetReturnValue(); }) == (g ? VOIDOP : OK), "an operation goes before a property");
  w.p.DeleteRequest(r);
  w.p.DeleteRequest(nullptr);
}
ENTRY(p24_simple_helper) {
  using R = ::Xsmp::Request;
  W w;
  auto *o = w.op();
  o->PublishParameter("a", "", U::Uuid_Int16, PDK::PDK_InOut);
  o->PublishParameter("b", "", U::Uuid_Int32, PDK::PDK_InOut);
  o->PublishParameter("r", "", U::Uuid_Int16, PDK::PDK_Return);
  std::unique_ptr<Smp::IRequest> r(w.p.CreateRequest("op"));
  const auto v = (Smp::Int16)sym_u16("value");
  const auto x = (Smp::Int32)sym_u32("other");
  R::set<Smp::Int16>(&w.m, r.get(), "a", PTK::PTK_Int16, v);
  R::set<Smp::Int32>(&w.m, r.get(), "b", PTK::PTK_Int32, x);
  sym_check(R::get<Smp::Int16>(&w.m, r.get(), "a", PTK::PTK_Int16) == v && R::get<Smp::Int32>(&w.m, r.get(), "b", PTK::PTK_Int32) == x, "a value set is given");
  sym_check(R::get<Smp::Int16>(&w.m, r.get(), "a", PTK::PTK_Int16, (Smp::Int16)7) == v, "a value given goes before its default");
  sym_check(R::get<Smp::Int32>(&w.m, r.get(), "z", PTK::PTK_Int32, x) == x, "a missing parameter has its default");
  R::setReturnValue<Smp::Int16>(r.get(), PTK::PTK_Int16, v);
  sym_check(r->GetReturnValue().type == PTK::PTK_Int16 && r->GetReturnValue().value.int16Value == v, "the return value set is given");
  bool t = false, m = false, s = false;
  try { (void)R::get<Smp::Int32>(&w.m, r.get(), "a", PTK::PTK_Int32); } catch (const Smp::InvalidParameterType &) { t = true; }
  try { (void)R::get<Smp::Int32>(&w.m, r.get(), "z", PTK::PTK_Int32); } catch (const Smp::Exception &) { m = true; }
  try { R::set<Smp::Int32>(&w.m, r.get(), "z", PTK::PTK_Int32, x); } catch (const Smp::Exception &) { s = true; }
  sym_check(t && m && s, "another kind and a missing parameter are refused");
}
namespace {
struct Sim final { Smp::Publication::ITypeRegistry *r; Smp::Publication::ITypeRegistry *GetTypeRegistry() const { return r; } };
struct C : M { using M::M; Sim *sim; Sim *GetSimulator() const { return sim; } };
}
ENTRY(p24_helper) {
  using R = ::Xsmp::Request;
  W w;
  Sim sim{&w.t.reg};
  C c{"c", "", nullptr, nullptr};
  c.sim = &sim;
  auto *o = w.op();
  o->PublishParameter("x", "", U::Uuid_Int16, PDK::PDK_In);
  o->PublishParameter("s", "", id(3), PDK::PDK_InOut);
  o->PublishParameter("v", "", id(2), PDK::PDK_InOut);
  XP::Request r{o, &w.t.reg};
  fl::St s{}, d{};
  s.p = (Smp::Int16)sym_u16("p"); s.q[0] = (Smp::Int32)sym_u32("q"); s.q[1] = (Smp::Int32)sym_u32("q");
  d.p = (Smp::Int16)sym_u16("default"); d.q[0] = 5; d.q[1] = 6;
  fl::SArr v{}, e{};
  for (int i = 0; i < 3; i++) { v[i] = (Smp::Int32)sym_u32("v"); e[i] = 7 + i; }
  R::set<fl::St>(&c, &r, "s", id(3), s);
  R::set<fl::SArr>(&c, &r, "v", id(2), v);
  const auto s2 = R::get<fl::St>(&c, &r, "s", id(3));
  sym_check(s2.p == s.p && s2.q[0] == s.q[0] && s2.q[1] == s.q[1], "a structure set is given");
  const auto v2 = R::get<fl::SArr>(&c, &r, "v", id(2));
  for (int i = 0; i < 3; i++) sym_check(v2[i] == v[i], "an array set is given");
  const auto s3 = R::get<fl::St>(&c, &r, "z", id(3), d);
  sym_check(s3.p == d.p && s3.q[0] == 5 && s3.q[1] == 6, "a missing structure has its default");
  const auto v3 = R::get<fl::SArr>(&c, &r, "z", id(2), e);
  for (int i = 0; i < 3; i++) sym_check(v3[i] == 7 + i, "a missing array has its default");
  const auto s4 = R::get<fl::St>(&c, &r, "s", id(3), d);
  sym_check(s4.p == s.p && s4.q[0] == s.q[0] && s4.q[1] == s.q[1], "a structure given goes before its default");
  bool m = false, n = false, k = false;
  try { (void)R::get<fl::St>(&c, &r, "z", id(3)); } catch (const Smp::Exception &) { m = true; }
  try { R::set<fl::SArr>(&c, &r, "z", id(2), v); } catch (const Smp::Exception &) { n = true; }
  try { (void)R::get<fl::SArr>(&c, &r, "z", id(2)); } catch (const Smp::Exception &) { k = true; }
  sym_check(m && n && k, "a missing parameter is refused");
}
