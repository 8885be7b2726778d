// P23: the type registry.
// SOURCES: src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp
// UBSAN: yes
// ENTRY p23_primitives
// ENTRY p23_predefined
// ENTRY p23_lookup weight=2
// ENTRY p23_once weight=2
// ENTRY p23_names quick=3 thorough=4
// ENTRY p23_texts
// ENTRY p23_integer
// ENTRY p23_float
// ENTRY p23_enumeration
// ENTRY p23_literals quick=3 thorough=4
// ENTRY p23_string
// ENTRY p23_array
// ENTRY p23_array_item
// ENTRY p23_structure quick=2 thorough=3
// ENTRY p23_class
// ENTRY p23_publish
// ENTRY p23_sender
// ENTRY p23_refused
#include "hlib.h"
#include <Smp/Exception.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/IPublication.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Xsmp/Publication/Type.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <string.h>
namespace XP = ::Xsmp::Publication;
using PTK = Smp::PrimitiveTypeKind;
namespace U = Smp::Uuids;
namespace {
Smp::Uuid id(std::uint32_t n) { Smp::Uuid u{}; u.Data1 = 0xabc00000u + n; return u; }
Smp::Uuid anyId(const char *n) {
  Smp::Uuid u{};
  u.Data1 = sym_u32(n);
  for (auto &x : u.Data2) x = sym_u16(n);
  for (auto &x : u.Data3) x = sym_u8(n);
  return u;
}
bool same(const Smp::Uuid &a, const Smp::Uuid &b) {
  bool ok = a.Data1 == b.Data1;
  for (int i = 0; i < 3; i++) ok &= a.Data2[i] == b.Data2[i];
  for (int i = 0; i < 6; i++) ok &= a.Data3[i] == b.Data3[i];
  return ok;
}
struct K { PTK k; const Smp::Uuid &u; const char *n; };
const K ks[] = {{PTK::PTK_None, U::Uuid_Void, "Void"}, {PTK::PTK_Char8, U::Uuid_Char8, "Char8"}, {PTK::PTK_Bool, U::Uuid_Bool, "Bool"},
  {PTK::PTK_Int8, U::Uuid_Int8, "Int8"}, {PTK::PTK_UInt8, U::Uuid_UInt8, "UInt8"}, {PTK::PTK_Int16, U::Uuid_Int16, "Int16"}, {PTK::PTK_UInt16, U::Uuid_UInt16, "UInt16"},
  {PTK::PTK_Int32, U::Uuid_Int32, "Int32"}, {PTK::PTK_UInt32, U::Uuid_UInt32, "UInt32"}, {PTK::PTK_Int64, U::Uuid_Int64, "Int64"}, {PTK::PTK_UInt64, U::Uuid_UInt64, "UInt64"},
  {PTK::PTK_Float32, U::Uuid_Float32, "Float32"}, {PTK::PTK_Float64, U::Uuid_Float64, "Float64"}, {PTK::PTK_Duration, U::Uuid_Duration, "Duration"}, {PTK::PTK_DateTime, U::Uuid_DateTime, "DateTime"},
  {PTK::PTK_String8, U::Uuid_String8, "String8"}};
// Registers a type of the n-th sort.
Smp::Publication::IType *add(XP::TypeRegistry &r, unsigned n, Smp::Uuid u, const char *name = "T") {
  switch (n) {
  case 0: return r.AddIntegerType(name, "", u, 0, 1, "");
  case 1: return r.AddFloatType(name, "", u, 0, 1, true, true, "");
  case 2: return r.AddEnumerationType(name, "", u, 4);
  case 3: return r.AddArrayType(name, "", u, U::Uuid_Int32, 4, 2);
  case 4: return r.AddStringType(name, "", u, 3);
  case 5: return r.AddStructureType(name, "", u);
  default: return r.AddClassType(name, "", u, U::Uuid_Void);
  }
}
double anyDouble(const char *n) { auto b = sym_u64(n); double d; memcpy(&d, &b, 8); return d; }
bool bits(double a, double b) { return !memcmp(&a, &b, 8); }
}
ENTRY(p23_primitives) {
  XP::TypeRegistry r;
  const auto k = sym_u32("kind");
  auto *t = r.GetType(static_cast<PTK>(k));
  sym_check((t != nullptr) == (k < 16), "every primitive kind, and nothing else, has a type");
  if (!t) { sym_witness("unknown kind"); return; }
  const auto i = sym_concretize(k);
  sym_check(t->GetPrimitiveTypeKind() == ks[i].k, "the type of a primitive kind is of this kind");
  sym_check(same(t->GetUuid(), ks[i].u), "the type of a primitive kind has its UUID");
  sym_check(t == r.GetType(ks[i].u), "a primitive type is found by its UUID");
  sym_check(!strcmp(t->GetName(), ks[i].n), "a primitive type has its name");
  sym_check(t->GetParent() == &r, "a type belongs to its registry");
}
ENTRY(p23_predefined) {
  struct E { const Smp::Uuid &u; const char *n; int count; const char *first, *last; };
  const E es[] = {{U::Uuid_PrimitiveTypeKind, "PrimitiveTypeKind", 16, "PTK_None", "PTK_String8"}, {U::Uuid_TimeKind, "TimeKind", 4, "TK_SimulationTime", "TK_ZuluTime"},
    {U::Uuid_ViewKind, "ViewKind", 4, "VK_None", "VK_All"}, {U::Uuid_ParameterDirectionKind, "ParameterDirectionKind", 4, "PDK_In", "PDK_Return"},
    {U::Uuid_ComponentStateKind, "ComponentStateKind", 5, "CSK_Created", "CSK_Disconnected"}, {U::Uuid_AccessKind, "AccessKind", 3, "AK_ReadWrite", "AK_WriteOnly"},
    {U::Uuid_SimulatorStateKind, "SimulatorStateKind", 10, "SSK_Building", "SSK_Aborting"}};
  Smp::IObject *const parent = sym_choose("parent", 2) ? new XP::TypeRegistry : nullptr;
  XP::TypeRegistry r{parent};
  sym_check(r.GetParent() == parent, "the registry has its parent");
  for (auto &e : es) {
    auto *t = dynamic_cast<XP::EnumerationType *>(r.GetType(e.u));
    sym_check(t != nullptr, "the enumerations of the standard are registered");
    if (!t) continue;
    sym_check(!strcmp(t->GetName(), e.n), "an enumeration of the standard has its name");
    sym_check(t->GetPrimitiveTypeKind() == PTK::PTK_Int32, "an enumeration of the standard is a 32-bit number");
    auto &l = t->GetLiterals();
    sym_check(l.size() == (std::size_t)e.count && l.begin()->first == 0 && l.rbegin()->first == e.count - 1, "an enumeration of the standard has its literals");
    sym_check(!strcmp(l.begin()->second.name.c_str(), e.first) && !strcmp(l.rbegin()->second.name.c_str(), e.last), "literals have their names");
  }
  auto *ev = dynamic_cast<XP::IntegerType *>(r.GetType(U::Uuid_EventId));
  sym_check(ev && ev->GetPrimitiveTypeKind() == PTK::PTK_Int64 && ev->getMinimum() == INT64_MIN && ev->getMaximum() == INT64_MAX, "an event identifier is any 64-bit number");
  auto *lm = dynamic_cast<XP::IntegerType *>(r.GetType(U::Uuid_LogMessageKind));
  sym_check(lm && lm->GetPrimitiveTypeKind() == PTK::PTK_Int32 && lm->getMinimum() == 0 && lm->getMaximum() == INT32_MAX, "a log message kind is a non-negative 32-bit number");
  delete parent;
}
ENTRY(p23_lookup) {
  XP::TypeRegistry r;
  auto *t = add(r, 3 * (unsigned)sym_choose("sort", 2), id(1));
  const auto u = anyId("uuid");
  auto *f = r.GetType(u);
  sym_check(r.GetType(id(1)) == t, "a registered type is found by its UUID");
  sym_check((f == t) == same(u, id(1)), "a type is found by its own UUID only");
  if (f) sym_check(same(f->GetUuid(), u), "the type found has the UUID asked for");
  bool known = same(u, id(1)) | same(u, U::Uuid_PrimitiveTypeKind) | same(u, U::Uuid_EventId) | same(u, U::Uuid_LogMessageKind) | same(u, U::Uuid_TimeKind) |
    same(u, U::Uuid_ViewKind) | same(u, U::Uuid_ParameterDirectionKind) | same(u, U::Uuid_ComponentStateKind) | same(u, U::Uuid_AccessKind) | same(u, U::Uuid_SimulatorStateKind);
  for (auto &k : ks) known |= same(u, k.u);
  sym_check((f != nullptr) == known, "nothing is found for a UUID that is not registered");
}
ENTRY(p23_once) {
  XP::TypeRegistry r;
  const auto a = (unsigned)sym_choose("sort", 7), b = (a + (unsigned)sym_choose("second sort", 2)) % 7;
  Smp::Uuid u = id(1), v = id(1);
  v.Data1 = sym_u32("uuid"); v.Data3[5] = sym_u8("uuid");
  auto *t = add(r, a, u, "First");
  auto *before = r.GetType(v);
  Smp::Publication::IType *s = nullptr;
  try { s = add(r, b, v, "Second"); }
  catch (const Smp::Publication::TypeAlreadyRegistered &e) {
    sym_witness("refused");
    sym_check(before != nullptr, "only a UUID that is registered already is refused");
    sym_check(r.GetType(v) == before && r.GetType(u) == t, "a refused registration changes nothing");
    sym_check(!strcmp(t->GetName(), "First") && e.GetType() == before && !strcmp(e.GetTypeName(), "Second"), "the registration refused is named");
    sym_check(e.GetSender() == static_cast<Smp::IObject *>(&r), "the registry refuses");
    return;
  }
  sym_witness("accepted");
  sym_check(before == nullptr, "a UUID is registered at most once");
  sym_check(s != t && r.GetType(v) == s && r.GetType(u) == t, "both types are registered");
  sym_check(same(s->GetUuid(), v) && same(t->GetUuid(), u), "a type has the UUID it is registered for");
}
ENTRY(p23_names) {
  XP::TypeRegistry r;
  const SymStr n((unsigned)sym_bound(3), "name", true);
  bool valid = n.p && n.n;
  if (valid) {
    auto alpha = [](unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); };
    auto digit = [](unsigned char c) { return (c >= '0') & (c <= '9'); };
    bool plain = alpha(n.p[0]), index = (n.p[0] == '[') & (n.n >= 3) & (n.p[n.n - 1] == ']');
    for (unsigned i = 1; i < n.n; i++) plain &= alpha(n.p[i]) | digit(n.p[i]) | (n.p[i] == '_');
    for (unsigned i = 1; i + 1 < n.n; i++) index &= digit(n.p[i]);
    // Other forms (a name followed by indices) are not decided here.
    for (unsigned i = 1; i < n.n; i++) sym_assume(index | (n.p[i] != '['));
    valid = plain | index;
  }
  const auto sort = (unsigned)sym_choose("sort", 7);
  bool ok = true;
  Smp::Publication::IType *t = nullptr;
  try { t = add(r, sort, id(1), n.p); }
  catch (const Smp::InvalidObjectName &) { ok = false; }
  sym_check(ok == valid, "a type is registered exactly under a valid name");
  sym_check(r.GetType(id(1)) == t, "a type that cannot be named is not registered");
  if (ok) sym_check(!strcmp(t->GetName(), n.p), "a type has its name");
}
ENTRY(p23_texts) {
  XP::TypeRegistry r;
  char name[] = "Name", desc[3] = {0, 0, 0}, unit[3] = {0, 0, 0};
  desc[0] = (char)sym_u8("description"); desc[1] = (char)sym_u8("description");
  unit[0] = (char)sym_u8("unit"); unit[1] = (char)sym_u8("unit");
  char d0[3], u0[3];
  memcpy(d0, desc, 3); memcpy(u0, unit, 3);
  const auto which = sym_choose("sort", 6);
  Smp::Publication::IType *t;
  switch (which) {
  case 0: t = r.AddIntegerType(name, desc, id(1), 0, 1, unit); break;
  case 1: t = r.AddFloatType(name, desc, id(1), 0, 1, true, true, unit); break;
  case 2: t = r.AddEnumerationType(name, desc, id(1), 4); break;
  case 3: t = r.AddArrayType(name, desc, id(1), U::Uuid_Int32, 4, 2); break;
  case 4: t = r.AddStringType(name, desc, id(1), 3); break;
  default: t = r.AddClassType(name, desc, id(1), U::Uuid_Void); break;
  }
  memset(name, 'x', 4); memset(desc, 'y', 2); memset(unit, 'z', 2);
  sym_check(!strcmp(t->GetName(), "Name"), "a type keeps its name");
  sym_check(!strcmp(t->GetDescription(), d0), "a type keeps its description");
  if (which == 0) sym_check(!strcmp(dynamic_cast<XP::IntegerType *>(t)->getUnit(), u0), "a type keeps its unit");
  if (which == 1) sym_check(!strcmp(dynamic_cast<XP::FloatType *>(t)->getUnit(), u0), "a type keeps its unit");
}
ENTRY(p23_integer) {
  XP::TypeRegistry r;
  const auto lo = (Smp::Int64)sym_u64("minimum"), hi = (Smp::Int64)sym_u64("maximum");
  const auto k = sym_u32("kind");
  try {
    auto *t = dynamic_cast<XP::IntegerType *>(r.AddIntegerType("T", "", id(1), lo, hi, "", static_cast<PTK>(k)));
    sym_check((k >= 3) & (k <= 10), "an integer type is of an integer kind");
    sym_check(t && t->getMinimum() == lo && t->getMaximum() == hi && t->GetPrimitiveTypeKind() == static_cast<PTK>(k), "an integer type has its range and kind");
    sym_check(r.GetType(id(1)) == t, "the integer type is registered");
    sym_witness("accepted");
  } catch (const Smp::Publication::InvalidPrimitiveType &) {
    sym_check((k < 3) | (k > 10), "an integer kind is accepted");
    sym_check(!r.GetType(id(1)), "a refused type is not registered");
    sym_witness("refused");
  }
  auto *d = dynamic_cast<XP::IntegerType *>(static_cast<Smp::Publication::ITypeRegistry &>(r).AddIntegerType("T", "", id(2), lo, hi, ""));
  sym_check(d->GetPrimitiveTypeKind() == PTK::PTK_Int32, "an integer type is Int32 by default");
}
ENTRY(p23_float) {
  XP::TypeRegistry r;
  const auto lo = anyDouble("minimum"), hi = anyDouble("maximum");
  const bool li = sym_bool("min inclusive"), hi2 = sym_bool("max inclusive");
  const auto k = sym_u32("kind");
  try {
    auto *t = dynamic_cast<XP::FloatType *>(r.AddFloatType("T", "", id(1), lo, hi, li, hi2, "", static_cast<PTK>(k)));
    sym_check((k == 11) | (k == 12), "a float type is of a floating-point kind");
    sym_check(t && bits(t->getMinimum(), lo) && bits(t->getMaximum(), hi) && t->GetPrimitiveTypeKind() == static_cast<PTK>(k), "a float type has its range and kind");
    sym_check(t->IsMinInclusive() == li && t->IsMaxInclusive() == hi2, "a float type has its bounds");
    sym_check(r.GetType(id(1)) == t, "the float type is registered");
    sym_witness("accepted");
  } catch (const Smp::Publication::InvalidPrimitiveType &) {
    sym_check((k != 11) & (k != 12), "a floating-point kind is accepted");
    sym_check(!r.GetType(id(1)), "a refused type is not registered");
    sym_witness("refused");
  }
}
ENTRY(p23_enumeration) {
  XP::TypeRegistry r;
  const auto n = (Smp::Int16)sym_u16("memory size");
  try {
    auto *t = r.AddEnumerationType("T", "", id(1), n);
    sym_check((n == 1) | (n == 2) | (n == 4) | (n == 8), "an enumeration has 1, 2, 4 or 8 bytes");
    const auto k = t->GetPrimitiveTypeKind();
    sym_check(k == (n == 1 ? PTK::PTK_Int8 : n == 2 ? PTK::PTK_Int16 : n == 4 ? PTK::PTK_Int32 : PTK::PTK_Int64), "an enumeration has the kind of its size");
    sym_check(r.GetType(id(1)) == t && dynamic_cast<XP::EnumerationType *>(t)->GetLiterals().empty(), "the enumeration is registered without literals");
    sym_witness("accepted");
  } catch (const Smp::Publication::InvalidPrimitiveType &) {
    sym_check((n != 1) & (n != 2) & (n != 4) & (n != 8), "a size of 1, 2, 4 or 8 bytes is accepted");
    sym_check(!r.GetType(id(1)), "a refused type is not registered");
    sym_witness("refused");
  }
}
ENTRY(p23_literals) {
  XP::TypeRegistry r;
  auto *t = dynamic_cast<XP::EnumerationType *>(r.AddEnumerationType("T", "", id(1), 4));
  const unsigned n = (unsigned)sym_bound(3);
  Smp::Int32 v[4]; bool in[4];
  const char *names[] = {"a", "b", "c", "d"}, *descs[] = {"da", "db", "dc", "dd"};
  std::size_t count = 0;
  for (unsigned i = 0; i < n; i++) {
    v[i] = (Smp::Int32)sym_u32("value");
    bool dup = false;
    for (unsigned j = 0; j < i; j++) dup |= in[j] & (v[j] == v[i]);
    try { t->AddLiteral(names[i], descs[i], v[i]); in[i] = true; }
    catch (const Smp::Publication::DuplicateLiteral &e) { in[i] = false; sym_check(e.GetLiteralValue() == v[i], "the literal refused is named"); }
    sym_check(in[i] == !dup, "a literal is added exactly when its value is new");
    count += in[i];
  }
  auto &l = t->GetLiterals();
  sym_check(l.size() == count, "an enumeration has the literals added");
  for (unsigned i = 0; i < n; i++) if (in[i]) {
    auto it = l.find(v[i]);
    sym_check(it != l.end() && !strcmp(it->second.name.c_str(), names[i]) && !strcmp(it->second.description.c_str(), descs[i]), "a literal keeps its name and description");
  }
}
ENTRY(p23_string) {
  XP::TypeRegistry r;
  const auto n = (Smp::Int64)sym_u64("length");
  auto *t = dynamic_cast<XP::StringType *>(r.AddStringType("T", "", id(1), n));
  sym_check(t && t->GetLength() == n && t->GetPrimitiveTypeKind() == PTK::PTK_String8 && r.GetType(id(1)) == t, "a string type has its length");
}
ENTRY(p23_array) {
  XP::TypeRegistry r;
  const auto size = (Smp::Int64)sym_u64("item size"), count = (Smp::Int64)sym_u64("count");
  const bool simple = sym_bool("simple");
  auto *it = add(r, (unsigned)sym_choose("item", 7), id(2));
  auto *t = dynamic_cast<XP::ArrayType *>(r.AddArrayType("T", "", id(1), id(2), size, count, simple));
  sym_check(t && t->GetItemType() == it && t->IsSimpleArray() == simple, "an array type has its item type");
  sym_check(t->GetItemSize() == (size < 0 ? 0 : (Smp::UInt64)size) && t->GetSize() == (count < 0 ? 0 : (Smp::UInt64)count), "an array type has its size, and none when it is negative");
  sym_check(t->GetPrimitiveTypeKind() == PTK::PTK_None && r.GetType(id(1)) == t, "an array type is no primitive type");
}
ENTRY(p23_array_item) {
  XP::TypeRegistry r;
  auto u = U::Uuid_Void;
  u.Data1 = sym_u32("item"); u.Data3[5] = sym_u8("item");
  auto *it = r.GetType(u);
  const bool text = same(u, U::Uuid_String8) | same(u, U::Uuid_Void);
  bool ok = false;
  try { ok = dynamic_cast<XP::ArrayType *>(r.AddArrayType("T", "", id(1), u, 4, 2))->GetItemType() == it; }
  catch (const Smp::Publication::TypeNotRegistered &e) { sym_witness("unknown item"); sym_check(!it, "a registered item type is known"); sym_check(same(e.GetUuid(), u), "the item type unknown is named"); }
  catch (const Smp::Exception &) { sym_witness("no item"); sym_check(text, "only texts and void are no item types"); }
  sym_check(ok == (it && !text), "an array is registered exactly for an item type it supports");
  sym_check((r.GetType(id(1)) != nullptr) == ok, "a refused array type is not registered");
}
ENTRY(p23_structure) {
  XP::TypeRegistry r;
  const unsigned n = (unsigned)sym_bound(2);
  Smp::Publication::IStructureType *t = sym_choose("class", 2) ? r.AddClassType("T", "", id(1), U::Uuid_Void) : r.AddStructureType("T", "", id(1));
  struct F { char name[2], desc[2]; Smp::Uuid u; Smp::Int64 off; Smp::ViewKind view; bool s, i, o; } f[3] = {};
  for (unsigned k = 0; k < n; k++) {
    f[k].name[0] = (char)sym_u8("name"); f[k].desc[0] = (char)sym_u8("description"); f[k].u = anyId("uuid"); f[k].off = (Smp::Int64)sym_u64("offset");
    f[k].view = static_cast<Smp::ViewKind>(sym_u32("view")); f[k].s = sym_bool("state"); f[k].i = sym_bool("input"); f[k].o = sym_bool("output");
    t->AddField(f[k].name, f[k].desc, f[k].u, f[k].off, f[k].view, f[k].s, f[k].i, f[k].o);
  }
  auto &l = dynamic_cast<XP::StructureType *>(t)->GetFields();
  sym_check(l.size() == n, "a structure has the fields added");
  for (unsigned k = 0; k < n; k++) {
    auto &a = l[k];
    sym_check(a.name.c_str()[0] == f[k].name[0] && a.description.c_str()[0] == f[k].desc[0], "a field keeps its texts, in the order of the fields");
    sym_check(same(a.uuid, f[k].u) && a.offset == f[k].off && a.view == f[k].view, "a field keeps its type, offset and view");
    sym_check(a.state == f[k].s && a.input == f[k].i && a.output == f[k].o, "a field keeps its flags");
  }
  sym_check(r.GetType(id(1)) == t && t->GetPrimitiveTypeKind() == PTK::PTK_None, "the structure is registered");
}
ENTRY(p23_class) {
  XP::TypeRegistry r;
  auto *c = add(r, 6, id(2));
  add(r, 5, id(3));
  auto u = id(2);
  u.Data1 = sym_u32("base");
  const bool vd = sym_choose("void", 2);
  if (vd) u = U::Uuid_Void;
  bool ok = true, unknown = false;
  Smp::Publication::IType *t = nullptr;
  try { t = r.AddClassType("T", "", id(1), u); }
  catch (const Smp::Publication::TypeNotRegistered &) { ok = false; unknown = true; }
  catch (const Smp::Exception &) { ok = false; }
  sym_check(ok == (vd | same(u, id(2))), "the base of a class is a registered class, or there is none");
  sym_check(r.GetType(id(1)) == t, "a refused class is not registered");
  if (!same(u, id(1)) && !ok) sym_check(unknown == !r.GetType(u), "an unknown base is told from one that is no class");
  sym_check(r.GetType(id(2)) == c, "the other types stay");
}
namespace {
struct Rec final : Smp::IPublication {
  int n = 0; Smp::String8 name{}, desc{}; void *a{}; Smp::Uuid u{}; Smp::ViewKind v{}; bool s{}, i{}, o{};
  Smp::Publication::ITypeRegistry *GetTypeRegistry() const override { return nullptr; }
#define F(T) void PublishField(Smp::String8, Smp::String8, T *, Smp::ViewKind, Smp::Bool, Smp::Bool, Smp::Bool) override { sym_fail("published as a primitive"); }
  F(Smp::Char8) F(Smp::Bool) F(Smp::Int8) F(Smp::Int16) F(Smp::Int32) F(Smp::Int64) F(Smp::UInt8) F(Smp::UInt16) F(Smp::UInt32) F(Smp::UInt64) F(Smp::Float32) F(Smp::Float64)
#undef F
  void PublishField(Smp::IField *) override { sym_fail("published as a field"); }
  void PublishField(Smp::String8 nm, Smp::String8 d, void *ad, Smp::Uuid uu, Smp::ViewKind vv, Smp::Bool st, Smp::Bool in, Smp::Bool ou) override {
    n++; name = nm; desc = d; a = ad; u = uu; v = vv; s = st; i = in; o = ou;
  }
  void PublishArray(Smp::String8, Smp::String8, Smp::Int64, void *, Smp::PrimitiveTypeKind, Smp::ViewKind, Smp::Bool, Smp::Bool, Smp::Bool) override {}
  Smp::IPublication *PublishArray(Smp::String8, Smp::String8, Smp::ViewKind, Smp::Bool) override { return nullptr; }
  Smp::IPublication *PublishStructure(Smp::String8, Smp::String8, Smp::ViewKind, Smp::Bool) override { return nullptr; }
  Smp::Publication::IPublishOperation *PublishOperation(Smp::String8, Smp::String8, Smp::ViewKind) override { return nullptr; }
  void PublishProperty(Smp::String8, Smp::String8, Smp::Uuid, Smp::AccessKind, Smp::ViewKind) override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::PropertyCollection *GetProperties() const override { return nullptr; }
  const Smp::OperationCollection *GetOperations() const override { return nullptr; }
  Smp::IRequest *CreateRequest(Smp::String8) override { return nullptr; }
  void DeleteRequest(Smp::IRequest *) override {}
  void Unpublish() override {}
};
}
ENTRY(p23_publish) {
  XP::TypeRegistry r;
  auto *t = add(r, (unsigned)sym_choose("sort", 7), id(1));
  Rec p;
  int x = 0;
  const auto view = static_cast<Smp::ViewKind>(sym_u32("view"));
  const bool s = sym_bool("state"), i = sym_bool("input"), o = sym_bool("output");
  const char *nm = "n", *d = "d";
  t->Publish(&p, nm, d, &x, view, s, i, o);
  sym_check(p.n == 1 && p.name == nm && p.desc == d && p.a == &x && same(p.u, id(1)) && p.v == view, "a type publishes one field of its own");
  sym_check(p.s == s && p.i == i && p.o == o, "a type publishes a field with the flags given");
}
ENTRY(p23_sender) {
  // Who refuses still exists when the refusal is handled.
  XP::TypeRegistry r;
  const auto c = sym_choose("refusal", 6);
  try {
    switch (c) {
    case 0: r.AddArrayType("T", "", id(1), id(9), 4, 2); break;
    case 1: r.AddArrayType("T", "", id(1), U::Uuid_Void, 4, 2); break;
    case 2: r.AddClassType("T", "", id(1), id(9)); break;
    case 3: r.AddClassType("T", "", id(1), id(1)); break;
    case 4: r.AddClassType("T", "", id(1), U::Uuid_Bool); break;
    default: r.AddIntegerType("T", "", id(1), 0, 1, "", PTK::PTK_Bool); break;
    }
    sym_fail("refused");
  } catch (const Smp::Exception &e) {
    sym_witness("refused");
    auto *s = e.GetSender();
    sym_check(s == nullptr || s->GetName() != nullptr, "the sender of the refusal exists");
    sym_check(s == nullptr || s == static_cast<Smp::IObject *>(&r), "the registry refuses");
  }
}

// A registration that is refused leaves its UUID free.
ENTRY(p23_refused) {
  XP::TypeRegistry r;
  const unsigned sort = (unsigned)sym_choose("sort", 7), again = (sort + 3 * (unsigned)sym_choose("again", 2)) % 7;
  bool refused = false;
  try {
    switch (sym_choose("reason", 3)) {
    case 0: add(r, sort, id(1), "1 bad name"); break;
    case 1: add(r, sort, id(1), nullptr); break;
    default:
      sym_assume(sort == 0 || sort == 1 || sort == 3);
      if (sort == 0) r.AddIntegerType("T", "", id(1), 0, 1, "", PTK::PTK_String8);
      else if (sort == 1) r.AddFloatType("T", "", id(1), 0, 1, true, true, "", PTK::PTK_Int8);
      else r.AddArrayType("T", "", id(1), id(9), 4, 2);
    }
  } catch (const Smp::Exception &) { refused = true; }
  sym_check(refused, "a name, item type or kind that is not valid is refused");
  sym_check(!r.GetType(id(1)), "a registration that is refused leaves no type");
  Smp::Publication::IType *t = nullptr;
  try { t = add(r, again, id(1)); } catch (const Smp::Exception &) {}
  sym_check(t && r.GetType(id(1)) == t, "a registration that is refused leaves its UUID free");
}
