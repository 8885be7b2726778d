// P21: array fields and published memory.
// SOURCES: src/Xsmp/Field.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Smp/AnySimple.cpp
// UBSAN: yes
// ENTRY p21_typed_item
// ENTRY p21_typed_bulk
// ENTRY p21_published_item weight=2
// ENTRY p21_published_bulk
// ENTRY p21_anonymous weight=2
// ENTRY p21_count
// ENTRY p21_enumeration
// ENTRY p21_text_items
// ENTRY p21_text quick=4 thorough=6
// ENTRY p21_scalar weight=2
// ENTRY p21_member
// ENTRY p21_items
// ENTRY p21_paths
// ENTRY p21_nested
// ENTRY p21_elements
#include "fieldlib.h"
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <memory>
#include <string.h>
#include <string>
using namespace Xsmp;
using PTK = Smp::PrimitiveTypeKind;
using Smp::AnySimple;
namespace U = Smp::Uuids;

namespace {
enum Res { OK, INDEX, SIZE, ITEM, VALUE, KIND };
template <typename F> Res outcome(F f) {
  try { f(); return OK; }
  catch (const Smp::InvalidArrayIndex &) { return INDEX; }
  catch (const Smp::InvalidArraySize &) { return SIZE; }
  catch (const Smp::InvalidArrayValue &) { return ITEM; }
  catch (const Smp::InvalidFieldValue &) { return VALUE; }
  catch (const Smp::InvalidAnyType &) { return KIND; }
}
struct M : Model {
  using Model::Model;
  using Pub = ::Xsmp::Publication::Publication;
  std::unique_ptr<Pub> pub;
  void open(Smp::Publication::ITypeRegistry *r) { pub = std::make_unique<Pub>(this, r); Publish(pub.get()); }
};
constexpr auto ALL = Smp::ViewKind::VK_All;
// A value of any number kind, and its 64 bits.
AnySimple number(const char *n, PTK k) {
  switch (k) {
  case PTK::PTK_Bool: return {k, sym_bool(n)};
  case PTK::PTK_Char8: return {k, (char)sym_u8(n)};
  case PTK::PTK_Int8: return {k, (std::int8_t)sym_u8(n)};
  case PTK::PTK_UInt8: return {k, sym_u8(n)};
  case PTK::PTK_Int16: return {k, (std::int16_t)sym_u16(n)};
  case PTK::PTK_UInt16: return {k, sym_u16(n)};
  case PTK::PTK_Int32: return {k, (std::int32_t)sym_u32(n)};
  case PTK::PTK_UInt32: return {k, sym_u32(n)};
  case PTK::PTK_UInt64: return {k, sym_u64(n)};
  case PTK::PTK_Float32: { std::uint32_t b = sym_u32(n); float f; memcpy(&f, &b, 4); return {k, f}; }
  case PTK::PTK_Float64: { std::uint64_t b = sym_u64(n); double f; memcpy(&f, &b, 8); return {k, f}; }
  default: return {k, (std::int64_t)sym_u64(n)};
  }
}
std::size_t sizeOf(PTK k) {
  switch (k) {
  case PTK::PTK_Bool: case PTK::PTK_Char8: case PTK::PTK_Int8: case PTK::PTK_UInt8: return 1;
  case PTK::PTK_Int16: case PTK::PTK_UInt16: return 2;
  case PTK::PTK_Int32: case PTK::PTK_UInt32: case PTK::PTK_Float32: return 4;
  default: return 8;
  }
}
// The bytes of a number, as they lie in memory.
void bytesOf(const AnySimple &v, unsigned char *out) {
  switch (v.type) {
  case PTK::PTK_Bool: { bool x = v.value.boolValue; memcpy(out, &x, 1); break; }
  case PTK::PTK_Char8: memcpy(out, &v.value.char8Value, 1); break;
  case PTK::PTK_Int8: memcpy(out, &v.value.int8Value, 1); break;
  case PTK::PTK_UInt8: memcpy(out, &v.value.uInt8Value, 1); break;
  case PTK::PTK_Int16: memcpy(out, &v.value.int16Value, 2); break;
  case PTK::PTK_UInt16: memcpy(out, &v.value.uInt16Value, 2); break;
  case PTK::PTK_Int32: memcpy(out, &v.value.int32Value, 4); break;
  case PTK::PTK_UInt32: memcpy(out, &v.value.uInt32Value, 4); break;
  case PTK::PTK_Float32: memcpy(out, &v.value.float32Value, 4); break;
  case PTK::PTK_UInt64: memcpy(out, &v.value.uInt64Value, 8); break;
  case PTK::PTK_Float64: memcpy(out, &v.value.float64Value, 8); break;
  case PTK::PTK_Duration: memcpy(out, &v.value.durationValue, 8); break;
  case PTK::PTK_DateTime: memcpy(out, &v.value.dateTimeValue, 8); break;
  default: memcpy(out, &v.value.int64Value, 8); break;
  }
}
bool sameBytes(const unsigned char *a, const unsigned char *b, std::size_t n) {
  unsigned char d = 0;
  for (std::size_t i = 0; i < n; i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
constexpr PTK kinds[] = {PTK::PTK_Char8, PTK::PTK_Bool, PTK::PTK_Int8, PTK::PTK_UInt8, PTK::PTK_Int16, PTK::PTK_UInt16, PTK::PTK_Int32,
                         PTK::PTK_UInt32, PTK::PTK_Int64, PTK::PTK_UInt64, PTK::PTK_Float32, PTK::PTK_Float64, PTK::PTK_Duration, PTK::PTK_DateTime};
// Memory of exactly n bytes, full of any content (valid for items of the kind).
struct Mem {
  std::unique_ptr<unsigned char[]> p;
  std::size_t n;
  unsigned char old[32];
  Mem(std::size_t n_, bool flags) : p(new unsigned char[n_]), n(n_) {
    for (std::size_t i = 0; i < n; i++) { p[i] = sym_u8("memory"); if (flags) sym_assume(p[i] <= 1); old[i] = p[i]; }
  }
};
}
// Elements of a field with its own storage: any 64-bit index, any kind of value.
ENTRY(p21_typed_item) {
  fl::Types t;
  std::int32_t v[3] = {(std::int32_t)sym_u32("v0"), (std::int32_t)sym_u32("v1"), (std::int32_t)sym_u32("v2")};
  fl::SArr init; for (int i = 0; i < 3; i++) init[(std::size_t)i] = v[i];
  ::Xsmp::Field<fl::SArr> f(&t.reg, fl::id(2), "f", "", nullptr, ALL, init);
  const std::uint64_t i = sym_u64("index");
  if (sym_choose("operation", 2)) {
    std::int64_t got = 0;
    bool kind = true;
    const Res r = outcome([&] { AnySimple a = f.GetValue(i); kind = a.type == PTK::PTK_Int32; got = a.value.int32Value; });
    sym_check((r == OK) == (i < 3) && (r == OK || r == INDEX), "an element is read exactly when the index is within the array");
    sym_check(kind, "an element has the kind of the items");
    if (r == OK) sym_check(got == (i == 0 ? v[0] : i == 1 ? v[1] : v[2]), "an element is read at its index");
    else sym_witness("an index out of range");
  } else {
    const PTK k = kinds[sym_choose("kind", 14)];
    const AnySimple a = number("value", k);
    const Res r = outcome([&] { f.SetValue(i, a); });
    sym_check(r == (i >= 3 ? INDEX : k == PTK::PTK_Int32 ? OK : VALUE), "an element is written exactly when index and kind fit");
    if (r == OK) { if (i == 0) v[0] = a.value.int32Value; else if (i == 1) v[1] = a.value.int32Value; else v[2] = a.value.int32Value; sym_witness("an element written"); }
  }
  for (int q = 0; q < 3; q++) sym_check((std::int32_t)f.GetValue((Smp::UInt64)q) == v[q] && f[(std::size_t)q] == v[q], "all other elements stay");
  sym_check(f.GetSize() == 3, "the size is the size of the type");
}
// The whole array at once, any length, any kinds.
ENTRY(p21_typed_bulk) {
  fl::Types t;
  const std::int32_t v[3] = {(std::int32_t)sym_u32("v0"), (std::int32_t)sym_u32("v1"), (std::int32_t)sym_u32("v2")};
  fl::SArr init; for (int i = 0; i < 3; i++) init[(std::size_t)i] = v[i];
  ::Xsmp::Field<fl::SArr> f(&t.reg, fl::id(2), "f", "", nullptr, ALL, init);
  const std::uint64_t n = sym_u64("length");
  auto buf = std::make_unique<AnySimple[]>(3);
  if (sym_choose("operation", 2)) {
    const Res r = outcome([&] { f.GetValues(n, buf.get()); });
    sym_check(r == (n == 3 ? OK : SIZE), "all elements are read exactly when the length is the size");
    if (r == OK) for (int q = 0; q < 3; q++) sym_check(buf[q].type == PTK::PTK_Int32 && buf[q].value.int32Value == v[q], "each element is read at its index");
    else sym_witness("a wrong length");
  } else {
    constexpr PTK ks[] = {PTK::PTK_Int32, PTK::PTK_UInt32, PTK::PTK_Float64, PTK::PTK_None};
    bool good = true;
    for (int q = 0; q < 3; q++) { const PTK k = ks[sym_choose("kind", 4)]; if (k == PTK::PTK_None) buf[q] = AnySimple{}; else buf[q] = number("value", k); good &= k == PTK::PTK_Int32; }
    const Res r = outcome([&] { f.SetValues(n, buf.get()); });
    sym_check(r == (n != 3 ? SIZE : good ? OK : ITEM), "all elements are written exactly when the length is the size and every kind fits");
    for (int q = 0; q < 3; q++) {
      const std::int32_t now = (std::int32_t)f.GetValue((Smp::UInt64)q);
      if (r == OK) sym_check(now == buf[q].value.int32Value, "each element is written at its index");
      else if (r == SIZE) sym_check(now == v[q], "a wrong length changes nothing");
      else sym_check(buf[q].type == PTK::PTK_Int32 ? (now == v[q] || now == buf[q].value.int32Value) : now == v[q], "a wrongly-kinded element is not taken");
    }
    if (r == ITEM) sym_witness("a wrong element");
  }
}
namespace {
// An array of every kind of item in raw memory: one element read or written.
void element(Smp::ISimpleArrayField *a, PTK k, Mem &m, std::size_t count) {
  const std::size_t sz = sizeOf(k);
  const std::uint64_t i = sym_u64("index");
  sym_check(a->GetSize() == count, "the size is the published size");
  if (sym_choose("operation", 2)) {
    AnySimple got{};
    const Res r = outcome([&] { got = a->GetValue(i); });
    sym_check((r == OK) == (i < count) && (r == OK || r == INDEX), "an element is read exactly when the index is within the array");
    if (r == OK) {
      unsigned char b[8]; bytesOf(got, b);
      const std::uint64_t at = sym_concretize(i);
      sym_check(got.type == k, "an element has the kind of the items");
      sym_check(sameBytes(b, m.p.get() + at * sz, sz), "an element is read from its own memory");
    }
  } else {
    const AnySimple v = number("value", k);
    const Res r = outcome([&] { a->SetValue(i, v); });
    sym_check((r == OK) == (i < count) && (r == OK || r == INDEX), "an element is written exactly when the index is within the array");
    if (r == OK) { unsigned char b[8]; bytesOf(v, b); const std::uint64_t at = sym_concretize(i); for (std::size_t q = 0; q < sz; q++) m.old[at * sz + q] = b[q]; sym_witness("an element written"); }
  }
  sym_check(sameBytes(m.p.get(), m.old, m.n), "no other memory changes");
}
Smp::Uuid uuidOf(PTK k) {
  switch (k) {
  case PTK::PTK_Char8: return U::Uuid_Char8;
  case PTK::PTK_Bool: return U::Uuid_Bool;
  case PTK::PTK_Int8: return U::Uuid_Int8;
  case PTK::PTK_UInt8: return U::Uuid_UInt8;
  case PTK::PTK_Int16: return U::Uuid_Int16;
  case PTK::PTK_UInt16: return U::Uuid_UInt16;
  case PTK::PTK_Int32: return U::Uuid_Int32;
  case PTK::PTK_UInt32: return U::Uuid_UInt32;
  case PTK::PTK_Int64: return U::Uuid_Int64;
  case PTK::PTK_UInt64: return U::Uuid_UInt64;
  case PTK::PTK_Float32: return U::Uuid_Float32;
  case PTK::PTK_Float64: return U::Uuid_Float64;
  case PTK::PTK_Duration: return U::Uuid_Duration;
  default: return U::Uuid_DateTime;
  }
}
}
ENTRY(p21_published_item) {
  ::Xsmp::Publication::TypeRegistry reg;
  const PTK k = kinds[sym_choose("kind", 14)];
  const bool out = sym_choose("output", 2);
  reg.AddArrayType("A", "", fl::id(1), uuidOf(k), (Smp::Int64)sizeOf(k), 2, true);
  M c("c"); c.open(&reg);
  Mem m(2 * sizeOf(k), k == PTK::PTK_Bool);
  c.pub->PublishField("a", "", m.p.get(), fl::id(1), ALL, true, false, out);
  element(dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a")), k, m, 2);
}
ENTRY(p21_anonymous) {
  ::Xsmp::Publication::TypeRegistry reg;
  const PTK k = kinds[sym_choose("kind", 14)];
  const bool out = sym_choose("output", 2);
  M c("c"); c.open(&reg);
  Mem m(2 * sizeOf(k), k == PTK::PTK_Bool);
  c.pub->PublishArray("a", "", 2, m.p.get(), k, ALL, true, false, out);
  element(dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a")), k, m, 2);
}
// Whole arrays in raw memory, any length.
ENTRY(p21_published_bulk) {
  ::Xsmp::Publication::TypeRegistry reg;
  reg.AddArrayType("A", "", fl::id(1), U::Uuid_Int16, 2, 3, true);
  M c("c"); c.open(&reg);
  auto mem = std::make_unique<std::int16_t[]>(3);
  std::int16_t old[3];
  for (int q = 0; q < 3; q++) old[q] = mem[q] = (std::int16_t)sym_u16("memory");
  const bool anonymous = sym_choose("anonymous", 2);
  if (anonymous) c.pub->PublishArray("a", "", 3, mem.get(), PTK::PTK_Int16, ALL, true, false, false);
  else c.pub->PublishField("a", "", mem.get(), fl::id(1), ALL, true, false, false);
  auto *a = dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a"));
  const std::uint64_t n = sym_u64("length");
  auto buf = std::make_unique<AnySimple[]>(3);
  if (sym_choose("operation", 2)) {
    const Res r = outcome([&] { a->GetValues(n, buf.get()); });
    sym_check(r == (n == 3 ? OK : SIZE), "all elements are read exactly when the length is the size");
    if (r == OK) for (int q = 0; q < 3; q++) sym_check(buf[q].type == PTK::PTK_Int16 && buf[q].value.int16Value == old[q], "each element is read at its index");
    for (int q = 0; q < 3; q++) sym_check(mem[q] == old[q], "reading changes nothing");
  } else {
    const int bad = (int)sym_choose("wrong element", 4);
    for (int q = 0; q < 3; q++) buf[q] = AnySimple{PTK::PTK_Int16, (std::int16_t)sym_u16("value")};
    if (bad < 3) buf[bad] = AnySimple{PTK::PTK_Int64, std::int64_t{1} << 40};
    const Res r = outcome([&] { a->SetValues(n, buf.get()); });
    if (n != 3) sym_check(r == SIZE, "a wrong length is refused");
    else if (bad < 3) { sym_check(r == ITEM || r == KIND, "an element of another kind is refused"); sym_witness("a wrong element"); }
    else sym_check(r == OK, "all elements are written");
    for (int q = 0; q < 3; q++) {
      if (r == OK) sym_check(mem[q] == buf[q].value.int16Value, "each element is written at its index");
      else if (r == SIZE) sym_check(mem[q] == old[q], "a wrong length changes nothing");
      else sym_check(mem[q] == old[q] || (q < bad && mem[q] == buf[q].value.int16Value), "a wrong element is not taken");
    }
  }
}
// Any count: a negative one gives an empty array.
ENTRY(p21_count) {
  ::Xsmp::Publication::TypeRegistry reg;
  M c("c"); c.open(&reg);
  std::int32_t mem[1] = {5};
  const std::int64_t count = (std::int64_t)sym_u64("count");
  c.pub->PublishArray("a", "", count, mem, PTK::PTK_Int32, ALL, true, false, false);
  auto *a = dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a"));
  const std::uint64_t size = count < 0 ? 0 : (std::uint64_t)count;
  sym_check(a->GetSize() == size, "the size is the count, or none");
  const Res r = outcome([&] { sym_check((std::int32_t)a->GetValue(0) == 5, "the first element"); });
  sym_check(r == (size ? OK : INDEX), "an empty array has no element");
  if (count < 0) sym_witness("a negative count");
}
// An enumeration only takes its literals: as a field, as an element, as a whole.
ENTRY(p21_enumeration) {
  ::Xsmp::Publication::TypeRegistry reg;
  auto *e = reg.AddEnumerationType("E", "", fl::id(5), 4);
  e->AddLiteral("a", "", 3); e->AddLiteral("b", "", -7);
  reg.AddArrayType("A", "", fl::id(1), fl::id(5), 4, 2, true);
  M c("c"); c.open(&reg);
  std::int32_t one = 3;
  auto mem = std::make_unique<std::int32_t[]>(2);
  mem[0] = 3; mem[1] = -7;
  c.pub->PublishField("e", "", &one, fl::id(5), ALL, true, false, false);
  c.pub->PublishField("a", "", mem.get(), fl::id(1), ALL, true, false, false);
  const std::int32_t v = (std::int32_t)sym_u32("value"), w = (std::int32_t)sym_u32("second value");
  const bool ok = v == 3 || v == -7, ok2 = w == 3 || w == -7;
  switch (sym_choose("operation", 3)) {
  case 0: {
    const Res r = outcome([&] { dynamic_cast<Smp::ISimpleField *>(c.pub->GetField("e"))->SetValue(AnySimple{PTK::PTK_Int32, v}); });
    sym_check(r == (ok ? OK : VALUE), "an enumeration takes exactly its literals");
    sym_check(one == (ok ? v : 3), "an unknown literal changes nothing");
    break;
  }
  case 1: {
    const Res r = outcome([&] { dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a"))->SetValue(1, AnySimple{PTK::PTK_Int32, v}); });
    sym_check(ok ? r == OK : (r == ITEM || r == VALUE), "an enumeration element takes exactly its literals");
    sym_check(mem[0] == 3 && mem[1] == (ok ? v : -7), "an unknown literal changes no element");
    if (!ok) sym_witness("an unknown literal");
    break;
  }
  default: {
    AnySimple b[2] = {AnySimple{PTK::PTK_Int32, v}, AnySimple{PTK::PTK_Int32, w}};
    const Res r = outcome([&] { dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a"))->SetValues(2, b); });
    sym_check(ok && ok2 ? r == OK : (r == ITEM || r == VALUE), "an enumeration array takes exactly its literals");
    sym_check((mem[0] == 3 || mem[0] == -7) && (mem[1] == 3 || mem[1] == -7), "only literals are stored");
    if (r == OK) sym_check(mem[0] == v && mem[1] == w, "each element is written at its index");
    break;
  }
  }
}
// Texts as elements: each has its own L+1 characters.
ENTRY(p21_text_items) {
  ::Xsmp::Publication::TypeRegistry reg;
  reg.AddStringType("S", "", fl::id(5), 2);
  reg.AddArrayType("A", "", fl::id(1), fl::id(5), 3, 2, true);
  M c("c"); c.open(&reg);
  auto mem = std::make_unique<char[]>(6);
  memcpy(mem.get(), "pq\0rs", 6);
  c.pub->PublishField("a", "", mem.get(), fl::id(1), ALL, true, false, false);
  auto *a = dynamic_cast<Smp::ISimpleArrayField *>(c.pub->GetField("a"));
  SymStr s(4, "text");
  const unsigned i = (unsigned)sym_choose("index", 2);
  a->SetValue(i, AnySimple{PTK::PTK_String8, s.p});
  char want[3] = {0, 0, 0};
  for (std::size_t q = 0; q < 2 && s.p[q]; q++) want[q] = s.p[q];
  sym_check(strcmp(mem.get() + 3 * i, want) == 0, "a text is stored up to its length");
  sym_check(strcmp(mem.get() + 3 * (1 - i), i ? "pq" : "rs") == 0, "the other text stays");
  AnySimple r = a->GetValue(i);
  sym_check(r.type == PTK::PTK_String8 && strcmp(static_cast<Smp::String8>(r), want) == 0, "the text is read back");
}
ENTRY(p21_text) {
  ::Xsmp::Publication::TypeRegistry reg;
  const std::size_t L = 1 + (std::size_t)sym_choose("length", 3);
  reg.AddStringType("S", "", fl::id(5), (Smp::Int64)L);
  M c("c"); c.open(&reg);
  auto mem = std::make_unique<char[]>(L + 1);
  mem[0] = 0;
  c.pub->PublishField("s", "", mem.get(), fl::id(5), ALL, true, false, sym_choose("output", 2));
  auto *f = dynamic_cast<Smp::ISimpleField *>(c.pub->GetField("s"));
  sym_check(f->GetPrimitiveTypeKind() == PTK::PTK_String8, "a text field has kind String8");
  for (int n = 0; n < 2; n++) {
    SymStr s((unsigned)sym_bound(4), "text");
    f->SetValue(AnySimple{PTK::PTK_String8, s.p});
    char want[4] = {0, 0, 0, 0};
    for (std::size_t q = 0; q < L && s.p[q]; q++) want[q] = s.p[q];
    sym_check(strcmp(mem.get(), want) == 0, "a text is stored up to the length of its type");
    sym_check(strcmp(static_cast<Smp::String8>(f->GetValue()), want) == 0, "the text is read back");
  }
}
// A published variable of every kind: reads and writes exactly its memory.
ENTRY(p21_scalar) {
  ::Xsmp::Publication::TypeRegistry reg;
  const unsigned n = (unsigned)sym_choose("kind", 14);
  const PTK k = kinds[n];
  M c("c"); c.open(&reg);
  Mem m(sizeOf(k), k == PTK::PTK_Bool);
  void *p = m.p.get();
  const bool out = sym_choose("output", 2);
  switch (k) {
  case PTK::PTK_Char8: c.pub->PublishField("f", "d", (char *)p, ALL, true, true, out); break;
  case PTK::PTK_Bool: c.pub->PublishField("f", "d", (bool *)p, ALL, true, true, out); break;
  case PTK::PTK_Int8: c.pub->PublishField("f", "d", (std::int8_t *)p, ALL, true, true, out); break;
  case PTK::PTK_UInt8: c.pub->PublishField("f", "d", (std::uint8_t *)p, ALL, true, true, out); break;
  case PTK::PTK_Int16: c.pub->PublishField("f", "d", (std::int16_t *)p, ALL, true, true, out); break;
  case PTK::PTK_UInt16: c.pub->PublishField("f", "d", (std::uint16_t *)p, ALL, true, true, out); break;
  case PTK::PTK_Int32: c.pub->PublishField("f", "d", (std::int32_t *)p, ALL, true, true, out); break;
  case PTK::PTK_UInt32: c.pub->PublishField("f", "d", (std::uint32_t *)p, ALL, true, true, out); break;
  case PTK::PTK_Int64: c.pub->PublishField("f", "d", (std::int64_t *)p, ALL, true, true, out); break;
  case PTK::PTK_UInt64: c.pub->PublishField("f", "d", (std::uint64_t *)p, ALL, true, true, out); break;
  case PTK::PTK_Float32: c.pub->PublishField("f", "d", (float *)p, ALL, true, true, out); break;
  case PTK::PTK_Float64: c.pub->PublishField("f", "d", (double *)p, ALL, true, true, out); break;
  default: c.pub->PublishField("f", "d", p, uuidOf(k), ALL, true, true, out); break;
  }
  auto *f = dynamic_cast<Smp::ISimpleField *>(c.pub->GetField("f"));
  sym_check(f && f->GetPrimitiveTypeKind() == k && f->GetType()->GetUuid() == uuidOf(k), "the field has the type of the variable");
  sym_check(f->IsState() && f->IsInput() && f->IsOutput() == out && f->GetView() == ALL && !strcmp(f->GetDescription(), "d"), "the field reports its attributes");
  unsigned char b[8];
  AnySimple got = f->GetValue();
  bytesOf(got, b);
  sym_check(got.type == k && sameBytes(b, m.old, m.n), "the field reads the variable");
  const AnySimple v = number("value", k);
  f->SetValue(v);
  bytesOf(v, b);
  sym_check(sameBytes(m.p.get(), b, m.n), "the field writes the variable");
}
// A structure in raw memory: each member at its offset.
ENTRY(p21_member) {
  fl::Types t;
  M c("c"); c.open(&t.reg);
  auto s = std::make_unique<fl::St>();
  fl::St old;
  s->p = old.p = (std::int16_t)sym_u16("p");
  for (std::size_t i = 0; i < 2; i++) s->q[i] = old.q[i] = (std::int32_t)sym_u32("q");
  c.pub->PublishField("s", "", s.get(), fl::id(3), ALL, true, sym_choose("input", 2), sym_choose("output", 2));
  auto *f = dynamic_cast<Smp::IStructureField *>(c.pub->GetField("s"));
  sym_check(f && f->GetFields()->size() == 2 && !f->GetField("x"), "a structure has its members");
  auto *p = dynamic_cast<Smp::ISimpleField *>(f->GetField("p"));
  auto *q = dynamic_cast<Smp::IArrayField *>(f->GetField("q"));
  sym_check(p && q && p->GetParent() == f && q->GetParent() == f && q->GetSize() == 2, "members are found by name and have the structure as parent");
  const unsigned w = (unsigned)sym_choose("member", 3);
  const std::int16_t v = (std::int16_t)sym_u16("value");
  if (w == 0) { p->SetValue(AnySimple{PTK::PTK_Int16, v}); old.p = v; }
  else { dynamic_cast<Smp::ISimpleField *>(q->GetItem(w - 1))->SetValue(AnySimple{PTK::PTK_Int32, (std::int32_t)v}); old.q[w - 1] = v; }
  sym_check(s->p == old.p && s->q[0] == old.q[0] && s->q[1] == old.q[1], "exactly one member is written");
  sym_check((std::int16_t)p->GetValue() == old.p, "a member reads its memory");
  for (unsigned i = 0; i < 2; i++) sym_check((std::int32_t)dynamic_cast<Smp::ISimpleField *>(q->GetItem(i))->GetValue() == old.q[i], "an item reads its memory");
}
// Items of typed and published arrays: index, name, parent, view.
ENTRY(p21_items) {
  fl::Types t;
  M c("c"); c.open(&t.reg);
  fl::Arr raw; raw[0] = 4; raw[1] = 5;
  ::Xsmp::Field<fl::Arr> f(&t.reg, fl::id(1), "f", "", &c, ALL, raw);
  c.pub->PublishField(&f);
  c.pub->PublishField("r", "", &raw, fl::id(1), ALL, true, false, sym_choose("output", 2));
  auto *a = dynamic_cast<Smp::IArrayField *>(c.pub->GetField(sym_choose("field", 2) ? "f" : "r"));
  sym_check(a && a->GetSize() == 2 && a->GetParent() == &c, "an array field");
  const std::uint64_t i = sym_u64("index");
  Smp::IField *item = nullptr;
  const Res r = outcome([&] { item = a->GetItem(i); });
  sym_check(r == (i < 2 ? OK : INDEX), "an item exists exactly when the index is within the array");
  if (r == OK) {
    sym_check(item && item->GetParent() == a && item->GetView() == ALL && item->IsState(), "an item has the array as parent and its attributes");
    sym_check(!strcmp(item->GetName(), i ? "[1]" : "[0]"), "an item is named by its index");
    sym_check((std::int32_t)dynamic_cast<Smp::ISimpleField *>(item)->GetValue() == (i ? 5 : 4), "an item has the value at its index");
  }
}
// Fields are found by their full name.
ENTRY(p21_paths) {
  fl::Types t;
  M c("c"); c.open(&t.reg);
  fl::St s{1, {}}; s.q[0] = 2; s.q[1] = 3;
  fl::Arr raw; raw[0] = 4; raw[1] = 5;
  c.pub->PublishField("s", "", &s, fl::id(3), ALL, true, false, false);
  c.pub->PublishField("a", "", &raw, fl::id(1), ALL, true, false, false);
  struct { const char *path; int value; } const known[] = {{"s.p", 1}, {"s.q[0]", 2}, {"s.q[1]", 3}, {"a[0]", 4}, {"a[1]", 5}};
  const char *unknown[] = {"", "x", "s.x", "a[2]", "a[x]", "s.q[2]", "a.p", nullptr};
  const unsigned n = (unsigned)sym_choose("path", 13);
  Smp::IField *f = nullptr;
  bool refused = false;
  try { f = c.pub->GetField(n < 5 ? known[n].path : unknown[n - 5]); } catch (const Smp::InvalidFieldName &) { refused = true; }
  sym_check(refused == (n >= 5), "exactly the existing fields are found");
  if (!refused) sym_check((std::int32_t)dynamic_cast<Smp::ISimpleField *>(f)->GetValue() == known[n].value, "the field of that name is found");
  // A type that is not registered, or that no field can have.
  const Smp::Uuid bad[] = {fl::id(9), U::Uuid_String8, U::Uuid_Void};
  const unsigned b = (unsigned)sym_choose("type", 3);
  refused = false;
  try { c.pub->PublishField("z", "", &s, bad[b], ALL, true, false, false); }
  catch (const Smp::Publication::TypeNotRegistered &) { refused = b == 0; }
  catch (const Smp::Exception &) { refused = b != 0; }
  sym_check(refused, "a field needs a registered type that fields may have");
  sym_check(c.pub->GetFields()->size() == 2, "a refused field is not published");
}
// Arrays and structures published member by member.
ENTRY(p21_nested) {
  fl::Types t;
  M c("c"); c.open(&t.reg);
  std::int16_t x = (std::int16_t)sym_u16("x"), y = (std::int16_t)sym_u16("y"), z = (std::int16_t)sym_u16("z");
  const bool st = sym_choose("state", 2);
  Smp::IPublication *a = c.pub->PublishArray("a", "", ALL, st);
  a->PublishField("i0", "", &x, ALL, true, false, false);
  a->PublishField("i1", "", &y, ALL, true, false, false);
  Smp::IPublication *s = c.pub->PublishStructure("s", "", ALL, st);
  s->PublishField("m", "", &z, ALL, true, false, false);
  sym_check(c.pub->GetFields()->size() == 2, "each is one field of the component");
  auto *af = dynamic_cast<Smp::IArrayField *>(c.pub->GetField("a"));
  auto *sf = dynamic_cast<Smp::IStructureField *>(c.pub->GetField("s"));
  sym_check(af && sf && af->GetSize() == 2 && sf->GetFields()->size() == 1 && af->IsState() == st && sf->IsState() == st, "an array of two items and a structure of one member");
  const std::uint64_t i = sym_u64("index");
  Smp::IField *item = nullptr;
  const Res r = outcome([&] { item = af->GetItem(i); });
  sym_check(r == (i < 2 ? OK : INDEX), "an item exists exactly when the index is within the array");
  if (r == OK) sym_check((std::int16_t)dynamic_cast<Smp::ISimpleField *>(item)->GetValue() == (i ? y : x), "an item is the one published at its index");
  auto *m = dynamic_cast<Smp::ISimpleField *>(sf->GetField("m"));
  sym_check(m && m->GetParent() == sf && c.pub->GetField("s.m") == m && !sf->GetField("n"), "a member is found by its name");
  const std::int16_t v = (std::int16_t)sym_u16("value");
  m->SetValue(AnySimple{PTK::PTK_Int16, v});
  sym_check(z == v, "a member writes its memory");
}
// Elements of an output array: every way to change one reaches the same element of the connected input.
ENTRY(p21_elements) {
  fl::Types t;
  M c("c"), d("d"); c.open(&t.reg); d.open(&t.reg);
  std::int32_t v[3] = {1, 2, 3};
  fl::SArr init; for (int i = 0; i < 3; i++) init[(std::size_t)i] = v[i];
  ::Xsmp::Field<fl::SArr>::output f(&t.reg, fl::id(2), "f", "", &c, ALL, init);
  ::Xsmp::Field<fl::SArr>::input g(&t.reg, fl::id(2), "g", "", &d, ALL);
  f.Connect(&g);
  const unsigned i = (unsigned)sym_choose("index", 3);
  const std::int32_t x = (std::int16_t)sym_u16("value");
  switch (sym_choose("access", 9)) {
  case 0: f[i] = x; v[i] = x; break;
  case 1: f.at(i) += x; v[i] += x; break;
  case 2: { auto it = f.begin(); for (unsigned q = 0; q < i; q++) ++it; *it -= x; v[i] -= x; break; }
  case 3: { auto it = f.end(); for (unsigned q = 0; q < 3 - i; q++) --it; *it ^= x; v[i] ^= x; break; }
  case 4: { auto it = f.begin() + (std::ptrdiff_t)i; it += 0; it[0] *= x; v[i] *= x; break; }
  case 5: { auto it = f.rbegin(); for (unsigned q = 0; q < i; q++) ++it; *it = x; v[2 - i] = x; break; }
  case 6: if (i == 1) { --f.back(); v[2]--; } else { ++f.front(); v[0]++; } break;
  case 7: { unsigned n = 0; for (auto it = f.begin(); it != f.end(); it++) { *it |= x; v[n++] |= x; } break; }
  default: f[i] &= x; v[i] &= x; f[i] <<= 3; v[i] <<= 3; break;
  }
  const auto &k = f;
  std::size_t n = 0;
  for (auto e : k) { sym_check(e == v[n] && k[n] == v[n], "exactly the chosen element changes"); n++; }
  sym_check(n == 3 && k.size() == 3 && k.front() == v[0] && k.back() == v[2] && k.at(1) == v[1], "the elements are seen in order");
  for (unsigned q = 0; q < 3; q++) sym_check((std::int32_t)g.GetValue(q) == v[q], "the change reaches the same element of the input");
}
