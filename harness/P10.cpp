// P10: storing numbers in a variant and reading them back.
// SOURCES: src/Smp/AnySimple.cpp src/Xsmp/Exception.cpp src/Xsmp/cstring.cpp
// UBSAN: yes
// ENTRY p10_i8
// ENTRY p10_u8
// ENTRY p10_i16
// ENTRY p10_u16
// ENTRY p10_i32
// ENTRY p10_u32
// ENTRY p10_i64
// ENTRY p10_u64
// ENTRY p10_f32
// ENTRY p10_f64
// ENTRY p10_bool
// ENTRY p10_char
// ENTRY p10_text
// ENTRY p10_read_other
#include "hlib.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <limits>
#include <type_traits>
using namespace Smp;
using K = PrimitiveTypeKind;

namespace {
bool isIntKind(K k) {
  switch (k) {
  case K::PTK_Int8: case K::PTK_Int16: case K::PTK_Int32: case K::PTK_Int64: case K::PTK_UInt8: case K::PTK_UInt16: case K::PTK_UInt32: case K::PTK_UInt64:
  case K::PTK_Duration: case K::PTK_DateTime: return true;
  default: return false;
  }
}
template <class T> bool fits(__int128 v) { return v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max(); }
bool kindHolds(K k, __int128 v) {
  switch (k) {
  case K::PTK_Int8: return fits<Int8>(v);
  case K::PTK_Int16: return fits<Int16>(v);
  case K::PTK_Int32: return fits<Int32>(v);
  case K::PTK_Int64: case K::PTK_Duration: case K::PTK_DateTime: return fits<Int64>(v);
  case K::PTK_UInt8: return fits<UInt8>(v);
  case K::PTK_UInt16: return fits<UInt16>(v);
  case K::PTK_UInt32: return fits<UInt32>(v);
  case K::PTK_UInt64: return fits<UInt64>(v);
  default: return false;
  }
}
// A magnitude is exactly representable with a mantissa of `bits` bits when, once its trailing zeros are gone, it is below 2^bits.
template <unsigned bits, class T> bool exact(T v) {
  UInt64 m = v < 0 ? UInt64(0) - (UInt64)v : (UInt64)v;
  UInt64 low = m & (UInt64(0) - m);
  return m == 0 || (m >> bits) < low;
}
template <class T> bool storedIs(const AnySimple &a, K k, T v) {
  switch (k) {
  case K::PTK_Int8: return a.value.int8Value == (Int8)v;
  case K::PTK_Int16: return a.value.int16Value == (Int16)v;
  case K::PTK_Int32: return a.value.int32Value == (Int32)v;
  case K::PTK_Int64: return a.value.int64Value == (Int64)v;
  case K::PTK_Duration: return a.value.durationValue == (Int64)v;
  case K::PTK_DateTime: return a.value.dateTimeValue == (Int64)v;
  case K::PTK_UInt8: return a.value.uInt8Value == (UInt8)v;
  case K::PTK_UInt16: return a.value.uInt16Value == (UInt16)v;
  case K::PTK_UInt32: return a.value.uInt32Value == (UInt32)v;
  case K::PTK_UInt64: return a.value.uInt64Value == (UInt64)v;
  default: return false;
  }
}
bool timeKind(K k) { return k == K::PTK_Duration || k == K::PTK_DateTime; }
template <class T, class F> bool read(const AnySimple &a, F check) {
  T got;
  try { got = static_cast<T>(a); } catch (const InvalidAnyType &) { return false; }
  check(got);
  return true;
}
// Reading an integer variant whose mathematical value is v.
template <class S> void readInt(const AnySimple &a, S v) {
#define RI(T) sym_check(read<T>(a, [&](T g) { sym_check((__int128)g == (__int128)v, "reading as " #T " gives the stored number"); }) == fits<T>(v), "reading as " #T " succeeds exactly when the number fits")
  switch (sym_choose("read as", 11)) {
  case 0: RI(Int8); break;
  case 1: RI(Int16); break;
  case 2: RI(Int32); break;
  case 3: RI(Int64); break;
  case 4: RI(UInt8); break;
  case 5: RI(UInt16); break;
  case 6: RI(UInt32); break;
  case 7: RI(UInt64); break;
  // a duration or date need not be readable as a floating-point number
  case 8: { bool ok = read<Float32>(a, [&](Float32 g) { sym_check(g == (Float32)v, "reading as Float32 gives the stored number"); }); sym_check(ok ? exact<24>(v) : timeKind(a.type) || !exact<24>(v), "reading as Float32 succeeds exactly when the number is representable"); break; }
  case 9: { bool ok = read<Float64>(a, [&](Float64 g) { sym_check(g == (Float64)v, "reading as Float64 gives the stored number"); }); sym_check(ok ? exact<53>(v) : timeKind(a.type) || !exact<53>(v), "reading as Float64 succeeds exactly when the number is representable"); break; }
  default: sym_check(read<Bool>(a, [&](Bool g) { sym_check(g == (v != 0), "reading as Bool tells whether the number is not zero"); }), "reading as Bool succeeds"); break;
  }
}
void noInt(const AnySimple &a) {
#define NI(T) sym_check(!read<T>(a, [](T) {}), "a floating-point variant cannot be read as " #T)
  switch (sym_choose("read as", 9)) {
  case 0: NI(Int8); break;
  case 1: NI(Int16); break;
  case 2: NI(Int32); break;
  case 3: NI(Int64); break;
  case 4: NI(UInt8); break;
  case 5: NI(UInt16); break;
  case 6: NI(UInt32); break;
  case 7: NI(UInt64); break;
  default: NI(Bool); break;
  }
}
bool sameBits(Float64 a, Float64 b) { return memcmp(&a, &b, sizeof a) == 0; }
bool sameBits(Float32 a, Float32 b) { return memcmp(&a, &b, sizeof a) == 0; }
bool isNan(Float64 a) { return a != a; }
bool near(Float64 a, Float64 b) {
  if (a == b) return true;
  Float64 d = a - b;
  return d <= std::numeric_limits<Float64>::epsilon() && -d <= std::numeric_limits<Float64>::epsilon();
}
// A double goes into a float when the difference is at most the machine epsilon of the double.
bool floatOk(Float64 v) { Float32 n = (Float32)v; return isNan(v) || near(v, (Float64)n); }

K kindOf(unsigned i) { return (K)i; }
template <class T> bool store(AnySimple &a, K k, T v) {
  try { a.SetValue(k, v); } catch (const InvalidAnyType &) { return false; }
  return true;
}
// A variant with some previous content of another kind.
struct Prev {
  AnySimple a;
  Int64 old;
  K kind;
  Prev() {
    old = (Int64)sym_u64("previous");
    kind = K::PTK_None;
    if (sym_choose("previous kind", 2)) { kind = K::PTK_Int64; a.SetValue(kind, old); }
  }
  void unchanged() {
    sym_check(a.type == kind, "a refused store leaves the kind");
    if (kind == K::PTK_Int64) sym_check(a.value.int64Value == old, "a refused store leaves the value");
    sym_witness("refused store");
  }
};
template <class S> void storeInt() {
  S v = (S)sym_u64("number");
  K k = kindOf((unsigned)sym_choose("kind", 16));
  Prev p;
  bool ok = store(p.a, k, v);
  bool want = isIntKind(k) ? kindHolds(k, v) : k == K::PTK_Float32 ? exact<24>(v) : k == K::PTK_Float64 ? exact<53>(v) : false;
  sym_check(ok == want, "a number is stored exactly when the kind can hold it");
  if (!ok) { p.unchanged(); return; }
  sym_witness("stored");
  sym_check(p.a.type == k && p.a.GetType() == k, "the variant has the requested kind");
  if (isIntKind(k)) { sym_check(storedIs(p.a, k, v), "the stored member holds the number"); readInt(p.a, v); return; }
  sym_check(k == K::PTK_Float32 ? p.a.value.float32Value == (Float32)v : p.a.value.float64Value == (Float64)v, "the stored member holds the number");
  if (k == K::PTK_Float32) sym_check(read<Float32>(p.a, [&](Float32 g) { sym_check(g == (Float32)v, "reading back gives the number"); }), "a float variant can be read as Float32");
  else sym_check(read<Float64>(p.a, [&](Float64 g) { sym_check(g == (Float64)v, "reading back gives the number"); }), "a double variant can be read as Float64");
}
}
ENTRY(p10_i8) { storeInt<Int8>(); }
ENTRY(p10_u8) { storeInt<UInt8>(); }
ENTRY(p10_i16) { storeInt<Int16>(); }
ENTRY(p10_u16) { storeInt<UInt16>(); }
ENTRY(p10_i32) { storeInt<Int32>(); }
ENTRY(p10_u32) { storeInt<UInt32>(); }
ENTRY(p10_i64) { storeInt<Int64>(); }
ENTRY(p10_u64) { storeInt<UInt64>(); }
ENTRY(p10_f32) {
  UInt32 b = sym_u32("float bits");
  Float32 v;
  memcpy(&v, &b, 4);
  K k = kindOf((unsigned)sym_choose("kind", 16));
  Prev p;
  bool ok = store(p.a, k, v);
  sym_check(ok == (k == K::PTK_Float32 || k == K::PTK_Float64), "a float is stored exactly under a floating-point kind");
  if (!ok) { p.unchanged(); return; }
  sym_check(p.a.type == k, "the variant has the requested kind");
  switch (sym_choose("as", 3)) {
  case 0: sym_check(read<Float32>(p.a, [&](Float32 g) { sym_check(sameBits(g, v) || (isNan(v) && isNan(g)), "reading back as Float32 gives the float"); }), "a float can be read back as Float32"); break;
  case 1: sym_check(read<Float64>(p.a, [&](Float64 g) { sym_check(g == (Float64)v || (isNan(v) && isNan(g)), "reading back as Float64 gives the float"); }), "a float can be read back as Float64"); break;
  default: noInt(p.a);
  }
}
ENTRY(p10_f64) {
  UInt64 b = sym_u64("double bits");
  Float64 v;
  memcpy(&v, &b, 8);
  K k = kindOf((unsigned)sym_choose("kind", 16));
  unsigned as = (unsigned)sym_choose("as", 3);
  Prev p;
  bool ok = store(p.a, k, v);
  sym_check(ok == (k == K::PTK_Float64 || (k == K::PTK_Float32 && floatOk(v))), "a double is stored exactly under a floating-point kind that can hold it");
  if (!ok) { p.unchanged(); return; }
  sym_check(p.a.type == k, "the variant has the requested kind");
  switch (as) {
  case 0: sym_check(read<Float32>(p.a, [&](Float32 g) { sym_check(near(g, v) || (isNan(v) && isNan(g)), "reading back as Float32 gives the double up to the tolerance"); }) == floatOk(v), "a double can be read back as Float32 exactly when a float is near enough"); break;
  case 1: sym_check(read<Float64>(p.a, [&](Float64 g) { sym_check(k == K::PTK_Float64 ? sameBits(g, v) : near(g, v) || (isNan(v) && isNan(g)), "reading back as Float64 gives the double"); }), "a double can be read back as Float64"); break;
  default: noInt(p.a);
  }
}
ENTRY(p10_bool) {
  bool v = sym_bool("value");
  K k = kindOf((unsigned)sym_choose("kind", 16));
  Prev p;
  bool ok = store(p.a, k, v);
  sym_check(ok == (k == K::PTK_Bool), "a boolean is only stored as a boolean");
  if (!ok) { p.unchanged(); return; }
  sym_check(p.a.type == k && p.a.value.boolValue == v, "the boolean is stored");
  sym_check(read<Bool>(p.a, [&](Bool g) { sym_check(g == v, "reading back gives the boolean"); }), "a boolean can be read");
}
ENTRY(p10_char) {
  Char8 v = (Char8)sym_u8("value");
  K k = kindOf((unsigned)sym_choose("kind", 16));
  Prev p;
  bool ok = store(p.a, k, v);
  sym_check(ok == (k == K::PTK_Char8), "a character is only stored as a character");
  if (!ok) { p.unchanged(); return; }
  sym_check(p.a.type == k && p.a.value.char8Value == v, "the character is stored");
  sym_check(read<Char8>(p.a, [&](Char8 g) { sym_check(g == v, "reading back gives the character"); }), "a character can be read");
}
ENTRY(p10_text) {
  SymStr s(3, "text", true);
  K k = kindOf((unsigned)sym_choose("kind", 16));
  Prev p;
  bool ok = store(p.a, k, (String8)s.p);
  sym_check(ok == (k == K::PTK_String8), "a text is only stored as a text");
  if (!ok) { p.unchanged(); return; }
  sym_check(p.a.type == k, "the variant is a text");
  sym_check(read<String8>(p.a, [&](String8 g) {
    if (!s.p) { sym_check(g == nullptr, "no text gives no text"); return; }
    sym_check(g && g != s.p && memcmp(g, s.p, s.n + 1) == 0, "reading back gives a copy of the text");
  }), "a text can be read");
}
// Texts, characters, booleans and empty variants cannot be read as anything else.
ENTRY(p10_read_other) {
  AnySimple a;
  K k = kindOf((unsigned)sym_choose("kind", 16));
  switch (k) {
  case K::PTK_Bool: a.SetValue(k, sym_bool("b")); break;
  case K::PTK_Char8: a.SetValue(k, (Char8)sym_u8("c")); break;
  case K::PTK_String8: a.SetValue(k, (String8) "ab"); break;
  case K::PTK_Float32: { UInt32 b = sym_u32("f"); Float32 f; memcpy(&f, &b, 4); a.SetValue(k, f); break; }
  case K::PTK_Float64: { UInt64 b = sym_u64("d"); Float64 f; memcpy(&f, &b, 8); a.SetValue(k, f); break; }
  case K::PTK_None: break;
  default: a.SetValue(k, (Int8)(sym_u8("n") & 127)); break;
  }
  bool time = timeKind(k), num = k != K::PTK_Bool && k != K::PTK_Char8 && k != K::PTK_String8 && k != K::PTK_None, fl = k == K::PTK_Float32 || k == K::PTK_Float64;
#define RD(T, want) sym_check(read<T>(a, [](T) {}) == (want), "reading as " #T " succeeds exactly for a matching kind")
  switch (sym_choose("as", 12)) {
  case 0: RD(Int8, num && !fl); break;
  case 1: RD(Int16, num && !fl); break;
  case 2: RD(Int32, num && !fl); break;
  case 3: RD(Int64, num && !fl); break;
  case 4: RD(UInt8, num && !fl); break;
  case 5: RD(UInt16, num && !fl); break;
  case 6: RD(UInt32, num && !fl); break;
  case 7: RD(UInt64, num && !fl); break;
  case 8: if (k != K::PTK_Float64 && !time) RD(Float32, num); break;
  case 9: if (!time) RD(Float64, num); break;
  case 10: RD(Char8, k == K::PTK_Char8); break;
  default: RD(String8, k == K::PTK_String8); break;
  }
}
