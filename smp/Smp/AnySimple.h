// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ANYSIMPLE_H
#define SMPSTUB_ANYSIMPLE_H
#include <Smp/PrimitiveTypes.h>
namespace Smp {
struct AnySimple {
  PrimitiveTypeKind type;
  union { Bool boolValue; Char8 char8Value; Int8 int8Value; Int16 int16Value; Int32 int32Value; Int64 int64Value; UInt8 uInt8Value; UInt16 uInt16Value; UInt32 uInt32Value; UInt64 uInt64Value; Float32 float32Value; Float64 float64Value; Duration durationValue; DateTime dateTimeValue; String8 string8Value; } value;
  AnySimple();
  AnySimple(PrimitiveTypeKind kind);
  AnySimple(const AnySimple &);
  AnySimple(AnySimple &&);
  AnySimple &operator=(const AnySimple &);
  AnySimple &operator=(AnySimple &&);
  ~AnySimple() noexcept;
  template <typename T> AnySimple(PrimitiveTypeKind kind, T v) : AnySimple(kind) { SetValue(kind, v); }
  void SetValue(PrimitiveTypeKind kind, Bool v); void SetValue(PrimitiveTypeKind kind, Char8 v); void SetValue(PrimitiveTypeKind kind, String8 v);
  void SetValue(PrimitiveTypeKind kind, UInt8 v); void SetValue(PrimitiveTypeKind kind, UInt16 v); void SetValue(PrimitiveTypeKind kind, UInt32 v); void SetValue(PrimitiveTypeKind kind, UInt64 v);
  void SetValue(PrimitiveTypeKind kind, Int8 v); void SetValue(PrimitiveTypeKind kind, Int16 v); void SetValue(PrimitiveTypeKind kind, Int32 v); void SetValue(PrimitiveTypeKind kind, Int64 v);
  void SetValue(PrimitiveTypeKind kind, Float32 v); void SetValue(PrimitiveTypeKind kind, Float64 v);
  PrimitiveTypeKind GetType() const noexcept;
  String8 MoveString();
  operator Bool() const; operator Char8() const; operator String8() const; operator UInt8() const; operator UInt16() const; operator UInt32() const; operator UInt64() const;
  operator Int8() const; operator Int16() const; operator Int32() const; operator Int64() const; operator Float32() const; operator Float64() const;
  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
}
#endif
