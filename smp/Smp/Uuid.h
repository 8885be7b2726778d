// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_UUID_H
#define SMPSTUB_UUID_H
#include <Smp/PrimitiveTypes.h>
#include <array>
#include <functional>
namespace Smp {
struct Uuid {
  UInt32 Data1; std::array<UInt16, 3> Data2; std::array<UInt8, 6> Data3;
  constexpr Uuid() : Data1{0}, Data2{{0, 0, 0}}, Data3{{0, 0, 0, 0, 0, 0}} {}
  constexpr Uuid(UInt32 a, std::array<UInt16, 3> b, std::array<UInt8, 6> c) : Data1(a), Data2(b), Data3(c) {}
  constexpr Uuid(UInt32 a, UInt16 b, UInt16 c, UInt16 d, UInt64 e) : Data1(a), Data2{{b, c, d}}, Data3{{UInt8(e >> 40), UInt8(e >> 32), UInt8(e >> 24), UInt8(e >> 16), UInt8(e >> 8), UInt8(e)}} {}
  Uuid(const char *value);
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &obj);
namespace Uuids {
inline constexpr Uuid Uuid_Void{0xa0000000U, 0x1000U, 0x2000U, 0x3000U, 0x001234567890ULL};
inline constexpr Uuid Uuid_Char8{0xa0000001U, 0x1000U, 0x2000U, 0x3000U, 0x001234567891ULL};
inline constexpr Uuid Uuid_String8{0xa0000002U, 0x1000U, 0x2000U, 0x3000U, 0x001234567892ULL};
inline constexpr Uuid Uuid_Bool{0xa0000003U, 0x1000U, 0x2000U, 0x3000U, 0x001234567893ULL};
inline constexpr Uuid Uuid_Int8{0xa0000004U, 0x1000U, 0x2000U, 0x3000U, 0x001234567894ULL};
inline constexpr Uuid Uuid_Int16{0xa0000005U, 0x1000U, 0x2000U, 0x3000U, 0x001234567895ULL};
inline constexpr Uuid Uuid_Int32{0xa0000006U, 0x1000U, 0x2000U, 0x3000U, 0x001234567896ULL};
inline constexpr Uuid Uuid_Int64{0xa0000007U, 0x1000U, 0x2000U, 0x3000U, 0x001234567897ULL};
inline constexpr Uuid Uuid_UInt8{0xa0000008U, 0x1000U, 0x2000U, 0x3000U, 0x001234567898ULL};
inline constexpr Uuid Uuid_UInt16{0xa0000009U, 0x1000U, 0x2000U, 0x3000U, 0x001234567899ULL};
inline constexpr Uuid Uuid_UInt32{0xa000000aU, 0x1000U, 0x2000U, 0x3000U, 0x00123456789aULL};
inline constexpr Uuid Uuid_UInt64{0xa000000bU, 0x1000U, 0x2000U, 0x3000U, 0x00123456789bULL};
inline constexpr Uuid Uuid_Float32{0xa000000cU, 0x1000U, 0x2000U, 0x3000U, 0x00123456789cULL};
inline constexpr Uuid Uuid_Float64{0xa000000dU, 0x1000U, 0x2000U, 0x3000U, 0x00123456789dULL};
inline constexpr Uuid Uuid_Duration{0xa000000eU, 0x1000U, 0x2000U, 0x3000U, 0x00123456789eULL};
inline constexpr Uuid Uuid_DateTime{0xa000000fU, 0x1000U, 0x2000U, 0x3000U, 0x00123456789fULL};
inline constexpr Uuid Uuid_PrimitiveTypeKind{0xa0000010U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a0ULL};
inline constexpr Uuid Uuid_EventId{0xa0000011U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a1ULL};
inline constexpr Uuid Uuid_LogMessageKind{0xa0000012U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a2ULL};
inline constexpr Uuid Uuid_TimeKind{0xa0000013U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a3ULL};
inline constexpr Uuid Uuid_ViewKind{0xa0000014U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a4ULL};
inline constexpr Uuid Uuid_ParameterDirectionKind{0xa0000015U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a5ULL};
inline constexpr Uuid Uuid_ComponentStateKind{0xa0000016U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a6ULL};
inline constexpr Uuid Uuid_AccessKind{0xa0000017U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a7ULL};
inline constexpr Uuid Uuid_SimulatorStateKind{0xa0000018U, 0x1000U, 0x2000U, 0x3000U, 0x0012345678a8ULL};
}
}
namespace std { template <> struct hash<::Smp::Uuid> { size_t operator()(const ::Smp::Uuid &uuid) const; }; }
#endif
