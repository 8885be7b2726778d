// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ACCESSKIND_H
#define SMPSTUB_ACCESSKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class AccessKind : Int32 { AK_ReadWrite, AK_ReadOnly, AK_WriteOnly };
std::ostream &operator<<(std::ostream &os, const AccessKind &obj);
}
#endif
