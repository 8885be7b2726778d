// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_VIEWKIND_H
#define SMPSTUB_VIEWKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class ViewKind : Int32 { VK_None, VK_Debug, VK_Expert, VK_All };
std::ostream &operator<<(std::ostream &os, const ViewKind &obj);
}
#endif
