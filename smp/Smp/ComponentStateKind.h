// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_COMPONENTSTATEKIND_H
#define SMPSTUB_COMPONENTSTATEKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class ComponentStateKind : Int32 { CSK_Created, CSK_Publishing, CSK_Configured, CSK_Connected, CSK_Disconnected };
std::ostream &operator<<(std::ostream &os, const ComponentStateKind &obj);
}
#endif
