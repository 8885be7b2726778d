// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_PARAMETERDIRECTIONKIND_H
#define SMPSTUB_PUBLICATION_PARAMETERDIRECTIONKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
namespace Publication {
enum class ParameterDirectionKind : Int32 { PDK_In, PDK_Out, PDK_InOut, PDK_Return };
std::ostream &operator<<(std::ostream &os, const ParameterDirectionKind &obj);
}
}
#endif
