// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_TIMEKIND_H
#define SMPSTUB_SERVICES_TIMEKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
namespace Services {
enum class TimeKind : Int32 { TK_SimulationTime, TK_MissionTime, TK_EpochTime, TK_ZuluTime };
std::ostream &operator<<(std::ostream &os, const TimeKind &obj);
}
}
#endif
