// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_EVENTID_H
#define SMPSTUB_SERVICES_EVENTID_H
#include <Smp/PrimitiveTypes.h>
namespace Smp {
namespace Services {
using EventId = Int64;
}
}
#endif
