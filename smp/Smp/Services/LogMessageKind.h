// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_LOGMESSAGEKIND_H
#define SMPSTUB_SERVICES_LOGMESSAGEKIND_H
#include <Smp/PrimitiveTypes.h>
namespace Smp {
namespace Services {
using LogMessageKind = Int32;
}
}
#endif
