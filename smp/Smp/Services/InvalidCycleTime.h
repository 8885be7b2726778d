// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_INVALIDCYCLETIME_H
#define SMPSTUB_SERVICES_INVALIDCYCLETIME_H
#include <Smp/Exception.h>
namespace Smp {
namespace Services {
class InvalidCycleTime : public virtual ::Smp::Exception { public:
  ~InvalidCycleTime() noexcept override = default;

};
}
}
#endif
