// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_INVALIDEVENTTIME_H
#define SMPSTUB_SERVICES_INVALIDEVENTTIME_H
#include <Smp/Exception.h>
namespace Smp {
namespace Services {
class InvalidEventTime : public virtual ::Smp::Exception { public:
  ~InvalidEventTime() noexcept override = default;

};
}
}
#endif
