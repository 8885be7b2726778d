// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_INVALIDEVENTNAME_H
#define SMPSTUB_SERVICES_INVALIDEVENTNAME_H
#include <Smp/Exception.h>
namespace Smp {
namespace Services {
class InvalidEventName : public virtual ::Smp::Exception { public:
  ~InvalidEventName() noexcept override = default;

};
}
}
#endif
