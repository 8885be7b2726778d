// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_INVALIDEVENTID_H
#define SMPSTUB_SERVICES_INVALIDEVENTID_H
#include <Smp/Exception.h>
#include <Smp/Services/EventId.h>
namespace Smp {
namespace Services {
class InvalidEventId : public virtual ::Smp::Exception { public:
  ~InvalidEventId() noexcept override = default;
  virtual ::Smp::Services::EventId GetInvalidEventId() const noexcept = 0;
};
}
}
#endif
