// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_INVALIDSIMULATIONTIME_H
#define SMPSTUB_SERVICES_INVALIDSIMULATIONTIME_H
#include <Smp/Exception.h>
namespace Smp {
namespace Services {
class InvalidSimulationTime : public virtual ::Smp::Exception { public:
  ~InvalidSimulationTime() noexcept override = default;
  virtual ::Smp::Duration GetCurrentTime() const noexcept = 0;
  virtual ::Smp::Duration GetProvidedTime() const noexcept = 0;
  virtual ::Smp::Duration GetMaximumTime() const noexcept = 0;
};
}
}
#endif
