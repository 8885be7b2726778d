// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDSIMULATORSTATE_H
#define SMPSTUB_INVALIDSIMULATORSTATE_H
#include <Smp/Exception.h>
#include <Smp/SimulatorStateKind.h>
namespace Smp {
class InvalidSimulatorState : public virtual ::Smp::Exception { public:
  ~InvalidSimulatorState() noexcept override = default;
  virtual ::Smp::SimulatorStateKind GetInvalidState() const noexcept = 0;
};
}
#endif
