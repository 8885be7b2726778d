// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDCOMPONENTSTATE_H
#define SMPSTUB_INVALIDCOMPONENTSTATE_H
#include <Smp/Exception.h>
#include <Smp/ComponentStateKind.h>
namespace Smp {
class InvalidComponentState : public virtual ::Smp::Exception { public:
  ~InvalidComponentState() noexcept override = default;
  virtual ::Smp::ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ::Smp::ComponentStateKind GetExpectedState() const noexcept = 0;
};
}
#endif
