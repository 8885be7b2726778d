// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_CANNOTREMOVE_H
#define SMPSTUB_CANNOTREMOVE_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
class CannotRemove : public virtual ::Smp::Exception { public:
  ~CannotRemove() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
}
#endif
