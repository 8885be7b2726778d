// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_CANNOTDELETE_H
#define SMPSTUB_CANNOTDELETE_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
class CannotDelete : public virtual ::Smp::Exception { public:
  ~CannotDelete() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
}
#endif
