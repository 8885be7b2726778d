// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_CONTAINERFULL_H
#define SMPSTUB_CONTAINERFULL_H
#include <Smp/Exception.h>
namespace Smp {
class ContainerFull : public virtual ::Smp::Exception { public:
  ~ContainerFull() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::Int64 GetContainerSize() const noexcept = 0;
};
}
#endif
