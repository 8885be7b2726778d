// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_NOTCONTAINED_H
#define SMPSTUB_NOTCONTAINED_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
class NotContained : public virtual ::Smp::Exception { public:
  ~NotContained() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
};
}
#endif
