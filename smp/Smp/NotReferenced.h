// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_NOTREFERENCED_H
#define SMPSTUB_NOTREFERENCED_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
class NotReferenced : public virtual ::Smp::Exception { public:
  ~NotReferenced() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
};
}
#endif
