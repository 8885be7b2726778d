// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDARRAYVALUE_H
#define SMPSTUB_INVALIDARRAYVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {
class InvalidArrayValue : public virtual ::Smp::Exception { public:
  ~InvalidArrayValue() noexcept override = default;
  virtual ::Smp::Int64 GetInvalidValueIndex() const noexcept = 0;
  virtual ::Smp::AnySimple GetInvalidValue() const noexcept = 0;
};
}
#endif
