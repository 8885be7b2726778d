// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDPARAMETERVALUE_H
#define SMPSTUB_INVALIDPARAMETERVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {
class InvalidParameterValue : public virtual ::Smp::Exception { public:
  ~InvalidParameterValue() noexcept override = default;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
}
#endif
