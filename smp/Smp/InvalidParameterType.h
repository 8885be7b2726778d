// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDPARAMETERTYPE_H
#define SMPSTUB_INVALIDPARAMETERTYPE_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidParameterType : public virtual ::Smp::Exception { public:
  ~InvalidParameterType() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
}
#endif
