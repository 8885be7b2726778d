// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDPARAMETERINDEX_H
#define SMPSTUB_INVALIDPARAMETERINDEX_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidParameterIndex : public virtual ::Smp::Exception { public:
  ~InvalidParameterIndex() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterIndex() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterCount() const noexcept = 0;
};
}
#endif
