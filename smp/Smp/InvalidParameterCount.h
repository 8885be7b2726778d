// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDPARAMETERCOUNT_H
#define SMPSTUB_INVALIDPARAMETERCOUNT_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidParameterCount : public virtual ::Smp::Exception { public:
  ~InvalidParameterCount() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetOperationParameters() const noexcept = 0;
  virtual ::Smp::Int32 GetRequestParameters() const noexcept = 0;
};
}
#endif
