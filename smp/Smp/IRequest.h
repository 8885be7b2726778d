// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IREQUEST_H
#define SMPSTUB_IREQUEST_H
#include <Smp/AnySimple.h>
namespace Smp {
class IRequest { public:
  virtual ~IRequest() noexcept = default;
virtual String8 GetOperationName() const = 0;
virtual Int32 GetParameterCount() const = 0;
virtual Int32 GetParameterIndex(String8 parameterName) const = 0;
virtual void SetParameterValue(Int32 index, AnySimple value) = 0;
virtual AnySimple GetParameterValue(Int32 index) const = 0;
virtual void SetReturnValue(AnySimple value) = 0;
virtual AnySimple GetReturnValue() const = 0;
};
}
#endif
