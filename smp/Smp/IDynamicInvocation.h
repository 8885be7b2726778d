// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IDYNAMICINVOCATION_H
#define SMPSTUB_IDYNAMICINVOCATION_H
#include <Smp/IRequest.h>
#include <Smp/IProperty.h>
#include <Smp/IOperation.h>
#include <Smp/IComponent.h>
namespace Smp {
class IDynamicInvocation : public virtual IComponent { public:
  ~IDynamicInvocation() noexcept override = default;
virtual IRequest *CreateRequest(String8 operationName) = 0;
virtual void Invoke(IRequest *request) = 0;
virtual void DeleteRequest(IRequest *request) = 0;
virtual const PropertyCollection *GetProperties() const = 0;
virtual const OperationCollection *GetOperations() const = 0;
};
}
#endif
