// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IOPERATION_H
#define SMPSTUB_IOPERATION_H
#include <Smp/IParameter.h>
#include <Smp/IRequest.h>
#include <Smp/ViewKind.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
class IOperation : public virtual IObject { public:
  ~IOperation() noexcept override = default;
virtual const ParameterCollection *GetParameters() const = 0;
virtual IParameter *GetParameter(String8 name) const = 0;
virtual IParameter *GetReturnParameter() const = 0;
virtual ViewKind GetView() const = 0;
virtual IRequest *CreateRequest() = 0;
virtual void Invoke(IRequest *request) = 0;
virtual void DeleteRequest(IRequest *request) = 0;
};
using OperationCollection = ICollection<IOperation>;
}
#endif
