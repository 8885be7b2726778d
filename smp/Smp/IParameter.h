// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IPARAMETER_H
#define SMPSTUB_IPARAMETER_H
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
namespace Publication { class IType; }
class IParameter : public virtual IObject { public:
  ~IParameter() noexcept override = default;
virtual Publication::IType *GetType() const = 0;
virtual Publication::ParameterDirectionKind GetDirection() const = 0;
};
using ParameterCollection = ICollection<IParameter>;
}
#endif
