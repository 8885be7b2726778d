// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IFALLIBLEMODEL_H
#define SMPSTUB_IFALLIBLEMODEL_H
#include <Smp/IFailure.h>
#include <Smp/IModel.h>
namespace Smp {
class IFallibleModel : public virtual IModel { public:
  ~IFallibleModel() noexcept override = default;
virtual Bool IsFailed() const = 0;
virtual const FailureCollection *GetFailures() const = 0;
virtual IFailure *GetFailure(String8 name) const = 0;
};
}
#endif
