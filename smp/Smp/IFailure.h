// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IFAILURE_H
#define SMPSTUB_IFAILURE_H
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
namespace Smp {
class IFailure : public virtual IPersist { public:
  ~IFailure() noexcept override = default;
virtual void Fail() = 0;
virtual void Unfail() = 0;
virtual Bool IsFailed() const = 0;
};
using FailureCollection = ICollection<IFailure>;
}
#endif
