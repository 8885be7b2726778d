// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IAGGREGATE_H
#define SMPSTUB_IAGGREGATE_H
#include <Smp/IReference.h>
#include <Smp/IComponent.h>
namespace Smp {
class IAggregate : public virtual IComponent { public:
  ~IAggregate() noexcept override = default;
virtual const ReferenceCollection *GetReferences() const = 0;
virtual IReference *GetReference(String8 name) const = 0;
};
}
#endif
