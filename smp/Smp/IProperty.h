// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IPROPERTY_H
#define SMPSTUB_IPROPERTY_H
#include <Smp/AccessKind.h>
#include <Smp/ViewKind.h>
#include <Smp/AnySimple.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
namespace Publication { class IType; }
class IProperty : public virtual IObject { public:
  ~IProperty() noexcept override = default;
virtual Publication::IType *GetType() const = 0;
virtual AccessKind GetAccess() const = 0;
virtual ViewKind GetView() const = 0;
virtual AnySimple GetValue() const = 0;
virtual void SetValue(AnySimple value) = 0;
};
using PropertyCollection = ICollection<IProperty>;
}
#endif
