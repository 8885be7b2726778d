// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ICONTAINER_H
#define SMPSTUB_ICONTAINER_H
#include <Smp/IComponent.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
class IContainer : public virtual IObject { public:
  ~IContainer() noexcept override = default;
virtual const ComponentCollection *GetComponents() const = 0;
virtual IComponent *GetComponent(String8 name) const = 0;
virtual void AddComponent(IComponent *component) = 0;
virtual void DeleteComponent(IComponent *component) = 0;
virtual Int64 GetCount() const = 0;
virtual Int64 GetUpper() const = 0;
virtual Int64 GetLower() const = 0;
};
using ContainerCollection = ICollection<IContainer>;
}
#endif
