// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ICOMPOSITE_H
#define SMPSTUB_ICOMPOSITE_H
#include <Smp/IContainer.h>
#include <Smp/IObject.h>
namespace Smp {
class IComposite : public virtual IObject { public:
  ~IComposite() noexcept override = default;
virtual const ContainerCollection *GetContainers() const = 0;
virtual IContainer *GetContainer(String8 name) const = 0;
};
}
#endif
