// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_ILINKREGISTRY_H
#define SMPSTUB_SERVICES_ILINKREGISTRY_H
#include <Smp/IService.h>
namespace Smp {
namespace Services {
class ILinkRegistry : public virtual IService { public:
  ~ILinkRegistry() noexcept override = default;
static constexpr const char *SMP_LinkRegistry = "LinkRegistry";
virtual void AddLink(IComponent *source, const IComponent *target) = 0;
virtual UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const = 0;
virtual Bool RemoveLink(IComponent *source, const IComponent *target) = 0;
virtual const ComponentCollection *GetLinkSources(const IComponent *target) const = 0;
virtual Bool CanRemove(const IComponent *target) = 0;
virtual void RemoveLinks(const IComponent *target) = 0;
};
}
}
#endif
