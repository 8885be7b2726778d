// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ILINKINGCOMPONENT_H
#define SMPSTUB_ILINKINGCOMPONENT_H
#include <Smp/IComponent.h>
namespace Smp {
class ILinkingComponent : public virtual IComponent { public:
  ~ILinkingComponent() noexcept override = default;
virtual void RemoveLinks(const IComponent *target) = 0;
};
}
#endif
