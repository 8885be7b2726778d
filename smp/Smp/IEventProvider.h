// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IEVENTPROVIDER_H
#define SMPSTUB_IEVENTPROVIDER_H
#include <Smp/IEventSource.h>
#include <Smp/IComponent.h>
namespace Smp {
class IEventProvider : public virtual IComponent { public:
  ~IEventProvider() noexcept override = default;
virtual const EventSourceCollection *GetEventSources() const = 0;
virtual IEventSource *GetEventSource(String8 name) const = 0;
};
}
#endif
