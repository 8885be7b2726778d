// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IEVENTCONSUMER_H
#define SMPSTUB_IEVENTCONSUMER_H
#include <Smp/IEventSink.h>
#include <Smp/IComponent.h>
namespace Smp {
class IEventConsumer : public virtual IComponent { public:
  ~IEventConsumer() noexcept override = default;
virtual const EventSinkCollection *GetEventSinks() const = 0;
virtual IEventSink *GetEventSink(String8 name) const = 0;
};
}
#endif
