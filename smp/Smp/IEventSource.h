// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IEVENTSOURCE_H
#define SMPSTUB_IEVENTSOURCE_H
#include <Smp/IEventSink.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
class IEventSource : public virtual IObject { public:
  ~IEventSource() noexcept override = default;
virtual void Subscribe(IEventSink *eventSink) = 0;
virtual void Unsubscribe(IEventSink *eventSink) = 0;
};
using EventSourceCollection = ICollection<IEventSource>;
}
#endif
