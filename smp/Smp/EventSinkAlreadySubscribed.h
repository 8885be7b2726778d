// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_EVENTSINKALREADYSUBSCRIBED_H
#define SMPSTUB_EVENTSINKALREADYSUBSCRIBED_H
#include <Smp/Exception.h>
namespace Smp {
class IEventSink;
class IEventSource;
class EventSinkAlreadySubscribed : public virtual ::Smp::Exception { public:
  ~EventSinkAlreadySubscribed() noexcept override = default;
  virtual const ::Smp::IEventSource * GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink * GetEventSink() const noexcept = 0;
};
}
#endif
