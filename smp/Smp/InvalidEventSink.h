// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDEVENTSINK_H
#define SMPSTUB_INVALIDEVENTSINK_H
#include <Smp/Exception.h>
namespace Smp {
class IEventSink;
class IEventSource;
class InvalidEventSink : public virtual ::Smp::Exception { public:
  ~InvalidEventSink() noexcept override = default;
  virtual const ::Smp::IEventSource * GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink * GetEventSink() const noexcept = 0;
};
}
#endif
