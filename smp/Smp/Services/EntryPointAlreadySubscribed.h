// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H
#define SMPSTUB_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H
#include <Smp/Exception.h>
namespace Smp {
class IEntryPoint;
namespace Services {
class EntryPointAlreadySubscribed : public virtual ::Smp::Exception { public:
  ~EntryPointAlreadySubscribed() noexcept override = default;
  virtual const ::Smp::IEntryPoint * GetEntryPoint() const noexcept = 0;
  virtual ::Smp::String8 GetEventName() const noexcept = 0;
};
}
}
#endif
