// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IENTRYPOINTPUBLISHER_H
#define SMPSTUB_IENTRYPOINTPUBLISHER_H
#include <Smp/IEntryPoint.h>
#include <Smp/IObject.h>
namespace Smp {
class IEntryPointPublisher : public virtual IObject { public:
  ~IEntryPointPublisher() noexcept override = default;
virtual const EntryPointCollection *GetEntryPoints() const = 0;
virtual IEntryPoint *GetEntryPoint(String8 name) const = 0;
};
}
#endif
