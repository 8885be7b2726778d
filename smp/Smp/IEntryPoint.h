// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IENTRYPOINT_H
#define SMPSTUB_IENTRYPOINT_H
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
class IEntryPoint : public virtual IObject { public:
  ~IEntryPoint() noexcept override = default;
virtual void Execute() const = 0;
};
using EntryPointCollection = ICollection<IEntryPoint>;
}
#endif
