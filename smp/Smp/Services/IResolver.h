// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_IRESOLVER_H
#define SMPSTUB_SERVICES_IRESOLVER_H
#include <Smp/IService.h>
namespace Smp {
namespace Services {
class IResolver : public virtual IService { public:
  ~IResolver() noexcept override = default;
static constexpr const char *SMP_Resolver = "Resolver";
virtual IObject *ResolveAbsolute(String8 absolutePath) = 0;
virtual IObject *ResolveRelative(String8 relativePath, const IComponent *sender) = 0;
};
}
}
#endif
