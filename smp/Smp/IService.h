// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ISERVICE_H
#define SMPSTUB_ISERVICE_H
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp {
class IService : public virtual IComponent { public:
  ~IService() noexcept override = default;

};
using ServiceCollection = ICollection<IService>;
}
#endif
