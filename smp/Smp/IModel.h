// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IMODEL_H
#define SMPSTUB_IMODEL_H
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp {
class IModel : public virtual IComponent { public:
  ~IModel() noexcept override = default;

};
using ModelCollection = ICollection<IModel>;
}
#endif
