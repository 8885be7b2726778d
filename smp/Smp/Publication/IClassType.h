// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_ICLASSTYPE_H
#define SMPSTUB_PUBLICATION_ICLASSTYPE_H
#include <Smp/Publication/IStructureType.h>
namespace Smp {
namespace Publication {
class IClassType : public virtual IStructureType { public:
  ~IClassType() noexcept override = default;

};
}
}
#endif
