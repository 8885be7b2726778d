// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_ISTRUCTURETYPE_H
#define SMPSTUB_PUBLICATION_ISTRUCTURETYPE_H
#include <Smp/Publication/IType.h>
namespace Smp {
namespace Publication {
class IStructureType : public virtual IType { public:
  ~IStructureType() noexcept override = default;
virtual void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
};
}
}
#endif
