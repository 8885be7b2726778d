// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_ITYPE_H
#define SMPSTUB_PUBLICATION_ITYPE_H
#include <Smp/Uuid.h>
#include <Smp/ViewKind.h>
#include <Smp/IObject.h>
namespace Smp {
class IPublication;
namespace Publication {
class IType : public virtual IObject { public:
  ~IType() noexcept override = default;
virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
virtual Uuid GetUuid() const = 0;
virtual void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
};
}
}
#endif
