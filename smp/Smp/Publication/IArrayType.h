// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_IARRAYTYPE_H
#define SMPSTUB_PUBLICATION_IARRAYTYPE_H
#include <Smp/Publication/IType.h>
namespace Smp {
namespace Publication {
class IArrayType : public virtual IType { public:
  ~IArrayType() noexcept override = default;
virtual UInt64 GetSize() const = 0;
virtual const IType *GetItemType() const = 0;
};
}
}
#endif
