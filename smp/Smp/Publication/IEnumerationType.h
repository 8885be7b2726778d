// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_IENUMERATIONTYPE_H
#define SMPSTUB_PUBLICATION_IENUMERATIONTYPE_H
#include <Smp/Publication/IType.h>
namespace Smp {
namespace Publication {
class IEnumerationType : public virtual IType { public:
  ~IEnumerationType() noexcept override = default;
virtual void AddLiteral(String8 name, String8 description, Int32 value) = 0;
};
}
}
#endif
