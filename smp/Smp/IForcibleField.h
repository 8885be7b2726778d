// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IFORCIBLEFIELD_H
#define SMPSTUB_IFORCIBLEFIELD_H
#include <Smp/ISimpleField.h>
namespace Smp {
class IForcibleField : public virtual ISimpleField { public:
  ~IForcibleField() noexcept override = default;
virtual void Force(AnySimple value) = 0;
virtual void Unforce() = 0;
virtual Bool IsForced() = 0;
virtual void Freeze() = 0;
};
}
#endif
