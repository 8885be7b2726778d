// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ISIMPLEFIELD_H
#define SMPSTUB_ISIMPLEFIELD_H
#include <Smp/AnySimple.h>
#include <Smp/IField.h>
namespace Smp {
class ISimpleField : public virtual IField { public:
  ~ISimpleField() noexcept override = default;
virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
virtual AnySimple GetValue() const = 0;
virtual void SetValue(AnySimple value) = 0;
};
}
#endif
