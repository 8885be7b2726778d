// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ISIMPLEARRAYFIELD_H
#define SMPSTUB_ISIMPLEARRAYFIELD_H
#include <Smp/AnySimple.h>
#include <Smp/AnySimpleArray.h>
#include <Smp/IField.h>
namespace Smp {
class ISimpleArrayField : public virtual IField { public:
  ~ISimpleArrayField() noexcept override = default;
virtual UInt64 GetSize() const = 0;
virtual AnySimple GetValue(UInt64 index) const = 0;
virtual void SetValue(UInt64 index, AnySimple value) = 0;
virtual void GetValues(UInt64 length, AnySimpleArray values) const = 0;
virtual void SetValues(UInt64 length, AnySimpleArray values) = 0;
};
}
#endif
