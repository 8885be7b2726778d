// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IARRAYFIELD_H
#define SMPSTUB_IARRAYFIELD_H
#include <Smp/IField.h>
namespace Smp {
class IArrayField : public virtual IField { public:
  ~IArrayField() noexcept override = default;
virtual UInt64 GetSize() const = 0;
virtual IField *GetItem(UInt64 index) const = 0;
};
}
#endif
