// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ISTRUCTUREFIELD_H
#define SMPSTUB_ISTRUCTUREFIELD_H
#include <Smp/IField.h>
namespace Smp {
class IStructureField : public virtual IField { public:
  ~IStructureField() noexcept override = default;
virtual const FieldCollection *GetFields() const = 0;
virtual IField *GetField(String8 name) const = 0;
};
}
#endif
