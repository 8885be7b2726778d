// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IFIELD_H
#define SMPSTUB_IFIELD_H
#include <Smp/ViewKind.h>
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
namespace Smp {
namespace Publication { class IType; }
class IField : public virtual IPersist { public:
  ~IField() noexcept override = default;
virtual ViewKind GetView() const = 0;
virtual Bool IsState() const = 0;
virtual Bool IsInput() const = 0;
virtual Bool IsOutput() const = 0;
virtual const Publication::IType *GetType() const = 0;
};
using FieldCollection = ICollection<IField>;
}
#endif
