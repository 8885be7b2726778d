// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IOBJECT_H
#define SMPSTUB_IOBJECT_H
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IObject { public:
  virtual ~IObject() noexcept = default;
  virtual String8 GetName() const = 0;
  virtual String8 GetDescription() const = 0;
  virtual IObject *GetParent() const = 0;
};
}
#endif
