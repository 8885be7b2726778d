// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_VOIDOPERATION_H
#define SMPSTUB_VOIDOPERATION_H
#include <Smp/Exception.h>
namespace Smp {
class VoidOperation : public virtual ::Smp::Exception { public:
  ~VoidOperation() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
}
#endif
