// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDRETURNVALUE_H
#define SMPSTUB_INVALIDRETURNVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {
class InvalidReturnValue : public virtual ::Smp::Exception { public:
  ~InvalidReturnValue() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
}
#endif
