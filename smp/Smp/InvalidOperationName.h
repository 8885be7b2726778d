// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDOPERATIONNAME_H
#define SMPSTUB_INVALIDOPERATIONNAME_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidOperationName : public virtual ::Smp::Exception { public:
  ~InvalidOperationName() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
}
#endif
