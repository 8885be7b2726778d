// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDOBJECTNAME_H
#define SMPSTUB_INVALIDOBJECTNAME_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidObjectName : public virtual ::Smp::Exception { public:
  ~InvalidObjectName() noexcept override = default;
  virtual ::Smp::String8 GetInvalidName() const noexcept = 0;
};
}
#endif
