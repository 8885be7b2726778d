// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_DUPLICATEUUID_H
#define SMPSTUB_DUPLICATEUUID_H
#include <Smp/Exception.h>
namespace Smp {
class DuplicateUuid : public virtual ::Smp::Exception { public:
  ~DuplicateUuid() noexcept override = default;
  virtual ::Smp::String8 GetOldName() const noexcept = 0;
  virtual ::Smp::String8 GetNewName() const noexcept = 0;
};
}
#endif
