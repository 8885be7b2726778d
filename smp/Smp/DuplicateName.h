// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_DUPLICATENAME_H
#define SMPSTUB_DUPLICATENAME_H
#include <Smp/Exception.h>
namespace Smp {
class DuplicateName : public virtual ::Smp::Exception { public:
  ~DuplicateName() noexcept override = default;
  virtual ::Smp::String8 GetDuplicateName() const noexcept = 0;
};
}
#endif
