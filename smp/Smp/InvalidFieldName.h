// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDFIELDNAME_H
#define SMPSTUB_INVALIDFIELDNAME_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidFieldName : public virtual ::Smp::Exception { public:
  ~InvalidFieldName() noexcept override = default;
  virtual ::Smp::String8 GetFieldName() const noexcept = 0;
};
}
#endif
