// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDFIELDVALUE_H
#define SMPSTUB_INVALIDFIELDVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {
class InvalidFieldValue : public virtual ::Smp::Exception { public:
  ~InvalidFieldValue() noexcept override = default;
  virtual ::Smp::AnySimple GetInvalidFieldValue() const noexcept = 0;
};
}
#endif
