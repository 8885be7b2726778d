// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDANYTYPE_H
#define SMPSTUB_INVALIDANYTYPE_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidAnyType : public virtual ::Smp::Exception { public:
  ~InvalidAnyType() noexcept override = default;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
}
#endif
