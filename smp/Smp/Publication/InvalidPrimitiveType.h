// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_INVALIDPRIMITIVETYPE_H
#define SMPSTUB_PUBLICATION_INVALIDPRIMITIVETYPE_H
#include <Smp/Exception.h>
namespace Smp {
namespace Publication {
class InvalidPrimitiveType : public virtual ::Smp::Exception { public:
  ~InvalidPrimitiveType() noexcept override = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetType() const noexcept = 0;
};
}
}
#endif
