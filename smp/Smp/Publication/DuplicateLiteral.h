// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_DUPLICATELITERAL_H
#define SMPSTUB_PUBLICATION_DUPLICATELITERAL_H
#include <Smp/Exception.h>
namespace Smp {
namespace Publication {
class DuplicateLiteral : public virtual ::Smp::Exception { public:
  ~DuplicateLiteral() noexcept override = default;
  virtual ::Smp::String8 GetLiteralName() const noexcept = 0;
  virtual ::Smp::Int32 GetLiteralValue() const noexcept = 0;
};
}
}
#endif
