// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_REFERENCEFULL_H
#define SMPSTUB_REFERENCEFULL_H
#include <Smp/Exception.h>
namespace Smp {
class ReferenceFull : public virtual ::Smp::Exception { public:
  ~ReferenceFull() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::Int64 GetReferenceSize() const noexcept = 0;
};
}
#endif
