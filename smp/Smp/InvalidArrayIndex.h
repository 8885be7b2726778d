// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDARRAYINDEX_H
#define SMPSTUB_INVALIDARRAYINDEX_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidArrayIndex : public virtual ::Smp::Exception { public:
  ~InvalidArrayIndex() noexcept override = default;
  virtual ::Smp::Int64 GetInvalidIndex() const noexcept = 0;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
};
}
#endif
