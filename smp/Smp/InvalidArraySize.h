// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDARRAYSIZE_H
#define SMPSTUB_INVALIDARRAYSIZE_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidArraySize : public virtual ::Smp::Exception { public:
  ~InvalidArraySize() noexcept override = default;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
  virtual ::Smp::Int64 GetInvalidSize() const noexcept = 0;
};
}
#endif
