// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDTARGET_H
#define SMPSTUB_INVALIDTARGET_H
#include <Smp/Exception.h>
namespace Smp {
class IDataflowField;
class IField;
class InvalidTarget : public virtual ::Smp::Exception { public:
  ~InvalidTarget() noexcept override = default;
  virtual const ::Smp::IDataflowField * GetSource() const noexcept = 0;
  virtual const ::Smp::IField * GetTarget() const noexcept = 0;
};
}
#endif
