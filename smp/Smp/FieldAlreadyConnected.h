// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_FIELDALREADYCONNECTED_H
#define SMPSTUB_FIELDALREADYCONNECTED_H
#include <Smp/Exception.h>
namespace Smp {
class IDataflowField;
class IField;
class FieldAlreadyConnected : public virtual ::Smp::Exception { public:
  ~FieldAlreadyConnected() noexcept override = default;
  virtual const ::Smp::IDataflowField * GetSource() const noexcept = 0;
  virtual const ::Smp::IField * GetTarget() const noexcept = 0;
};
}
#endif
