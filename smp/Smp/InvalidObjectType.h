// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDOBJECTTYPE_H
#define SMPSTUB_INVALIDOBJECTTYPE_H
#include <Smp/Exception.h>
namespace Smp {
class IObject;
class InvalidObjectType : public virtual ::Smp::Exception { public:
  ~InvalidObjectType() noexcept override = default;
  virtual ::Smp::IObject * GetInvalidObject() const noexcept = 0;
};
}
#endif
