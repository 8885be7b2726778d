// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_TYPEALREADYREGISTERED_H
#define SMPSTUB_PUBLICATION_TYPEALREADYREGISTERED_H
#include <Smp/Exception.h>
namespace Smp {
namespace Publication { class IType; }
namespace Publication {
class TypeAlreadyRegistered : public virtual ::Smp::Exception { public:
  ~TypeAlreadyRegistered() noexcept override = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual const ::Smp::Publication::IType * GetType() const noexcept = 0;
};
}
}
#endif
