// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_PUBLICATION_TYPENOTREGISTERED_H
#define SMPSTUB_PUBLICATION_TYPENOTREGISTERED_H
#include <Smp/Exception.h>
#include <Smp/Uuid.h>
namespace Smp {
namespace Publication {
class TypeNotRegistered : public virtual ::Smp::Exception { public:
  ~TypeNotRegistered() noexcept override = default;
  virtual ::Smp::Uuid GetUuid() const noexcept = 0;
};
}
}
#endif
