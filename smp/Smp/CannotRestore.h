// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_CANNOTRESTORE_H
#define SMPSTUB_CANNOTRESTORE_H
#include <Smp/Exception.h>
namespace Smp {
class CannotRestore : public virtual ::Smp::Exception { public:
  ~CannotRestore() noexcept override = default;

};
}
#endif
