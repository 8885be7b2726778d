// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_CANNOTSTORE_H
#define SMPSTUB_CANNOTSTORE_H
#include <Smp/Exception.h>
namespace Smp {
class CannotStore : public virtual ::Smp::Exception { public:
  ~CannotStore() noexcept override = default;

};
}
#endif
