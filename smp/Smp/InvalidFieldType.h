// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDFIELDTYPE_H
#define SMPSTUB_INVALIDFIELDTYPE_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidFieldType : public virtual ::Smp::Exception { public:
  ~InvalidFieldType() noexcept override = default;

};
}
#endif
