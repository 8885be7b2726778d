// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_INVALIDLIBRARY_H
#define SMPSTUB_INVALIDLIBRARY_H
#include <Smp/Exception.h>
namespace Smp {
class InvalidLibrary : public virtual ::Smp::Exception { public:
  ~InvalidLibrary() noexcept override = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
}
#endif
