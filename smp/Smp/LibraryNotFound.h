// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_LIBRARYNOTFOUND_H
#define SMPSTUB_LIBRARYNOTFOUND_H
#include <Smp/Exception.h>
namespace Smp {
class LibraryNotFound : public virtual ::Smp::Exception { public:
  ~LibraryNotFound() noexcept override = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
}
#endif
