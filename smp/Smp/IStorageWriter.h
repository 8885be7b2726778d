// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ISTORAGEWRITER_H
#define SMPSTUB_ISTORAGEWRITER_H
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IStorageWriter { public:
  virtual ~IStorageWriter() noexcept = default;
virtual void Store(void *address, UInt64 size) = 0;
virtual String8 GetStateVectorFileName() const = 0;
virtual String8 GetStateVectorFilePath() const = 0;
};
}
#endif
