// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IPERSIST_H
#define SMPSTUB_IPERSIST_H
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/IObject.h>
namespace Smp {
class IPersist : public virtual IObject { public:
  ~IPersist() noexcept override = default;
virtual void Restore(IStorageReader *reader) = 0;
virtual void Store(IStorageWriter *writer) = 0;
};
}
#endif
