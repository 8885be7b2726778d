// Stand-in used by harnesses that need a simulator's state vector in memory: the file system is not encoded.
#ifndef FAKE_STORAGEWRITER_H
#define FAKE_STORAGEWRITER_H
#include <Smp/IStorageWriter.h>
#include <Smp/IObject.h>
#include <vector>
namespace fakedisk {
inline std::vector<unsigned char> disk;
inline std::size_t pos;
inline int opened, closed;
inline long flushed; // bytes known to be in the file
inline char path[16], file[32];
inline void name(char *d, const char *s, unsigned n) { unsigned i = 0; for (; s && s[i] && i + 1 < n; i++) d[i] = s[i]; d[i] = 0; }
inline void (*onOpen)();
}
namespace Xsmp {
class StorageWriter : public ::Smp::IStorageWriter {
public:
  StorageWriter(::Smp::String8 path, ::Smp::String8 filename, const ::Smp::IObject * = nullptr) { fakedisk::disk.clear(); fakedisk::flushed = 0; fakedisk::opened++; fakedisk::name(fakedisk::path, path, 16); fakedisk::name(fakedisk::file, filename, 32); if (fakedisk::onOpen) fakedisk::onOpen(); }
  ~StorageWriter() noexcept override { fakedisk::closed++; }
  void Store(void *a, ::Smp::UInt64 n) override { for (::Smp::UInt64 i = 0; i < n; i++) fakedisk::disk.push_back(((unsigned char *)a)[i]); }
  void Flush() { fakedisk::flushed = (long)fakedisk::disk.size(); }
  ::Smp::String8 GetStateVectorFileName() const override { return fakedisk::file; }
  ::Smp::String8 GetStateVectorFilePath() const override { return fakedisk::path; }
};
}
#endif
