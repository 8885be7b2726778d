// Stand-in used by harnesses that need a simulator's state vector in memory: the file system is not encoded.
#ifndef FAKE_STORAGEREADER_H
#define FAKE_STORAGEREADER_H
#include <Smp/IStorageReader.h>
#include <Xsmp/Exception.h>
#include <Xsmp/StorageWriter.h>
namespace Xsmp {
class StorageReader : public ::Smp::IStorageReader {
  const ::Smp::IObject *_o;
public:
  StorageReader(::Smp::String8 path, ::Smp::String8 filename, const ::Smp::IObject *o = nullptr) : _o(o) { fakedisk::pos = 0; fakedisk::opened++; fakedisk::name(fakedisk::path, path, 16); fakedisk::name(fakedisk::file, filename, 32); if (fakedisk::onOpen) fakedisk::onOpen(); }
  ~StorageReader() noexcept override { fakedisk::closed++; }
  void Restore(void *a, ::Smp::UInt64 n) override {
    if (n > fakedisk::disk.size() - fakedisk::pos) ::Xsmp::Exception::throwCannotRestore(_o, "end of file");
    for (::Smp::UInt64 i = 0; i < n; i++) ((unsigned char *)a)[i] = fakedisk::disk[fakedisk::pos++];
  }
  ::Smp::String8 GetStateVectorFileName() const override { return fakedisk::file; }
  ::Smp::String8 GetStateVectorFilePath() const override { return fakedisk::path; }
};
}
#endif
