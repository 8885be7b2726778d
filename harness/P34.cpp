// P34: the state vector's file: what is stored is what is read back, or the failure is reported.
// SOURCES: src/Xsmp/StorageReader.cpp src/Xsmp/StorageWriter.cpp
// FLAGS: @ministd/stream.h
// ENTRY p34_round quick=4 thorough=5
// ENTRY p34_short quick=3 thorough=4
// ENTRY p34_write_faults quick=4 thorough=5
// ENTRY p34_read_faults quick=4 thorough=5
// ENTRY p34_paths
// ENTRY p34_open_faults
#include "hlib.h"
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/IObject.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <memory>
#include <string>

namespace {
bool op[6];
bool happened;
bool fault(ministd::Op o) { if (op[o] && sym_bool("fault")) { happened = true; return true; } return false; }
void reset(unsigned buffer) {
  ministd::files.clear();
  for (bool &b : op) b = false;
  happened = false;
  ministd::fault = fault;
  ministd::bufferSize = buffer;
  ministd::partial = 0;
}
std::string content() { auto *f = ministd::find("d/f"); return f ? f->data : std::string(); }
}

// Stores and restores of the same sizes, in the same order.
ENTRY(p34_round) {
  reset((unsigned)sym_choose("buffer", 3) * 2 + 1);
  unsigned char in[4][3], out[4][3];
  unsigned size[4];
  const unsigned n = (unsigned)sym_bound(3);
  ministd::mkdir("d");
  if (sym_bool("an older file")) ministd::files.push_back({"d/f", "older and longer than the new one", false});
  {
    ::Xsmp::StorageWriter w("d", "f");
    for (unsigned i = 0; i < n; i++) {
      size[i] = (unsigned)sym_choose("size", 4);
      if (size[i]) sym_bytes(in[i], size[i], "data");
      w.Store(in[i], size[i]);
    }
  }
  sym_check(ministd::handles == 0, "the file is closed");
  const std::string file = content();
  unsigned total = 0;
  for (unsigned i = 0; i < n; i++)
    for (unsigned j = 0; j < size[i]; j++, total++) sym_check(total < file.size() && (unsigned char)file[total] == in[i][j], "the file has the bytes stored, in order");
  sym_check(file.size() == total, "and nothing else");
  {
    ::Xsmp::StorageReader r("d", "f");
    for (unsigned i = 0; i < n; i++) {
      memset(out[i], 0x55, 3);
      r.Restore(out[i], size[i]);
      sym_check(eqBytes((char *)in[i], (char *)out[i], size[i]), "the bytes stored are restored");
      for (unsigned j = size[i]; j < 3; j++) sym_check(out[i][j] == 0x55, "and nothing beyond is touched");
    }
  }
  sym_check(ministd::handles == 0 && content() == file, "reading changes nothing");
}

// A file which is too short is never taken as complete.
ENTRY(p34_short) {
  reset(4);
  ministd::mkdir("d");
  const unsigned have = (unsigned)sym_choose("length", 5);
  std::string data;
  for (unsigned i = 0; i < have; i++) data.push_back((char)sym_u8("byte"));
  ministd::files.push_back({"d/f", data, false});
  ::Xsmp::StorageReader r("d", "f");
  unsigned pos = 0;
  bool failed = false;
  for (unsigned k = 0, n = (unsigned)sym_bound(2); k < n; k++) {
    const unsigned want = (unsigned)sym_choose("size", 5);
    unsigned char out[4];
    try {
      r.Restore(out, want);
      sym_check(pos + want <= have, "bytes that are not there are not restored");
      sym_check(!failed, "nothing is restored after a failure");
      sym_check(eqBytes(data.data() + pos, (char *)out, want), "the next bytes");
      pos += want;
      sym_witness("restored");
    } catch (const ::Smp::CannotRestore &) {
      sym_check(failed || pos + want > have, "bytes that are there are restored");
      failed = true;
      sym_witness("too short");
    }
  }
}

// Failing writes: the caller is told, at the latest when the file is complete.
ENTRY(p34_write_faults) {
  reset((unsigned)sym_choose("buffer", 3) * 2 + 1);
  ministd::mkdir("d");
  op[ministd::Write] = true;
  ministd::partial = (unsigned)sym_choose("partial", 2);
  std::string want;
  bool told = false;
  {
    ::Xsmp::StorageWriter w("d", "f");
    for (unsigned i = 0, n = (unsigned)sym_bound(3); i < n && !told; i++) {
      unsigned char b[2];
      sym_bytes(b, 2, "data");
      unsigned size = (unsigned)sym_choose("size", 3);
      want.append((char *)b, size);
      try { w.Store(b, size); } catch (const ::Smp::CannotStore &) { told = true; }
      if (told) sym_check(happened, "only failures are reported");
    }
    if (!told) try { w.Flush(); } catch (const ::Smp::CannotStore &) { told = true; }
    op[ministd::Write] = false;
  }
  sym_check(told == happened, "a lost write is reported, and nothing else");
  if (!told) sym_check(content() == want, "what was stored without a failure is in the file");
  if (happened) sym_witness("fault");
  sym_check(ministd::handles == 0, "the file is closed");
}

// Failing reads.
ENTRY(p34_read_faults) {
  reset(4);
  ministd::mkdir("d");
  ministd::files.push_back({"d/f", "abcdefgh", false});
  op[ministd::Read] = true;
  bool told = false;
  ::Xsmp::StorageReader r("d", "f");
  unsigned pos = 0;
  for (unsigned i = 0, n = (unsigned)sym_bound(3); i < n; i++) {
    char b[2] = {0, 0};
    const unsigned size = (unsigned)sym_choose("size", 3);
    try {
      r.Restore(b, size);
      sym_check(!happened, "nothing is restored after a failing read");
      sym_check(eqBytes(b, "abcdefgh" + pos, size), "the next bytes");
      pos += size;
    } catch (const ::Smp::CannotRestore &) { told = true; sym_check(happened, "only failures are reported"); sym_witness("fault"); }
  }
  sym_check(told || !happened, "a failing read is reported");
}

// Names and directories, present or not.
ENTRY(p34_paths) {
  reset(4);
  static const char *const paths[] = {nullptr, "", "d", "d/e", "a", "/x"};
  static const char *const names[] = {nullptr, "", "f", "g"};
  const char *path = paths[sym_choose("path", 6)], *name = names[sym_choose("name", 4)];
  std::string p = path ? path : "", n = name ? name : "", full = p.empty() ? n : p + "/" + n;
  ministd::files.push_back({"a", "a file", false});
  if (sym_bool("d exists")) ministd::mkdir("d");
  char v = (char)sym_u8("value"), got = 0;
  char *pathCopy = path ? strdup(path) : nullptr, *nameCopy = name ? strdup(name) : nullptr;
  auto forget = [&] { if (pathCopy) memset(pathCopy, '?', strlen(pathCopy)); if (nameCopy) memset(nameCopy, '?', strlen(nameCopy)); };
  auto again = [&] { if (pathCopy) strcpy(pathCopy, path); if (nameCopy) strcpy(nameCopy, name); };
  const bool possible = !n.empty() && p != "a";
  // a file which is not there cannot be read
  try {
    ::Xsmp::StorageReader r(pathCopy, nameCopy);
    got = 1;
  } catch (const ::Smp::CannotRestore &) {}
  if (!n.empty()) sym_check(!got, "a missing file is reported");
  try {
    ::Xsmp::StorageWriter w(pathCopy, nameCopy);
    forget();
    sym_check(p == w.GetStateVectorFilePath() && n == w.GetStateVectorFileName(), "the writer gives its path and file name");
    w.Store(&v, 1);
    w.Flush();
    sym_check(possible, "a file needs a name and a directory");
  } catch (const ::Smp::CannotStore &) {
    sym_check(!possible, "any name in any directory can be written");
    sym_witness("not possible");
    free(pathCopy); free(nameCopy);
    return;
  }
  auto *f = ministd::find(full);
  sym_check(f && !f->dir && f->data.size() == 1 && f->data[0] == v, "the file named is written, in the directory named");
  again();
  ::Xsmp::StorageReader r(pathCopy, nameCopy);
  forget();
  sym_check(p == r.GetStateVectorFilePath() && n == r.GetStateVectorFileName(), "the reader gives its path and file name");
  r.Restore(&got, 1);
  sym_check(got == v, "and read");
  free(pathCopy); free(nameCopy);
}

// Files and directories that cannot be opened or made.
ENTRY(p34_open_faults) {
  reset(4);
  const bool dir = sym_bool("directory exists");
  if (dir) ministd::mkdir("d");
  op[ministd::OpenWrite] = op[ministd::OpenRead] = op[ministd::MakeDir] = true;
  bool ok = true;
  std::unique_ptr<::Xsmp::StorageWriter> w;
  try { w = std::make_unique<::Xsmp::StorageWriter>("d", "f"); } catch (const ::Smp::CannotStore &) { ok = false; }
  sym_check(ok == !happened, "a file that cannot be opened is reported, and no other");
  char c = 'c';
  if (ok) w->Store(&c, 1);
  w.reset();
  sym_check(ministd::handles == 0, "closed");
  if (!ok) return;
  happened = false;
  std::unique_ptr<::Xsmp::StorageReader> r;
  try { r = std::make_unique<::Xsmp::StorageReader>("d", "f"); } catch (const ::Smp::CannotRestore &) { ok = false; }
  sym_check(ok == !happened, "a file that cannot be opened is reported, and no other");
  if (happened) sym_witness("cannot read");
}
