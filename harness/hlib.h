// Shared helpers for harnesses.
#ifndef HLIB_H
#define HLIB_H
#include "sym.h"
#include <cstring>
// A C string of symbolic characters, length 0..N, terminated inside its buffer of N+1 bytes, in its own heap block of the exact size.
struct SymStr {
  char *p;
  unsigned n;
  SymStr(unsigned max, const char *name, bool allowNull = false, bool nonZero = true) {
    std::uint64_t k = sym_choose("length", max + 1 + (allowNull ? 1 : 0));
    if (k == max + 1) { p = nullptr; n = 0; return; }
    n = (unsigned)k;
    p = new char[n + 1];
    if (n) sym_bytes(p, n, name);
    p[n] = 0;
    if (nonZero) for (unsigned i = 0; i < n; i++) sym_assume(p[i] != 0);
  }
  SymStr(const SymStr &) = delete;
  ~SymStr() { delete[] p; }
};
static inline bool eqBytes(const char *a, const char *b, unsigned n) { return n == 0 || memcmp(a, b, n) == 0; }
#endif
