// P12: UUID text form, comparison and hash.
// SOURCES: src/Smp/Uuid.cpp src/Xsmp/Exception.cpp src/Xsmp/cstring.cpp
// UBSAN: yes
// ENTRY p12_parse weight=4
// ENTRY p12_reject
// ENTRY p12_null
// ENTRY p12_order
// ENTRY p12_transitive
#include "hlib.h"
#include <Smp/Exception.h>
#include <Smp/Uuid.h>
using namespace Smp;

namespace {
const char FORM[] = "xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx";
bool hexa(unsigned char c) { return (bool)((c >= '0') & (c <= '9')) | (bool)((c >= 'a') & (c <= 'f')) | (bool)((c >= 'A') & (c <= 'F')); }
unsigned digit(unsigned char c) { return (c & 15u) + 9u * (c >> 6); } // of a hexadecimal digit, without branches
Uuid any(const char *n) {
  Uuid u;
  u.Data1 = sym_u32(n);
  for (auto &d : u.Data2) d = sym_u16(n);
  for (auto &d : u.Data3) d = sym_u8(n);
  return u;
}
unsigned __int128 number(const Uuid &u) {
  unsigned __int128 v = u.Data1;
  for (auto d : u.Data2) v = v << 16 | d;
  for (auto d : u.Data3) v = v << 8 | d;
  return v;
}
bool rejected(const char *text) {
  try { Uuid u(text); } catch (const Exception &) { return true; }
  return false;
}
}

// Every text of the documented form gives the number its digits spell.
ENTRY(p12_parse) {
  char *t = new char[37];
  sym_bytes(t, 36, "text");
  t[36] = 0;
  for (unsigned i = 0; i < 36; i++) if (FORM[i] == '-') t[i] = '-'; else sym_assume(hexa((unsigned char)t[i]));
  unsigned __int128 want = 0;
  for (unsigned i = 0; i < 36; i++) if (FORM[i] != '-') want = want << 4 | digit((unsigned char)t[i]);
  Uuid u(t);
  unsigned __int128 got = number(u);
  sym_check((UInt64)got == (UInt64)want, "the lower half of the UUID is what the digits spell");
  sym_check((UInt64)(got >> 64) == (UInt64)(want >> 64), "the upper half of the UUID is what the digits spell");
  Uuid v;
  v = Uuid(t);
  sym_check(u == v && !(u != v) && !(u < v), "parsing twice gives equal UUIDs");
  delete[] t;
}
// Every other text is rejected, without reading beyond its terminator.
ENTRY(p12_reject) {
  unsigned n = (unsigned)sym_choose("length", 40);
  char *t = new char[n + 1];
  if (n) sym_bytes(t, n, "text");
  t[n] = 0;
  bool ok = n == 36;
  for (unsigned i = 0; i < n && i < 36; i++) ok &= FORM[i] == '-' ? t[i] == '-' : hexa((unsigned char)t[i]);
  bool nul = false;
  for (unsigned i = 0; i < n; i++) nul |= t[i] == 0;
  if (n == 36) {
    sym_assume(!ok);
    sym_witness("right length, wrong characters");
  } else if (n > 36) // a terminator inside the text ends it
    sym_assume(t[36] != 0);
  sym_check(rejected(t), "a text that is not of the documented form is rejected");
  delete[] t;
}
ENTRY(p12_null) { sym_check(rejected(nullptr), "no text is rejected"); Uuid n; sym_check(number(n) == 0, "a new UUID is nil"); }
// Comparison orders UUIDs as the numbers their digits spell.
ENTRY(p12_order) {
  Uuid a = any("a"), b = any("b");
  unsigned __int128 x = number(a), y = number(b);
  sym_check((a == b) == (x == y), "equality");
  sym_check((a != b) == (x != y), "inequality");
  sym_check(!(a < a), "no UUID is below itself");
  sym_check(((a < b) + (b < a) + (a == b)) == 1, "exactly one of below, above and equal");
  if (x == y) sym_check(std::hash<Uuid>()(a) == std::hash<Uuid>()(b), "equal UUIDs have equal hashes");
  else sym_witness("different UUIDs");
}
ENTRY(p12_transitive) {
  Uuid a = any("a"), b = any("b"), c = any("c");
  bool ab = a < b, bc = b < c, ac = a < c;
  sym_check(!(ab & bc) | ac, "the order is transitive");
}
