// P06: integer comparison helpers.
// ENTRY p06_i8
// ENTRY p06_u8
// ENTRY p06_i16
// ENTRY p06_u16
// ENTRY p06_i32
// ENTRY p06_u32
// ENTRY p06_i64
// ENTRY p06_u64
#include "hlib.h"
#include <limits>
#include <Smp/utility.h>
namespace u = Smp::utility;

namespace {
template <class T> T any(const char *n) { return (T)sym_u64(n); }
template <class T, class U> void pair() {
  T t = any<T>("t");
  U v = any<U>("u");
  __int128 a = t, b = v;
  sym_check(u::cmp_equal(t, v) == (a == b), "cmp_equal");
  sym_check(u::cmp_not_equal(t, v) == (a != b), "cmp_not_equal");
  sym_check(u::cmp_less(t, v) == (a < b), "cmp_less");
  sym_check(u::cmp_greater(t, v) == (a > b), "cmp_greater");
  sym_check(u::cmp_less_equal(t, v) == (a <= b), "cmp_less_equal");
  sym_check(u::cmp_greater_equal(t, v) == (a >= b), "cmp_greater_equal");
  bool fits = a >= (__int128)std::numeric_limits<U>::min() && a <= (__int128)std::numeric_limits<U>::max();
  sym_check(u::in_range<U>(t) == fits, "in_range");
  sym_observe("less", u::cmp_less(t, v));
}
template <class T> void all() {
  switch (sym_choose("other type", 10)) {
  case 0: pair<T, std::int8_t>(); break;
  case 1: pair<T, std::uint8_t>(); break;
  case 2: pair<T, std::int16_t>(); break;
  case 3: pair<T, std::uint16_t>(); break;
  case 4: pair<T, std::int32_t>(); break;
  case 5: pair<T, std::uint32_t>(); break;
  case 6: pair<T, std::int64_t>(); break;
  case 7: pair<T, std::uint64_t>(); break;
  case 8: pair<T, long long>(); break;
  default: pair<T, unsigned long long>(); break;
  }
}
}
ENTRY(p06_i8) { all<std::int8_t>(); }
ENTRY(p06_u8) { all<std::uint8_t>(); }
ENTRY(p06_i16) { all<std::int16_t>(); }
ENTRY(p06_u16) { all<std::uint16_t>(); }
ENTRY(p06_i32) { all<std::int32_t>(); }
ENTRY(p06_u32) { all<std::uint32_t>(); }
ENTRY(p06_i64) { all<std::int64_t>(); }
ENTRY(p06_u64) { all<std::uint64_t>(); }
