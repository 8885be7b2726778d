// P31: arithmetic of durations and dates.
// SOURCES: src/Xsmp/DateTime.cpp
// UBSAN: yes
// ENTRY p31_duration_basic
// ENTRY p31_duration_assign
// ENTRY p31_duration_muldiv
// ENTRY p31_duration_bits
// ENTRY p31_duration_compare
// ENTRY p31_duration_chrono
// ENTRY p31_units
// ENTRY p31_literals
// ENTRY p31_date_basic
// ENTRY p31_date_chrono
// ENTRY p31_date_epoch
// ENTRY p31_date_now
#include "hlib.h"
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <limits>
using Smp::Int64;
using XD = Xsmp::Duration;
using XT = Xsmp::DateTime;
namespace ch = std::chrono;

namespace {
const Int64 LO = std::numeric_limits<Int64>::min(), HI = std::numeric_limits<Int64>::max();
const Int64 OFFSET = 946728000LL * 1000000000LL; // 2000-01-01 12:00 in seconds since 1970-01-01
Int64 any(const char *n) { return (Int64)sym_u64(n); }
bool addFits(Int64 x, Int64 y) { Int64 r; return !__builtin_add_overflow(x, y, &r); }
bool subFits(Int64 x, Int64 y) { Int64 r; return !__builtin_sub_overflow(x, y, &r); }
Int64 v(const XD &d) { return static_cast<Int64>(d); }
Int64 v(const XT &d) { return static_cast<Int64>(d); }
}
ENTRY(p31_duration_basic) {
  Int64 x = any("x");
  XD d(x);
  sym_check(v(XD()) == 0, "a new duration is zero");
  sym_check(v(d) == x && v(+d) == x, "a duration holds the nanoseconds given");
  switch (sym_choose("op", 7)) {
  case 0: sym_assume(x != LO); sym_check(v(-d) == -x, "negation"); break;
  case 1: sym_assume(x != HI); sym_check(v(++d) == x + 1 && v(d) == x + 1, "increment"); break;
  case 2: sym_assume(x != HI); sym_check(v(d++) == x && v(d) == x + 1, "post-increment gives the previous value"); break;
  case 3: sym_assume(x != LO); sym_check(v(--d) == x - 1 && v(d) == x - 1, "decrement"); break;
  case 4: sym_assume(x != LO); sym_check(v(d--) == x && v(d) == x - 1, "post-decrement gives the previous value"); break;
  case 5: { XD e; e = d; sym_check(v(e) == x, "copy"); XD f(e); sym_check(v(f) == x, "copy"); break; }
  default: { XD e; Int64 y = any("y"); e = y; sym_check(v(e) == y, "assignment of nanoseconds"); e = (int)y; sym_check(v(e) == (int)y, "assignment of a smaller integer"); break; }
  }
}
ENTRY(p31_duration_assign) {
  Int64 x = any("x"), y = any("y");
  XD d(x);
  switch (sym_choose("op", 4)) {
  case 0: sym_assume(addFits(x, y)); d += y; sym_check(v(d) == x + y, "sum"); break;
  case 1: sym_assume(subFits(x, y)); d -= y; sym_check(v(d) == x - y, "difference"); break;
  case 2: sym_assume(addFits(x, y)); d += XD(y); sym_check(v(d) == x + y, "sum of durations"); break;
  default: sym_assume(subFits(x, y)); d -= XD(y); sym_check(v(d) == x - y, "difference of durations"); break;
  }
}
ENTRY(p31_duration_muldiv) {
  // every small pair, and every duration with some factors
  static const Int64 factor[] = {-1000000007, -2, -1, 0, 1, 2, 3, 10, 1000, 86400, 1000000000, 1LL << 40};
  unsigned f = (unsigned)sym_choose("factor", 13);
  Int64 x, k;
  if (f == 12) { x = (std::int16_t)sym_u16("x"); k = (std::int8_t)sym_u8("k"); }
  else { k = factor[f]; x = k ? sym_srange("x", LO / (k < 0 ? -k : k) + 1, HI / (k < 0 ? -k : k)) : any("x"); }
  XD d(x);
  switch (sym_choose("op", 3)) {
  case 0: d *= k; sym_check(v(d) == x * k, "product"); break;
  case 1: sym_assume(k != 0); d /= k; sym_check(v(d) == x / k, "quotient"); break;
  default: sym_assume(k != 0); d %= k; sym_check(v(d) == x % k, "remainder"); break;
  }
}
ENTRY(p31_duration_bits) {
  Int64 x = any("x"), y = any("y");
  XD d(x);
  switch (sym_choose("op", 5)) {
  case 0: d &= y; sym_check(v(d) == (x & y), "and"); break;
  case 1: d |= y; sym_check(v(d) == (x | y), "or"); break;
  case 2: d ^= y; sym_check(v(d) == (x ^ y), "exclusive or"); break;
  case 3: { int n = (int)sym_range("n", 0, 62); sym_assume(x >= 0 && x <= (HI >> n)); d <<= n; sym_check(v(d) == (x << n), "left shift"); break; }
  default: { int n = (int)sym_range("n", 0, 63); d >>= n; sym_check(v(d) == (x >> n), "right shift"); break; }
  }
}
#define CMP(a, b, x, y, w) \
  sym_check((a == b) == (x == y), "== " w); sym_check((a != b) == (x != y), "!= " w); sym_check((a < b) == (x < y), "< " w); \
  sym_check((a > b) == (x > y), "> " w); sym_check((a <= b) == (x <= y), "<= " w); sym_check((a >= b) == (x >= y), ">= " w)
ENTRY(p31_duration_compare) {
  Int64 x = any("x"), y = any("y");
  XD a(x), b(y);
  switch (sym_choose("with", 4)) {
  case 0: CMP(a, b, x, y, "of durations"); break;
  case 1: CMP(a, y, x, y, "with nanoseconds"); break;
  case 2: { ch::nanoseconds n(y); CMP(a, n, x, y, "with chrono nanoseconds"); CMP(n, a, y, x, "of chrono nanoseconds"); break; }
  default: {
    Int64 m = sym_srange("ms", -(HI / 1000000), HI / 1000000);
    ch::milliseconds n(m);
    Int64 z = m * 1000000;
    CMP(a, n, x, z, "with chrono milliseconds");
    CMP(n, a, z, x, "of chrono milliseconds");
  }
  }
}
ENTRY(p31_duration_chrono) {
  Int64 x = any("x");
  switch (sym_choose("unit", 4)) {
  case 0: {
    Int64 s = sym_srange("s", -(HI / 1000000000), HI / 1000000000);
    sym_check(v(XD(ch::seconds(s))) == s * 1000000000, "construction from seconds");
    XD d; d = ch::seconds(s);
    sym_check(v(d) == s * 1000000000, "assignment of seconds");
    break;
  }
  case 1: {
    Int64 u = sym_srange("us", -(HI / 1000), HI / 1000);
    XD d(x);
    if (sym_choose("sign", 2)) { sym_assume(addFits(x, u * 1000)); d += ch::microseconds(u); sym_check(v(d) == x + u * 1000, "sum with microseconds"); }
    else { sym_assume(subFits(x, u * 1000)); d -= ch::microseconds(u); sym_check(v(d) == x - u * 1000, "difference with microseconds"); }
    break;
  }
  case 2: {
    XD d(x);
    sym_check(static_cast<ch::nanoseconds>(d).count() == x, "conversion to nanoseconds");
    sym_check(v(XD(static_cast<ch::nanoseconds>(d))) == x, "conversion to nanoseconds and back");
    break;
  }
  default: {
    XD d(x);
    Int64 s = static_cast<ch::seconds>(d).count();
    sym_check(s == x / 1000000000, "conversion to seconds rounds towards zero");
  }
  }
}
ENTRY(p31_units) {
  static const Int64 unit[] = {1, 1000, 1000000, 1000000000, 60000000000LL, 3600000000000LL, 86400000000000LL, 604800000000000LL};
  unsigned u = (unsigned)sym_choose("unit", 8);
  Int64 n = sym_srange("count", -(HI / unit[u]), HI / unit[u]), g = 0;
  switch (u) {
  case 0: g = v(XD::nanoseconds(n)); break;
  case 1: g = v(XD::microseconds(n)); break;
  case 2: g = v(XD::milliseconds(n)); break;
  case 3: g = v(XD::seconds(n)); break;
  case 4: g = v(XD::minutes(n)); break;
  case 5: g = v(XD::hours(n)); break;
  case 6: g = v(XD::days(n)); break;
  default: g = v(XD::weeks(n)); break;
  }
  sym_check(g == n * unit[u], "a duration in some unit is that number of nanoseconds");
}
ENTRY(p31_literals) {
  unsigned u = (unsigned)sym_choose("unit", 8);
  static const Int64 unit[] = {1, 1000, 1000000, 1000000000, 60000000000LL, 3600000000000LL, 86400000000000LL, 604800000000000LL};
  unsigned long long n = sym_range("count", 0, (unsigned long long)(HI / unit[u]));
  Int64 g = 0;
  using namespace Xsmp::literals;
  switch (u) {
  case 0: g = v(operator""_ns(n)); break;
  case 1: g = v(operator""_us(n)); break;
  case 2: g = v(operator""_ms(n)); break;
  case 3: g = v(operator""_s(n)); break;
  case 4: g = v(operator""_mn(n)); break;
  case 5: g = v(operator""_h(n)); break;
  case 6: g = v(operator""_d(n)); break;
  default: g = v(operator""_w(n)); break;
  }
  sym_check(g == (Int64)n * unit[u], "a literal in some unit is that number of nanoseconds");
}
ENTRY(p31_date_basic) {
  Int64 x = any("x"), y = any("y");
  XT t(x);
  sym_check(v(XT()) == 0, "a new date is the reference date");
  sym_check(v(t) == x, "a date holds the nanoseconds given");
  switch (sym_choose("op", 12)) {
  case 0: sym_assume(x != HI); sym_check(v(++t) == x + 1 && v(t) == x + 1, "increment"); break;
  case 1: sym_assume(x != HI); sym_check(v(t++) == x && v(t) == x + 1, "post-increment gives the previous value"); break;
  case 2: sym_assume(x != LO); sym_check(v(--t) == x - 1 && v(t) == x - 1, "decrement"); break;
  case 3: sym_assume(x != LO); sym_check(v(t--) == x && v(t) == x - 1, "post-decrement gives the previous value"); break;
  case 4: sym_assume(addFits(x, y)); t += y; sym_check(v(t) == x + y, "sum"); break;
  case 5: sym_assume(subFits(x, y)); t -= y; sym_check(v(t) == x - y, "difference"); break;
  case 6: sym_assume(addFits(x, y)); sym_check(v(t + y) == x + y && v(y + t) == x + y && v(t) == x, "sum of a date and a duration"); break;
  case 7: sym_assume(subFits(x, y)); sym_check(v(t - y) == x - y && v(t) == x, "difference of a date and a duration"); break;
  case 8: sym_assume(addFits(x, y)); sym_check(v(t + ch::nanoseconds(y)) == x + y && v(ch::nanoseconds(y) + t) == x + y, "sum of a date and a chrono duration"); break;
  case 9: sym_assume(subFits(x, y)); sym_check(v(t - ch::nanoseconds(y)) == x - y, "difference of a date and a chrono duration"); break;
  case 10: { XT w(y); CMP(v(t), v(w), x, y, "of dates"); XT c(w); sym_check(v(c) == y, "copy"); c = t; sym_check(v(c) == x, "copy"); c = y; sym_check(v(c) == y, "assignment of nanoseconds"); break; }
  default: {
    Int64 u = sym_srange("us", -(HI / 1000), HI / 1000);
    if (sym_choose("sign", 2)) { sym_assume(addFits(x, u * 1000)); t += ch::microseconds(u); sym_check(v(t) == x + u * 1000, "sum with microseconds"); }
    else { sym_assume(subFits(x, u * 1000)); t -= ch::microseconds(u); sym_check(v(t) == x - u * 1000, "difference with microseconds"); }
  }
  }
}
ENTRY(p31_date_chrono) {
  Int64 s = sym_srange("s", -(HI / 1000000000), HI / 1000000000);
  sym_check(v(XT(ch::seconds(s))) == s * 1000000000, "construction from a chrono duration counts from the reference date");
  XT t;
  t = ch::seconds(s);
  sym_check(v(t) == s * 1000000000, "assignment of a chrono duration counts from the reference date");
}
ENTRY(p31_date_epoch) {
  Int64 x = any("x");
  using TP = XT::time_point;
  switch (sym_choose("direction", 4)) {
  case 0: { // date to system time and back
    sym_assume(addFits(x, OFFSET));
    TP p = static_cast<TP>(XT(x));
    sym_check(p.time_since_epoch().count() == x + OFFSET, "the system time is the date plus the fixed offset");
    sym_check(v(XT(p)) == x, "conversion to system time and back is the identity");
    break;
  }
  case 1: { // system time to date and back
    sym_assume(subFits(x, OFFSET));
    TP p{ch::nanoseconds(x)};
    XT t(p), u;
    u = p;
    sym_check(v(t) == x - OFFSET && v(u) == v(t), "the date is the system time minus the fixed offset");
    sym_check(static_cast<TP>(t) == p, "conversion from system time and back is the identity");
    break;
  }
  case 2: { // coarser time points
    Int64 s = sym_srange("s", -(HI / 1000000000) + 946728001, HI / 1000000000 - 1);
    ch::time_point<ch::system_clock, ch::seconds> p{ch::seconds(s)};
    sym_check(v(XT(p)) == s * 1000000000 - OFFSET, "a time point in seconds");
    break;
  }
  default: {
    sym_assume(addFits(x, OFFSET));
    using SP = ch::time_point<ch::system_clock, ch::seconds>;
    sym_check(static_cast<SP>(XT(x)).time_since_epoch().count() == (x + OFFSET) / 1000000000, "conversion to seconds of system time");
  }
  }
}
// now() is the system clock, in the date's reference.
ENTRY(p31_date_now) {
  auto a = ch::system_clock::now();
  XT t = XT::now();
  auto b = ch::system_clock::now();
  Int64 lo = ch::duration_cast<ch::nanoseconds>(a.time_since_epoch()).count() - OFFSET, hi = ch::duration_cast<ch::nanoseconds>(b.time_since_epoch()).count() - OFFSET;
  sym_check(v(t) >= lo && v(t) <= hi, "the current date is the system clock's");
}
