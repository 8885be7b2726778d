// P35: the text forms of enumerations, variants, UUIDs, dates and durations.
// SOURCES: src/Smp/StreamOperators.cpp src/Smp/AnySimple.cpp src/Smp/Uuid.cpp src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp
// FLAGS: @ministd/stream.h
// ENTRY p35_enums
// ENTRY p35_uuid
// ENTRY p35_uuid_back
// ENTRY p35_variant
// ENTRY p35_char
// ENTRY p35_string quick=3 thorough=5
// ENTRY p35_settings
// ENTRY p35_duration quick=2 thorough=4
// ENTRY p35_date quick=2 thorough=4
// ENTRY p35_parse quick=2 thorough=3
// ENTRY p35_fixed_string quick=3 thorough=4
#include "hlib.h"
#include <Smp/AccessKind.h>
#include <Smp/AnySimple.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/Services/TimeKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Uuid.h>
#include <Smp/ViewKind.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <Xsmp/String.h>
#include <memory>
#include <sstream>
#include <string>
using Any = ::Smp::AnySimple;
using PTK = ::Smp::PrimitiveTypeKind;
typedef std::ostringstream Out;
typedef std::istringstream In;

namespace {
template <typename T> std::string text(const T &v) { Out o; o << v; sym_check(o.good(), "the stream stays usable"); return o.str(); }
template <typename E> void literals(const char *type, const char *const *names, int n) {
  const int v = (int)sym_choose("value", (unsigned)n + 4) - 2;
  const std::string t = text(static_cast<E>(v));
  if (v >= 0 && v < n) sym_check(t == names[v], "a literal is written as its name");
  else sym_check(t == std::string("Unknown ") + type + "(" + std::to_string(v) + ")", "an unknown value is told as such");
}
// The settings a stream may have.
typedef std::ios_base B;
void settings(std::ios &s) {
  static const B::fmtflags bases[] = {B::dec, B::hex, B::oct, 0}, adjusts[] = {0, B::left, B::right, B::internal};
  s.flags((bases[sym_choose("base", 4)] | adjusts[sym_choose("adjust", 4)] | (sym_bool("uppercase") ? B::uppercase : 0) | (sym_bool("showbase") ? B::showbase : 0) | (sym_bool("boolalpha") ? B::boolalpha : 0)));
  s.fill(sym_bool("fill") ? '*' : ' ');
}
void hex(std::string &s, std::uint64_t v, unsigned digits) {
  for (unsigned i = digits; i--;) s.push_back("0123456789abcdef"[(v >> (4 * i)) & 15]);
}
}

ENTRY(p35_enums) {
  static const char *const access[] = {"ReadWrite", "ReadOnly", "WriteOnly"};
  static const char *const view[] = {"None", "Debug", "Expert", "All"};
  static const char *const simulator[] = {"Building", "Connecting", "Initialising", "Standby", "Executing", "Storing", "Restoring", "Reconnecting", "Exiting", "Aborting"};
  static const char *const time[] = {"SimulationTime", "MissionTime", "EpochTime", "ZuluTime"};
  static const char *const component[] = {"Created", "Publishing", "Configured", "Connected", "Disconnected"};
  static const char *const direction[] = {"In", "Out", "InOut", "Return"};
  static const char *const primitive[] = {"None", "Char8", "Bool", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Duration", "DateTime", "String8"};
  switch (sym_choose("type", 7)) {
  case 0: literals<::Smp::AccessKind>("::Smp::AccessKind", access, 3); break;
  case 1: literals<::Smp::ViewKind>("::Smp::ViewKind", view, 4); break;
  case 2: literals<::Smp::SimulatorStateKind>("::Smp::SimulatorStateKind", simulator, 10); break;
  case 3: literals<::Smp::Services::TimeKind>("::Smp::Services::TimeKind", time, 4); break;
  case 4: literals<::Smp::ComponentStateKind>("::Smp::ComponentStateKind", component, 5); break;
  case 5: literals<::Smp::Publication::ParameterDirectionKind>("::Smp::Publication::ParameterDirectionKind", direction, 4); break;
  default: literals<PTK>("::Smp::PrimitiveTypeKind", primitive, 16);
  }
}

namespace {
::Smp::Uuid anyUuid() {
  ::Smp::Uuid u;
  u.Data1 = (std::uint32_t)sym_u32("data1");
  for (auto &d : u.Data2) d = (std::uint16_t)sym_u16("data2");
  for (auto &d : u.Data3) d = (std::uint8_t)sym_u8("data3");
  return u;
}
std::string canonical(const ::Smp::Uuid &u) {
  std::string s;
  hex(s, u.Data1, 8);
  for (auto d : u.Data2) { s.push_back('-'); hex(s, d, 4); }
  s.push_back('-');
  for (auto d : u.Data3) hex(s, d, 2);
  return s;
}
}
// Every UUID, whatever the settings of the stream.
ENTRY(p35_uuid) {
  ::Smp::Uuid u;
  switch (sym_choose("part", 3)) {
  case 0: u.Data1 = (std::uint32_t)sym_u32("data1"); break;
  case 1: for (auto &d : u.Data2) d = (std::uint16_t)sym_u16("data2"); break;
  default: for (unsigned i = 0; i < 2; i++) u.Data3[3 * i] = (std::uint8_t)sym_u8("data3");
  }
  Out o;
  settings(o);
  const auto f = o.flags();
  const auto c = o.fill();
  o << u;
  sym_check(o.str() == canonical(u), "a UUID is written in its canonical form");
  sym_check(o.flags() == f && o.fill() == c && o.width() == 0, "the settings of the stream are kept");
}
// Written and read back.
ENTRY(p35_uuid_back) {
  ::Smp::Uuid u(0x1234567fu, {{0xabcd, 0, 0x90}}, {{0xef, 1, 0x20, 0, 0xff, 7}});
  const ::Smp::Uuid any = anyUuid();
  switch (sym_choose("part", 9)) {
  case 0: u.Data1 = any.Data1; break;
  case 1: u.Data2[0] = any.Data2[0]; break;
  case 2: u.Data2[1] = any.Data2[1]; break;
  case 3: u.Data2[2] = any.Data2[2]; break;
  case 4: u.Data3[0] = any.Data3[0]; u.Data3[1] = any.Data3[1]; break;
  case 5: u.Data3[2] = any.Data3[2]; u.Data3[3] = any.Data3[3]; break;
  case 6: u.Data3[4] = any.Data3[4]; u.Data3[5] = any.Data3[5]; break;
  case 7: u = ::Smp::Uuid(); break;
  default: u = ::Smp::Uuid(0xffffffffu, 0xffff, 0xffff, 0xffff, 0xffffffffffffULL);
  }
  const std::string t = text(u);
  sym_check(t.size() == 36, "36 characters");
  const ::Smp::Uuid v(t.c_str());
  bool same = v.Data1 == u.Data1;
  for (unsigned i = 0; i < 3; i++) same &= v.Data2[i] == u.Data2[i];
  for (unsigned i = 0; i < 6; i++) same &= v.Data3[i] == u.Data3[i];
  sym_check(same, "the text gives the same UUID back");
}

namespace {
template <typename T> std::string number(T v) { Out o; o << v; return o.str(); } // as the library writes that number
std::string calendar(const char *kind, const char *fmt, long v) { return ministd::calendar(kind, fmt, v); }
const long epoch = 946728000L * 1000000000L;
}
// Every kind of value.
ENTRY(p35_variant) {
  Any a;
  std::string want;
  switch (sym_choose("kind", 14)) {
  case 0: want = "None"; break;
  case 1: { const bool v = sym_bool("bool"); a.SetValue(PTK::PTK_Bool, v); want = v ? "true" : "false"; break; }
  case 2: { const auto v = (std::int8_t)sym_u8("v"); a.SetValue(PTK::PTK_Int8, v); want = number((int)v) + "i8"; break; }
  case 3: { const auto v = (std::uint8_t)sym_u8("v"); a.SetValue(PTK::PTK_UInt8, v); want = number((unsigned)v) + "u8"; break; }
  case 4: { const auto v = (std::int16_t)sym_u16("v"); a.SetValue(PTK::PTK_Int16, v); want = number(v) + "i16"; break; }
  case 5: { const auto v = (std::uint16_t)sym_u16("v"); a.SetValue(PTK::PTK_UInt16, v); want = number(v) + "u16"; break; }
  case 6: { const auto v = (std::int32_t)sym_u32("v"); a.SetValue(PTK::PTK_Int32, v); want = number(v) + "i32"; break; }
  case 7: { const auto v = (std::uint32_t)sym_u32("v"); a.SetValue(PTK::PTK_UInt32, v); want = number(v) + "u32"; break; }
  case 8: { const auto v = (std::int64_t)sym_u64("v"); a.SetValue(PTK::PTK_Int64, v); want = number(v) + "i64"; break; }
  case 9: { const auto v = (std::uint64_t)sym_u64("v"); a.SetValue(PTK::PTK_UInt64, v); want = number(v) + "u64"; break; }
  case 10: { const std::uint32_t b = (std::uint32_t)sym_u32("v"); float v; memcpy(&v, &b, 4); a.SetValue(PTK::PTK_Float32, v); want = number(v) + "f32"; break; }
  case 11: { const std::uint64_t b = sym_u64("v"); double v; memcpy(&v, &b, 8); a.SetValue(PTK::PTK_Float64, v); want = number(v) + "f64"; break; }
  case 12: { const auto v = (std::int64_t)sym_u64("v"); a.SetValue(PTK::PTK_Duration, v); want = "\"" + calendar("duration", "%T", v) + "\""; break; }
  default: { const auto v = (std::int64_t)sym_u64("v"); sym_assume(v < (1L << 62)); a.SetValue(PTK::PTK_DateTime, v); want = "\"" + calendar("date", "%F %T", v + epoch) + "\""; }
  }
  sym_check(text(a) == want, "a variant is written with its value and kind");
}
ENTRY(p35_char) {
  const auto v = (::Smp::Char8)sym_u8("char");
  Any a;
  a.SetValue(PTK::PTK_Char8, v);
  std::string want = "'";
  static const char special[] = "'?\\\a\b\f\n\r\t\v", letters[] = "'?\\abfnrtv";
  bool done = false;
  for (unsigned i = 0; i < 10 && !done; i++) if (v == special[i]) { want += '\\'; want += letters[i]; done = true; }
  if (!done && v >= ' ' && v <= '~') want += v;
  else if (!done) {
    want += '\\';
    const auto u = (unsigned char)v;
    if (u >= 64) want += (char)('0' + u / 64);
    if (u >= 8) want += (char)('0' + u / 8 % 8);
    want += (char)('0' + u % 8);
  }
  sym_check(text(a) == want + "'", "a character is written as in C");
}
ENTRY(p35_string) {
  SymStr s((unsigned)sym_bound(3), "text", true);
  Any a;
  a.SetValue(PTK::PTK_String8, (::Smp::String8)s.p);
  Out o;
  o << a << ";";
  sym_check(o.good(), "the stream stays usable");
  sym_check(o.str() == "\"" + std::string(s.p ? s.p : "") + "\";", "a text is written in quotes");
}
// Writing leaves the settings of the stream alone.
ENTRY(p35_settings) {
  Any a;
  std::string want;
  switch (sym_choose("kind", 6)) {
  case 0: { const bool v = sym_bool("bool"); a.SetValue(PTK::PTK_Bool, v); want = v ? "true" : "false"; break; }
  case 1: a.SetValue(PTK::PTK_Char8, 'a'); want = "'a'"; break;
  case 2: a.SetValue(PTK::PTK_Char8, '\n'); want = "'\\n'"; break;
  case 3: a.SetValue(PTK::PTK_Char8, (::Smp::Char8)200); break;
  case 4: a.SetValue(PTK::PTK_Int32, (::Smp::Int32)77); break;
  default: a.SetValue(PTK::PTK_String8, (::Smp::String8) "x"); want = "\"x\"";
  }
  Out o;
  settings(o);
  const auto f = o.flags();
  const auto c = o.fill();
  o << a;
  sym_check(want.empty() || o.str() == want, "the value is written");
  sym_check(o.flags() == f && o.fill() == c && o.width() == 0, "the settings of the stream are kept");
}

ENTRY(p35_duration) {
  const long v = (long)sym_u64("value");
  const ::Xsmp::Duration d(v);
  SymStr fmt((unsigned)sym_bound(2), "format");
  const std::string f = fmt.p;
  sym_check(d.format() == calendar("duration", "%T", v) && text(d) == calendar("duration", "%T", v), "by default hours, minutes and seconds");
  sym_check(d.format(fmt.p) == calendar("duration", fmt.p, v) && d.format(f) == calendar("duration", fmt.p, v), "the requested format");
  Out a, b, c;
  d.to_stream(a);
  d.to_stream(b, fmt.p) << "!";
  d.to_stream(c, f) << "!";
  sym_check(a.str() == calendar("duration", "%T", v), "by default hours, minutes and seconds");
  sym_check(b.str() == calendar("duration", fmt.p, v) + "!" && c.str() == b.str(), "the requested format");
}
ENTRY(p35_date) {
  const long v = (long)sym_u64("value"), u = (long)((unsigned long)v + (unsigned long)epoch);
  sym_assume(v < (1L << 62));
  const ::Xsmp::DateTime d(v);
  SymStr fmt((unsigned)sym_bound(2), "format");
  const std::string f = fmt.p;
  sym_check(d.format() == calendar("date", "%F %T", u) && text(d) == calendar("date", "%F %T", u), "by default date and time");
  sym_check(d.format(fmt.p) == calendar("date", fmt.p, u) && d.format(f) == calendar("date", fmt.p, u), "the requested format");
  Out a, b, c;
  d.to_stream(a);
  d.to_stream(b, fmt.p) << "!";
  d.to_stream(c, f) << "!";
  sym_check(a.str() == calendar("date", "%F %T", u), "by default date and time");
  sym_check(b.str() == calendar("date", fmt.p, u) + "!" && c.str() == b.str(), "the requested format");
}

namespace {
std::string seenText, seenFormat;
bool valid;
long value;
bool parser(const std::string &t, const std::string &f, long *v) {
  seenText = t;
  seenFormat = f;
  if (valid) *v = value;
  return valid;
}
}
// Read by the calendar library: the whole text, in the requested format; a text it refuses gives a determinate value.
ENTRY(p35_parse) {
  ministd::parsed = parser;
  SymStr t((unsigned)sym_bound(2), "text");
  valid = sym_bool("valid");
  value = (long)sym_u64("value");
  sym_assume(value > -(1L << 62));
  const bool stream = sym_bool("from a stream"), format = sym_bool("with a format");
  In in{std::string(t.p)};
  if (sym_bool("date")) {
    std::unique_ptr<::Xsmp::DateTime> d;
    if (stream) d.reset(format ? new ::Xsmp::DateTime(in, "%c") : new ::Xsmp::DateTime(in));
    else d.reset(format ? new ::Xsmp::DateTime(std::string_view(t.p), "%c") : new ::Xsmp::DateTime(std::string_view(t.p)));
    sym_check(seenFormat == (format ? "%c" : "%F %T"), "the requested format");
    const long got = static_cast<::Smp::DateTime>(*d);
    sym_check(valid ? got == value - epoch : got == got, "the value read");
    if (!valid) sym_check(got == -epoch, "a determinate value");
  } else {
    std::unique_ptr<::Xsmp::Duration> d;
    if (stream) d.reset(format ? new ::Xsmp::Duration(in, "%c") : new ::Xsmp::Duration(in));
    else d.reset(format ? new ::Xsmp::Duration(std::string_view(t.p), "%c") : new ::Xsmp::Duration(std::string_view(t.p)));
    sym_check(seenFormat == (format ? "%c" : "%T"), "the requested format");
    const long got = static_cast<::Smp::Duration>(*d);
    if (valid) sym_check(got == value, "the value read");
    else sym_check(got == 0, "a determinate value");
  }
  sym_check(seenText == t.p, "the whole text");
  sym_check(!stream || in.fail() == !valid, "a failure shows in the stream");
}

// Fixed-size texts: written as they are, read word by word, cut to their capacity.
ENTRY(p35_fixed_string) {
  SymStr t((unsigned)sym_bound(3), "text");
  ::Xsmp::String<2> s;
  s = t.p;
  const std::string kept = std::string(t.p).substr(0, 2);
  sym_check(text(s) == kept, "written as it is");
  auto space = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  std::string word;
  unsigned i = 0;
  while (i < t.n && space(t.p[i])) i++;
  while (i < t.n && !space(t.p[i])) word += t.p[i++];
  In in{std::string(t.p)};
  in >> s;
  sym_check(in.fail() == word.empty(), "there is a word or not");
  sym_check(std::string(s.c_str()) == word.substr(0, 2), "the word is read");
}
