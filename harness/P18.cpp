// P18: events between components.
// SOURCES: src/Xsmp/EventSource.cpp src/Xsmp/EventSink.cpp src/Xsmp/EventProvider.cpp src/Xsmp/EventConsumer.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// ENTRY p18_history quick=4 thorough=5 weight=3
// ENTRY p18_void quick=3 thorough=4
// ENTRY p18_kinds
// ENTRY p18_text
// ENTRY p18_reentrant quick=1 thorough=2 weight=2
// ENTRY p18_lookup
#include "hlib.h"
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidEventSink.h>
#include <Xsmp/Component.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/String.h>
#include <functional>
#include <string.h>
#include <vector>
using namespace Xsmp;
using PTK = Smp::PrimitiveTypeKind;

namespace {
struct Prov : Component, virtual EventProvider, virtual EventConsumer { using Component::Component; };
struct Cons : Component, virtual EventConsumer { using Component::Component; };
enum Res { OK, DUP, NOTSUB, WRONG };
template <class F> Res attempt(F f) {
  try { f(); return OK; }
  catch (const Smp::EventSinkAlreadySubscribed &) { return DUP; }
  catch (const Smp::EventSinkNotSubscribed &) { return NOTSUB; }
  catch (const Smp::InvalidEventSink &) { return WRONG; }
}
template <class T> struct Rec { int n = 0; Smp::IObject *from = nullptr; T v{}; };
struct Obj : Component { using Component::Component; };
}
// Every history of subscriptions, unsubscriptions, removals and emissions.
ENTRY(p18_history) {
  Prov p("p");
  Cons c("c"), d("d");
  Obj third("t");
  Rec<std::int32_t> r[4];
  auto cb = [&](int i) { return [&r, i](Smp::IObject *s, std::int32_t v) { r[i].n++; r[i].from = s; r[i].v = v; }; };
  EventSource<std::int32_t> a("a", "", &p, PTK::PTK_Int32), b("b", "", &p, PTK::PTK_Int32);
  EventSink<std::int32_t> s0("s0", "", &c, cb(0), PTK::PTK_Int32), s1("s1", "", &d, cb(1), PTK::PTK_Int32), s2("s2", "", &d, cb(2), PTK::PTK_Int32);
  EventSink<std::int32_t> odd("odd", "", &d, cb(3), PTK::PTK_Int64);
  EventSource<std::int32_t> *src[2] = {&a, &b};
  Smp::IEventSink *snk[4] = {&s0, &s1, &s2, &odd};
  bool in[2][4] = {};
  const int n = (int)sym_bound(4);
  for (int step = 0; step < n; step++) {
    unsigned k = (unsigned)sym_choose("operation", 4), w = (unsigned)sym_choose("source", step ? 2 : 1);
    if (k == 0) {
      unsigned i = (unsigned)sym_choose("sink", 4);
      sym_check(attempt([&] { src[w]->Subscribe(snk[i]); }) == (i == 3 ? WRONG : in[w][i] ? DUP : OK), "a sink is subscribed once, and only with the argument type of the source");
      if (i < 3) in[w][i] = true;
    } else if (k == 1) {
      unsigned i = (unsigned)sym_choose("sink", 4);
      sym_check(attempt([&] { src[w]->Unsubscribe(snk[i]); }) == (in[w][i] ? OK : NOTSUB), "only a subscribed sink is unsubscribed");
      in[w][i] = false;
    } else if (k == 2) {
      // The component of some sinks goes away.
      if (w) { p.RemoveLinks(&d); for (auto &x : in) x[1] = x[2] = false; }
      else { p.RemoveLinks(&c); for (auto &x : in) x[0] = false; }
    } else {
      std::int32_t v = (std::int32_t)sym_u32("argument");
      for (auto &x : r) x = {};
      Smp::IObject *from = &p;
      if (step & 1) { from = &third; if (w) src[w]->Emit(from, v); else (*src[w])(from, v); }
      else if (w) src[w]->Emit(v); else (*src[w])(v);
      sym_witness("an emission");
      for (int i = 0; i < 4; i++) {
        sym_check(r[i].n == (in[w][i] ? 1 : 0), "each subscribed sink is notified exactly once, and no other");
        if (in[w][i]) sym_check(r[i].from == from && r[i].v == v, "with the sender and the argument of the emission");
      }
    }
  }
  std::int32_t v = (std::int32_t)sym_u32("argument");
  for (int w = 0; w < 2; w++) {
    for (auto &x : r) x = {};
    src[w]->Emit(v);
    for (int i = 0; i < 4; i++) sym_check(r[i].n == (in[w][i] ? 1 : 0) && (!in[w][i] || (r[i].from == &p && r[i].v == v)), "at the end the subscribed sinks are notified exactly once, and no other");
  }
}
// Events without an argument.
ENTRY(p18_void) {
  Prov p("p");
  Obj third("t");
  Rec<int> r[3];
  auto cb = [&](int i) { return [&r, i](Smp::IObject *s) { r[i].n++; r[i].from = s; }; };
  EventSource<> a("a", "", &p), b("b", "", static_cast<Smp::IObject *>(&third));
  EventSink<> s0("s0", "", &p, cb(0)), s1("s1", "", static_cast<Smp::IObject *>(&p), cb(1));
  EventSink<bool> odd("odd", "", static_cast<Smp::IObject *>(&p), [&r](Smp::IObject *, bool) { r[2].n++; }, PTK::PTK_Bool);
  EventSource<> *src[2] = {&a, &b};
  Smp::IEventSink *snk[3] = {&s0, &s1, &odd};
  bool in[2][3] = {};
  sym_check(a.GetEventArgType() == PTK::PTK_None && s0.GetEventArgType() == PTK::PTK_None, "no argument");
  const int n = (int)sym_bound(3);
  for (int step = 0; step < n; step++) {
    unsigned k = (unsigned)sym_choose("operation", 2), w = (unsigned)sym_choose("source", 2), i = (unsigned)sym_choose("sink", 3);
    if (!k) { sym_check(attempt([&] { src[w]->Subscribe(snk[i]); }) == (i == 2 ? WRONG : in[w][i] ? DUP : OK), "a sink is subscribed once, and only without argument"); if (i < 2) in[w][i] = true; }
    else { sym_check(attempt([&] { src[w]->Unsubscribe(snk[i]); }) == (in[w][i] ? OK : NOTSUB), "only a subscribed sink is unsubscribed"); in[w][i] = false; }
    for (int w2 = 0; w2 < 2; w2++) for (int m = 0; m < 2; m++) {
      for (auto &x : r) x = {};
      Smp::IObject *own = w2 ? static_cast<Smp::IObject *>(&third) : static_cast<Smp::IObject *>(&p);
      Smp::IObject *from = m ? static_cast<Smp::IObject *>(&third) : own;
      if (m) { if (step & 1) src[w2]->Emit(from); else (*src[w2])(from); } else { if (step & 1) src[w2]->Emit(); else (*src[w2])(); }
      for (int j = 0; j < 3; j++) sym_check(r[j].n == (in[w2][j] ? 1 : 0) && (!r[j].n || r[j].from == from), "each subscribed sink is notified exactly once with the sender, and no other");
    }
  }
  // A notification with a value is refused.
  for (auto &x : r) x = {};
  PTK kind = (PTK)sym_choose("kind", 4);
  bool refused = false;
  try { s0.Notify(&p, kind == PTK::PTK_None ? Smp::AnySimple{} : kind == PTK::PTK_Bool ? Smp::AnySimple{kind, true} : kind == PTK::PTK_Char8 ? Smp::AnySimple{kind, 'x'} : Smp::AnySimple{kind, 1}); }
  catch (const Smp::InvalidAnyType &) { refused = true; }
  sym_check(refused == (kind != PTK::PTK_None) && r[0].n == (kind == PTK::PTK_None), "a sink without argument only takes an empty value");
}
namespace {
template <class T> void kind(PTK k, T v, PTK other) {
  Prov p("p");
  Rec<T> r;
  EventSource<T> e("e", "", &p, k);
  EventSink<T> s("s", "", &p, [&](Smp::IObject *o, T x) { r.n++; r.from = o; r.v = x; }, k);
  sym_check(e.GetEventArgType() == k && s.GetEventArgType() == k, "the kind is the one given");
  e.Subscribe(&s);
  e.Emit(v);
  sym_check(r.n == 1 && r.from == &p && memcmp(&r.v, &v, sizeof v) == 0, "the argument arrives unchanged");
  EventSink<T> w("w", "", &p, [&](Smp::IObject *, T) { r.n += 10; }, other);
  sym_check(attempt([&] { e.Subscribe(&w); }) == (other == k ? OK : WRONG), "sinks of exactly this kind are accepted");
  e.Emit(v);
  sym_check(r.n == (other == k ? 12 : 2), "a refused sink is not notified");
}
enum class Color : std::int32_t { RED = -3, GREEN = 0, BLUE = 70000 };
}
// Every argument type and every value.
ENTRY(p18_kinds) {
  PTK other = (PTK)sym_choose("kind of the other sink", 16);
  switch (sym_choose("type", 14)) {
  case 0: kind<char>(PTK::PTK_Char8, (char)sym_u8("v"), other); break;
  case 1: kind<bool>(PTK::PTK_Bool, sym_bool("v"), other); break;
  case 2: kind<std::int8_t>(PTK::PTK_Int8, (std::int8_t)sym_u8("v"), other); break;
  case 3: kind<std::uint8_t>(PTK::PTK_UInt8, sym_u8("v"), other); break;
  case 4: kind<std::int16_t>(PTK::PTK_Int16, (std::int16_t)sym_u16("v"), other); break;
  case 5: kind<std::uint16_t>(PTK::PTK_UInt16, sym_u16("v"), other); break;
  case 6: kind<std::int32_t>(PTK::PTK_Int32, (std::int32_t)sym_u32("v"), other); break;
  case 7: kind<std::uint32_t>(PTK::PTK_UInt32, sym_u32("v"), other); break;
  case 8: kind<std::int64_t>(PTK::PTK_Int64, (std::int64_t)sym_u64("v"), other); break;
  case 9: kind<std::uint64_t>(PTK::PTK_UInt64, sym_u64("v"), other); break;
  case 10: kind<std::int64_t>(PTK::PTK_Duration, (std::int64_t)sym_u64("v"), other); break;
  case 11: kind<std::int64_t>(PTK::PTK_DateTime, (std::int64_t)sym_u64("v"), other); break;
  case 12: { std::uint64_t u = sym_u64("v"); double x; memcpy(&x, &u, 8); sym_assume(x == x); kind<double>(PTK::PTK_Float64, x, other); break; }
  default: kind<Color>(PTK::PTK_Int32, (Color)(std::int32_t)sym_u32("v"), other); break;
  }
}
// Text arguments: each sink has its own copy, cut at its capacity.
ENTRY(p18_text) {
  Prov p("p");
  SymStr t(4, "text");
  ::Xsmp::String<4> v{t.p};
  int n = 0;
  bool same = false, shorter = false;
  EventSource<::Xsmp::String<4>> e("e", "", &p, PTK::PTK_String8);
  EventSink<::Xsmp::String<4>> s("s", "", &p, [&](Smp::IObject *, ::Xsmp::String<4> x) { n++; same = x.size() == t.n && eqBytes(x.c_str(), t.p, t.n); }, PTK::PTK_String8);
  EventSink<::Xsmp::String<2>> q("q", "", &p, [&](Smp::IObject *, ::Xsmp::String<2> x) { n++; unsigned k = t.n < 2 ? t.n : 2; shorter = x.size() == k && eqBytes(x.c_str(), t.p, k); }, PTK::PTK_String8);
  EventSource<const char *> raw("raw", "", &p, PTK::PTK_String8);
  e.Subscribe(&s); e.Subscribe(&q); raw.Subscribe(&s); raw.Subscribe(&q);
  sym_leak_begin();
  if (sym_choose("source", 2)) e.Emit(v); else raw.Emit(t.p);
  sym_leak_end();
  sym_check(n == 2 && same && shorter, "every sink gets the text, cut at its own capacity");
}
// Sinks subscribe and unsubscribe sinks while an event is delivered.
ENTRY(p18_reentrant) {
  Prov p("p");
  int n[3] = {0, 0, 0}, budget = (int)sym_bound(1);
  EventSource<> e("e", "", &p);
  Smp::IEventSink *snk[3];
  bool in[3] = {}, out[3] = {}, fresh[3] = {}, before[3];
  auto cb = [&](int i) { return [&, i](Smp::IObject *) {
    n[i]++;
    if (budget > 0) {
      budget--;
      unsigned k = (unsigned)sym_choose("inner operation", 3), j = (unsigned)sym_choose("inner sink", 3);
      if (k == 1 && in[j]) { e.Unsubscribe(snk[j]); in[j] = false; out[j] = true; }
      if (k == 2 && !in[j]) { e.Subscribe(snk[j]); in[j] = true; fresh[j] = true; }
    }
  }; };
  EventSink<> s0("s0", "", &p, cb(0)), s1("s1", "", &p, cb(1)), s2("s2", "", &p, cb(2));
  snk[0] = &s0; snk[1] = &s1; snk[2] = &s2;
  unsigned first = (unsigned)sym_choose("subscribed", 8);
  for (int i = 0; i < 3; i++) if (first >> i & 1) { e.Subscribe(snk[i]); in[i] = true; }
  for (int i = 0; i < 3; i++) before[i] = in[i];
  e.Emit();
  for (int i = 0; i < 3; i++) {
    sym_check(n[i] <= 1, "no sink is notified twice by one emission");
    if (before[i] && !out[i]) sym_check(n[i] == 1, "a sink subscribed all along is notified exactly once");
    if (!before[i] && !fresh[i]) sym_check(n[i] == 0, "a sink not subscribed is not notified");
  }
  budget = 0;
  for (auto &x : n) x = 0;
  e.Emit();
  for (int i = 0; i < 3; i++) sym_check(n[i] == (in[i] ? 1 : 0), "the next emission reaches the sinks subscribed by then");
}
// The collections of sources and sinks of a component.
ENTRY(p18_lookup) {
  Prov p("p", "");
  Cons c("c", "");
  EventSource<> a("a", "text", &p), b("b", "", &p), x("x", "", static_cast<Smp::IObject *>(&p));
  EventSink<> s("s", "text", &c, [](Smp::IObject *) {}), t("t", "", &c, [](Smp::IObject *) {}), y("y", "", static_cast<Smp::IObject *>(&c), [](Smp::IObject *) {});
  sym_check(p.GetEventSources()->size() == 2 && p.GetEventSource("a") == &a && p.GetEventSource("b") == &b && !p.GetEventSource("x") && !p.GetEventSource("zz"), "the sources of the component");
  sym_check(c.GetEventSinks()->size() == 2 && c.GetEventSink("s") == &s && c.GetEventSink("t") == &t && !c.GetEventSink("y") && !c.GetEventSink("zz"), "the sinks of the component");
  sym_check(!strcmp(a.GetName(), "a") && !strcmp(a.GetDescription(), "text") && a.GetParent() == &p && x.GetParent() == &p, "place of a source");
  sym_check(!strcmp(s.GetName(), "s") && !strcmp(s.GetDescription(), "text") && s.GetParent() == &c && y.GetParent() == &c, "place of a sink");
  sym_check(p.GetEventSinks()->size() == 0, "no sink here");
}
