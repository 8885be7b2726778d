// P20: connections between fields.
// SOURCES: src/Xsmp/Field.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Smp/AnySimple.cpp
// ENTRY p20_typed quick=3 thorough=4 weight=3
// ENTRY p20_published quick=3 thorough=4 weight=3
// ENTRY p20_whole
// ENTRY p20_items quick=2 thorough=3 weight=2
// ENTRY p20_compatible
// ENTRY p20_refused
// ENTRY p20_chain
// ENTRY p20_removed quick=3 thorough=4 weight=2
#include "fieldlib.h"
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/InvalidTarget.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <memory>
#include <string.h>
#include <vector>
using namespace Xsmp;
using PTK = Smp::PrimitiveTypeKind;
using Smp::AnySimple;
using I32 = ::Xsmp::Field<Smp::Int32>;
namespace U = Smp::Uuids;

namespace {
enum Res { OK, DUP, BAD };
Res connect(Smp::IField *o, Smp::IField *i) {
  try { dynamic_cast<Smp::IDataflowField *>(o)->Connect(i); return OK; }
  catch (const Smp::FieldAlreadyConnected &) { return DUP; }
  catch (const Smp::InvalidTarget &) { return BAD; }
}
void push(Smp::IField *o) { dynamic_cast<Smp::IDataflowField *>(o)->Push(); }
struct M : Model {
  using Model::Model;
  using Pub = ::Xsmp::Publication::Publication;
  std::unique_ptr<Pub> pub;
  void open(fl::Types &t) { pub = std::make_unique<Pub>(this, &t.reg); Publish(pub.get()); }
};
// One value inside a field.
struct Leaf {
  Smp::ISimpleField *s;
  Smp::ISimpleArrayField *a;
  Smp::UInt64 i;
  std::int64_t get() const { return (std::int64_t)(s ? s->GetValue() : a->GetValue(i)); }
  void set(std::int32_t v) const {
    if (a) a->SetValue(i, AnySimple{PTK::PTK_Int32, v});
    else if (s->GetPrimitiveTypeKind() == PTK::PTK_Int16) s->SetValue(AnySimple{PTK::PTK_Int16, (std::int16_t)v});
    else s->SetValue(AnySimple{PTK::PTK_Int32, v});
  }
};
void leaves(Smp::IField *f, std::vector<Leaf> &out) {
  if (auto *s = dynamic_cast<Smp::ISimpleField *>(f)) out.push_back({s, nullptr, 0});
  else if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) for (Smp::UInt64 i = 0; i < a->GetSize(); i++) out.push_back({nullptr, a, i});
  else if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) for (Smp::UInt64 i = 0; i < r->GetSize(); i++) leaves(r->GetItem(i), out);
  else { auto *st = dynamic_cast<Smp::IStructureField *>(f); for (std::size_t i = 0; i < st->GetFields()->size(); i++) leaves(st->GetFields()->at(i), out); }
}
// Any value of 16 bits, as 32 bits.
std::int32_t sv(const char *n) { return (std::int16_t)sym_u16(n); }
}
// Every history over fields with their own storage.
ENTRY(p20_typed) {
  fl::Types t;
  M m("m"), x("x"), y("y");
  m.open(t);
  I32::output a(&t.reg, U::Uuid_Int32, "a", "", &m), b(&t.reg, U::Uuid_Int32, "b", "", &m);
  I32::input i(&t.reg, U::Uuid_Int32, "i", "", &x);
  I32::input::forcible j(&t.reg, U::Uuid_Int32, "j", "", &x);
  I32::input k(&t.reg, U::Uuid_Int32, "k", "", &y);
  m.pub->PublishField(&a); m.pub->PublishField(&b);
  I32::output *out[2] = {&a, &b};
  Smp::ISimpleField *in[3] = {&i, &j, &k};
  std::int32_t ov[2] = {0, 0}, iv[3] = {0, 0, 0};
  bool on[2][3] = {}, forced = false;
  auto flow = [&](int o, int n) { if (on[o][n] && !(n == 1 && forced)) iv[n] = ov[o]; };
  const int steps = (int)sym_bound(3);
  for (int s = 0; s < steps; s++) {
    unsigned o = (unsigned)sym_choose("output", 2), n = (unsigned)sym_choose("input", 3);
    switch (sym_choose("operation", 6)) {
    case 0:
      sym_check(connect(out[o], in[n]) == (on[o][n] ? DUP : OK), "two fields are connected once");
      if (!on[o][n]) { on[o][n] = true; flow((int)o, (int)n); } else sym_witness("a second connection");
      break;
    case 1:
      ov[o] = (std::int32_t)sym_u32("value");
      if (n == 0) *out[o] = ov[o]; else if (n == 1) out[o]->SetValue(AnySimple{PTK::PTK_Int32, ov[o]}); else { *out[o] ^= ov[o]; ov[o] = **out[o]; }
      for (int q = 0; q < 3; q++) flow((int)o, q);
      break;
    case 2:
      out[o]->Push();
      for (int q = 0; q < 3; q++) flow((int)o, q);
      break;
    case 3: {
      // The inputs live their own life between pushes.
      std::int32_t v = (std::int32_t)sym_u32("input value");
      in[n]->SetValue(AnySimple{PTK::PTK_Int32, v});
      if (!(n == 1 && forced)) iv[n] = v;
      break;
    }
    case 4:
      if (n == 0) { iv[1] = (std::int32_t)sym_u32("forced value"); j.Force(iv[1]); forced = true; }
      else if (n == 1) { j.Unforce(); forced = false; }
      else { j.Freeze(); forced = true; }
      break;
    default:
      // All links to a component go away.
      m.RemoveLinks(o ? &y : &x);
      for (auto &r : on) { if (o) r[2] = false; else r[0] = r[1] = false; }
      break;
    }
    for (int q = 0; q < 2; q++) sym_check(*out[q] == ov[q], "an output keeps its value");
    for (int q = 0; q < 3; q++) sym_check((std::int32_t)in[q]->GetValue() == iv[q], "an input has the value that last reached it");
  }
}
// Every history over fields published from raw memory.
ENTRY(p20_published) {
  fl::Types t;
  M m("m"), x("x"), y("y");
  m.open(t); x.open(t); y.open(t);
  std::int32_t ov[2] = {1, 2}, iv[3] = {3, 4, 5}, want[3] = {3, 4, 5};
  m.pub->PublishField("a", "", &ov[0], Smp::ViewKind::VK_All, true, false, true);
  m.pub->PublishField("b", "", &ov[1], Smp::ViewKind::VK_All, true, false, true);
  x.pub->PublishField("i", "", &iv[0], Smp::ViewKind::VK_All, true, true, false);
  I32::input::forcible j(&t.reg, U::Uuid_Int32, "j", "", &x);
  x.pub->PublishField(&j);
  y.pub->PublishField("k", "", &iv[2], Smp::ViewKind::VK_All, true, true, false);
  Smp::IField *out[2] = {m.pub->GetField("a"), m.pub->GetField("b")}, *in[3] = {x.pub->GetField("i"), &j, y.pub->GetField("k")};
  j = 4;
  bool on[2][3] = {}, forced = false;
  auto flow = [&](int o, int n) { if (on[o][n] && !(n == 1 && forced)) want[n] = ov[o]; };
  const int steps = (int)sym_bound(3);
  for (int s = 0; s < steps; s++) {
    unsigned o = (unsigned)sym_choose("output", 2), n = (unsigned)sym_choose("input", 3);
    switch (sym_choose("operation", 6)) {
    case 0:
      sym_check(connect(out[o], in[n]) == (on[o][n] ? DUP : OK), "two fields are connected once");
      if (!on[o][n]) { on[o][n] = true; flow((int)o, (int)n); }
      break;
    case 1: ov[o] = (std::int32_t)sym_u32("value"); break;
    case 2:
      push(out[o]);
      for (int q = 0; q < 3; q++) flow((int)o, q);
      break;
    case 3: {
      std::int32_t v = (std::int32_t)sym_u32("input value");
      dynamic_cast<Smp::ISimpleField *>(in[n])->SetValue(AnySimple{PTK::PTK_Int32, v});
      if (!(n == 1 && forced)) want[n] = v;
      break;
    }
    case 4:
      if (n == 0) { want[1] = (std::int32_t)sym_u32("forced value"); j.Force(want[1]); forced = true; } else { j.Unforce(); forced = false; }
      break;
    default:
      m.RemoveLinks(o ? &y : &x);
      for (auto &r : on) { if (o) r[2] = false; else r[0] = r[1] = false; }
      break;
    }
    sym_check(iv[0] == want[0] && *j == want[1] && iv[2] == want[2], "an input has the value that last reached it");
    for (int q = 0; q < 2; q++) sym_check((std::int32_t)dynamic_cast<Smp::ISimpleField *>(out[q])->GetValue() == ov[q], "an output has the value of its memory");
  }
}
namespace {
// Output and input fields of one shape, in the given flavour.
struct Shaped {
  std::int32_t raw[3] = {};
  std::unique_ptr<Smp::IField> own;
  Smp::IField *f;
};
enum { SIMPLE, ARRAY, SARRAY, STRUCT, SHAPES };
template <class T, class... A> Smp::IField *make(Shaped &s, fl::Types &t, const Smp::Uuid &u, bool output, const char *name, Smp::IObject *p) {
  if (output) s.own = std::make_unique<typename ::Xsmp::Field<T>::output>(&t.reg, u, name, "", p);
  else s.own = std::make_unique<typename ::Xsmp::Field<T>::input>(&t.reg, u, name, "", p);
  return s.own.get();
}
void shape(Shaped &s, unsigned k, unsigned flavour, bool output, M &m, fl::Types &t, const char *name) {
  static const Smp::Uuid ids[SHAPES] = {U::Uuid_Int32, fl::id(1), fl::id(2), fl::id(3)};
  if (flavour == 2 && k == SARRAY) { m.pub->PublishArray(name, "", 3, s.raw, PTK::PTK_Int32, Smp::ViewKind::VK_All, true, !output, output); s.f = m.pub->GetField(name); }
  else if (flavour) { m.pub->PublishField(name, "", s.raw, ids[k], Smp::ViewKind::VK_All, true, !output, output); s.f = m.pub->GetField(name); }
  else {
    switch (k) {
    case SIMPLE: s.f = make<Smp::Int32>(s, t, ids[k], output, name, &m); break;
    case ARRAY: s.f = make<fl::Arr>(s, t, ids[k], output, name, &m); break;
    case SARRAY: s.f = make<fl::SArr>(s, t, ids[k], output, name, &m); break;
    default: s.f = make<fl::St>(s, t, ids[k], output, name, &m); break;
    }
    m.pub->PublishField(s.f);
  }
}
}
// Fields of every shape: connecting and pushing moves every item, to the connected inputs only, until the link is removed.
ENTRY(p20_whole) {
  fl::Types t;
  M m("m"), x("x"), y("y");
  m.open(t); x.open(t); y.open(t);
  unsigned k = (unsigned)sym_choose("shape", SHAPES), fo = (unsigned)sym_choose("output flavour", k == SARRAY ? 3 : 2), fi = (unsigned)sym_choose("input flavour", k == SARRAY ? 3 : 2);
  Shaped o, i, j, n;
  shape(o, k, fo, true, m, t, "o");
  shape(i, k, fi, false, x, t, "i");
  shape(j, k, fi, false, y, t, "j");
  shape(n, k, fi, false, y, t, "n");
  std::vector<Leaf> ol, il, jl, nl;
  leaves(o.f, ol); leaves(i.f, il); leaves(j.f, jl); leaves(n.f, nl);
  const std::size_t size = ol.size();
  sym_check(size == (k == SIMPLE ? 1u : k == ARRAY ? 2u : 3u) && il.size() == size, "the number of items");
  auto fill = [&](std::vector<Leaf> &l, const char *name, std::vector<std::int32_t> &v) { v.clear(); for (auto &x2 : l) { v.push_back(sv(name)); x2.set(v.back()); } };
  auto is = [&](std::vector<Leaf> &l, const std::vector<std::int32_t> &v, const char *msg) { for (std::size_t q = 0; q < size; q++) sym_check(l[q].get() == v[q], msg); };
  std::vector<std::int32_t> ov, iv, jv, nv;
  fill(nl, "other", nv);
  fill(il, "initial", iv);
  fill(ol, "value", ov);
  sym_check(connect(o.f, i.f) == OK, "fields of one type are connected");
  is(il, ov, "connecting delivers the current value");
  sym_check(connect(o.f, j.f) == OK, "an output has several inputs");
  sym_check(connect(o.f, i.f) == DUP, "but each one only once");
  fill(ol, "second value", ov);
  push(o.f);
  is(il, ov, "a push reaches the first input, item by item");
  is(jl, ov, "a push reaches the second input, item by item");
  is(ol, ov, "a push does not change the output");
  is(nl, nv, "no other field is touched");
  fill(il, "own value", iv);
  is(ol, ov, "nothing flows back");
  push(o.f);
  is(il, ov, "a push restores the value of the output");
  m.RemoveLinks(&x);
  fill(il, "own value", iv);
  fill(ol, "third value", ov);
  push(o.f);
  is(il, iv, "after removal no value flows");
  is(jl, ov, "to the other input it still does");
  sym_check(connect(o.f, i.f) == OK, "a removed link can be made again");
  is(il, ov, "and delivers the current value");
}
// Items of an output array connected one by one.
ENTRY(p20_items) {
  fl::Types t;
  M m("m"), x("x"), y("y");
  m.open(t); x.open(t); y.open(t);
  unsigned fo = (unsigned)sym_choose("output flavour", 2);
  Shaped o;
  shape(o, ARRAY, fo, true, m, t, "o");
  I32::input i(&t.reg, U::Uuid_Int32, "i", "", &x), j(&t.reg, U::Uuid_Int32, "j", "", &x), k(&t.reg, U::Uuid_Int32, "k", "", &y);
  I32::input *in[3] = {&i, &j, &k};
  auto *arr = dynamic_cast<Smp::IArrayField *>(o.f);
  std::vector<Leaf> ol;
  leaves(o.f, ol);
  bool on[2][3] = {};
  std::int32_t ov[2] = {0, 0}, iv[3] = {0, 0, 0};
  const int steps = (int)sym_bound(2);
  for (int s = 0; s < steps; s++) {
    unsigned q = (unsigned)sym_choose("item", 2), n = (unsigned)sym_choose("input", 3);
    sym_check(connect(arr->GetItem(q), in[n]) == (on[q][n] ? DUP : OK), "an item is connected once to each input");
    on[q][n] = true;
    iv[n] = ov[q];
  }
  auto round = [&](bool item) {
    for (int q = 0; q < 2; q++) {
      for (int n = 0; n < 3; n++) sym_check(**in[n] == iv[n], "an input has the value that last reached it");
      ov[q] = sv("value");
      ol[(size_t)q].set(ov[q]);
      if (item) push(arr->GetItem((Smp::UInt64)q));
      for (int n = 0; n < 3; n++) if (on[q][n] && (item || !fo)) iv[n] = ov[q];
    }
    if (!item && !fo) { push(o.f); for (int q = 0; q < 2; q++) for (int n = 0; n < 3; n++) if (on[q][n]) iv[n] = ov[q]; }
    for (int n = 0; n < 3; n++) sym_check(**in[n] == iv[n], "an input has the value that last reached it");
  };
  round(sym_bool("push items"));
  unsigned w = (unsigned)sym_choose("removed", 2);
  m.RemoveLinks(w ? &y : &x);
  for (auto &r : on) { if (w) r[2] = false; else r[0] = r[1] = false; }
  round(true);
}
// Which fields can be connected.
ENTRY(p20_compatible) {
  fl::Types t;
  t.reg.AddArrayType("DArr", "", fl::id(4), U::Uuid_Float64, sizeof(double), 3, true);
  t.reg.AddArrayType("SArr2", "", fl::id(5), U::Uuid_Int32, 4, 2, true);
  t.reg.AddArrayType("Arr3", "", fl::id(6), U::Uuid_Int32, 4, 3, false);
  t.reg.AddArrayType("Arr16", "", fl::id(7), U::Uuid_Int16, 2, 2, false);
  auto *st = t.reg.AddStructureType("St2", "", fl::id(8));
  st->AddField("p", "", U::Uuid_Int16, 0);
  auto *st3 = t.reg.AddStructureType("St3", "", fl::id(9));
  st3->AddField("p", "", U::Uuid_Int16, 0);
  st3->AddField("q", "", fl::id(7), 4);
  M m("m"), x("x");
  m.open(t); x.open(t);
  using D3 = ::Xsmp::Array<double, 3>::simple;
  struct { Smp::Uuid u; int cls; } kinds[] = {{U::Uuid_Int32, 0}, {U::Uuid_Int16, 1}, {U::Uuid_Int64, 2}, {U::Uuid_Float64, 3}, {fl::id(1), 4}, {fl::id(2), 5}, {fl::id(3), 6}, {fl::id(4), 7},
                                              {fl::id(5), 8}, {fl::id(6), 9}, {fl::id(7), 10}, {fl::id(8), 11}, {fl::id(9), 12}, {U::Uuid_UInt32, 13}, {U::Uuid_Bool, 14}};
  const unsigned N = sizeof kinds / sizeof *kinds;
  alignas(8) char mem[2][64] = {};
  unsigned a = (unsigned)sym_choose("output type", N + 4), b = (unsigned)sym_choose("input type", N + 4);
  std::unique_ptr<Smp::IField> own[2];
  int cls[2];
  auto field = [&](int w, M &o, unsigned k, const char *name) -> Smp::IField * {
    if (k < N) { o.pub->PublishField(name, "", (void *)mem[w], kinds[k].u, Smp::ViewKind::VK_All, true, w == 1, w == 0); cls[w] = kinds[k].cls; return o.pub->GetField(name); }
    if (k == N) { o.pub->PublishArray(name, "", 3, mem[w], PTK::PTK_Int32, Smp::ViewKind::VK_All, true, w == 1, w == 0); cls[w] = 5; return o.pub->GetField(name); }
    if (k == N + 1) { o.pub->PublishArray(name, "", 3, mem[w], PTK::PTK_Float64, Smp::ViewKind::VK_All, true, w == 1, w == 0); cls[w] = 7; return o.pub->GetField(name); }
    if (k == N + 2) { cls[w] = 5; if (w) own[w] = std::make_unique<::Xsmp::Field<fl::SArr>::input>(&t.reg, fl::id(2), name, "", &o); else own[w] = std::make_unique<::Xsmp::Field<fl::SArr>::output>(&t.reg, fl::id(2), name, "", &o); }
    else { cls[w] = 7; if (w) own[w] = std::make_unique<::Xsmp::Field<D3>::input>(&t.reg, fl::id(4), name, "", &o); else own[w] = std::make_unique<::Xsmp::Field<D3>::output>(&t.reg, fl::id(4), name, "", &o); }
    return own[w].get();
  };
  Smp::IField *o = field(0, m, a, "o"), *i = field(1, x, b, "i");
  sym_check(connect(o, i) == (cls[0] == cls[1] ? OK : BAD), "exactly fields of the same shape and kinds are connected");
  if (cls[0] == cls[1]) sym_witness("connected"); else { push(o); sym_witness("refused"); }
}
// What is refused leaves no trace.
ENTRY(p20_refused) {
  fl::Types t;
  M m("m"), x("x");
  m.open(t); x.open(t);
  unsigned fo = (unsigned)sym_choose("output flavour", 2), k = (unsigned)sym_choose("target", 5);
  Shaped o;
  shape(o, SIMPLE, fo, true, m, t, "o");
  I32 plain(&t.reg, U::Uuid_Int32, "plain", "", &x);
  I32::output out(&t.reg, U::Uuid_Int32, "out", "", &x);
  ::Xsmp::Field<Smp::Int64>::input wide(&t.reg, U::Uuid_Int64, "wide", "", &x);
  std::int32_t raw = 0;
  x.pub->PublishField("raw", "", &raw, Smp::ViewKind::VK_All, true, false, false);
  Smp::IField *target[5] = {&plain, &out, &wide, x.pub->GetField("raw"), o.f};
  for (int n = 0; n < 2; n++) sym_check(connect(o.f, target[k]) == BAD, "only inputs of the same type are targets");
  std::vector<Leaf> l;
  leaves(o.f, l);
  l[0].set((std::int32_t)(sym_u16("value") | 1));
  push(o.f);
  sym_check(*plain == 0 && *out == 0 && *wide == 0 && raw == 0, "no value flows to a refused target");
}
// A value goes on through fields that are both input and output.
ENTRY(p20_chain) {
  fl::Types t;
  M m("m"), x("x"), y("y"), z("z");
  m.open(t); x.open(t);
  I32::output a(&t.reg, U::Uuid_Int32, "a", "", &m);
  I32::input::output b(&t.reg, U::Uuid_Int32, "b", "", &x);
  I32::input::forcible::output c(&t.reg, U::Uuid_Int32, "c", "", &y);
  I32::input d(&t.reg, U::Uuid_Int32, "d", "", &z);
  m.pub->PublishField(&a); x.pub->PublishField(&b);
  unsigned order = (unsigned)sym_choose("order", 2);
  a = 5;
  if (order) { a.Connect(&b); b.Connect(&c); c.Connect(&d); } else { c.Connect(&d); b.Connect(&c); a.Connect(&b); }
  sym_check(*b == 5 && *c == 5 && *d == 5, "connecting delivers the value along the chain");
  bool force = sym_bool("forced");
  std::int32_t v = (std::int32_t)sym_u32("value"), w = force ? (std::int32_t)sym_u32("forced value") : v;
  if (force) { c.Force(w); sym_check(*d == w, "a forced value is passed on"); }
  a = v;
  sym_check(*b == v && *c == w && *d == w, "an assigned value goes to the end of the chain, a forced one stays");
  x.RemoveLinks(&y);
  a = 7; 
  sym_check(*b == 7 && *c == w && *d == w, "a removed link ends the chain");
}
// All links to the removed component go, whatever their number, and no other.
ENTRY(p20_removed) {
  fl::Types t;
  M m("m"), x("x"), y("y");
  m.open(t);
  unsigned fo = (unsigned)sym_choose("output flavour", 2);
  Shaped o;
  shape(o, SIMPLE, fo, true, m, t, "o");
  const int n = (int)sym_bound(3);
  std::vector<std::unique_ptr<I32::input>> in;
  std::vector<bool> gone;
  for (int s = 0; s < n; s++) {
    bool w = sym_bool("component");
    char name[2] = {(char)('a' + s), 0};
    in.push_back(std::make_unique<I32::input>(&t.reg, U::Uuid_Int32, name, "", w ? &x : &y));
    gone.push_back(w);
    sym_check(connect(o.f, in.back().get()) == OK, "connected");
  }
  m.RemoveLinks(&x);
  std::vector<Leaf> l;
  leaves(o.f, l);
  l[0].set(42);
  push(o.f);
  for (int s = 0; s < n; s++) sym_check(**in[(size_t)s] == (gone[(size_t)s] ? 0 : 42), "exactly the inputs of other components still get the value");
}
