// P22: persistence.
// SOURCES: src/Xsmp/Field.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Smp/AnySimple.cpp src/Xsmp/Simulator.cpp
// UBSAN: yes
// ENTRY p22_numbers
// ENTRY p22_arrays
// ENTRY p22_text quick=5 thorough=6
// ENTRY p22_wide quick=4 thorough=5
// ENTRY p22_vector quick=3 thorough=4
// ENTRY p22_nested quick=2 thorough=2
// ENTRY p22_set quick=3 thorough=4
// ENTRY p22_map quick=3 thorough=4
// ENTRY p22_unordered quick=3 thorough=4
// ENTRY p22_several
// ENTRY p22_typed
// ENTRY p22_object
// ENTRY p22_field weight=2
// ENTRY p22_composed_field
// ENTRY p22_published
// ENTRY p22_refused
#include "fieldlib.h"
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Model.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/Publication/Publication.h>
#include "Xsmp/Simulator.h"
#include "Xsmp/Services/XsmpResolver.h"
#include <memory>
#include <string.h>
#include <string>
#include <vector>
using namespace Xsmp;
using PTK = Smp::PrimitiveTypeKind;
using Smp::AnySimple;
namespace U = Smp::Uuids;
namespace P = ::Xsmp::Persist;

namespace {
// A state vector in memory.
struct Mem final : Smp::IStorageWriter, Smp::IStorageReader {
  unsigned char b[256];
  std::uint64_t w = 0, r = 0;
  bool fail = false;
  void Store(void *a, Smp::UInt64 n) override {
    if (fail) throw std::runtime_error("full");
    if (n > sizeof b - w) sym_fail("more is stored than there is");
    memcpy(b + w, a, n); w += n;
  }
  void Restore(void *a, Smp::UInt64 n) override {
    if (n > w - r) sym_fail("more is restored than was stored");
    memcpy(a, b + r, n); r += n;
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
// Stores v, restores it into w: all bytes are consumed.
template <typename T> void trip(const T &v, T &w, const Smp::ISimulator *s = nullptr) {
  Mem m;
  const std::uint64_t guard = sym_u64("guard");
  P::Store(s, &m, v, guard);
  std::uint64_t g = 0;
  P::Restore(s, &m, w, g);
  sym_check(m.r == m.w, "exactly the stored bytes are restored");
  sym_check(g == guard, "what follows is restored from its own bytes");
}
template <typename T> T any(const char *n) {
  if constexpr (sizeof(T) == 1) { auto v = sym_u8(n); T t; if constexpr (std::is_same_v<T, bool>) t = v & 1; else memcpy(&t, &v, 1); return t; }
  else if constexpr (sizeof(T) == 2) { auto v = sym_u16(n); T t; memcpy(&t, &v, 2); return t; }
  else if constexpr (sizeof(T) == 4) { auto v = sym_u32(n); T t; memcpy(&t, &v, 4); return t; }
  else { auto v = sym_u64(n); T t; memcpy(&t, &v, 8); return t; }
}
template <typename T> bool same(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
template <typename T> void number() {
  const T v = any<T>("value");
  T w = any<T>("previous");
  trip(v, w);
  sym_check(same(v, w), "a number is restored");
}
enum class Colour : std::int16_t { red = 1, green = -2 };
template <typename S> S text(const char *n, unsigned max) {
  const unsigned k = (unsigned)sym_choose(n, max + 1);
  S s;
  for (unsigned i = 0; i < k; i++) s.push_back(any<typename S::value_type>("char"));
  return s;
}
template <typename S> bool sameText(const S &a, const S &b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (std::size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
  return ok;
}
}
ENTRY(p22_numbers) {
  switch (sym_choose("type", 14)) {
  case 0: number<bool>(); break;
  case 1: number<char>(); break;
  case 2: number<std::int8_t>(); break;
  case 3: number<std::uint8_t>(); break;
  case 4: number<std::int16_t>(); break;
  case 5: number<std::uint16_t>(); break;
  case 6: number<std::int32_t>(); break;
  case 7: number<std::uint32_t>(); break;
  case 8: number<std::int64_t>(); break;
  case 9: number<std::uint64_t>(); break;
  case 10: number<float>(); break;
  case 11: number<double>(); break;
  case 12: number<Colour>(); break;
  default: { std::atomic<std::int32_t> v{any<std::int32_t>("value")}, w{any<std::int32_t>("previous")}; trip(v, w); sym_check(v == w, "an atomic is restored"); }
  }
}
ENTRY(p22_arrays) {
  std::int16_t v[2][2], w[2][2] = {};
  for (auto &a : v) for (auto &x : a) x = any<std::int16_t>("item");
  trip(v, w);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_check(v[i][j] == w[i][j], "an item of an array is restored");
  std::array<std::pair<std::int32_t, std::int8_t>, 2> a, b{};
  for (auto &x : a) x = {any<std::int32_t>("first"), any<std::int8_t>("second")};
  trip(a, b);
  for (std::size_t i = 0; i < 2; i++) sym_check(a[i].first == b[i].first && a[i].second == b[i].second, "a pair is restored");
}
ENTRY(p22_text) {
  const unsigned n = (unsigned)sym_bound(3);
  const auto v = text<std::string>("length", n);
  auto w = text<std::string>("previous length", n);
  trip(v, w);
  sym_check(sameText(v, w), "a text is restored");
}
ENTRY(p22_wide) {
  const unsigned n = (unsigned)sym_bound(2);
  if (sym_choose("width", 2)) {
    const auto v = text<std::u16string>("length", n);
    auto w = text<std::u16string>("previous length", n);
    trip(v, w);
    sym_check(sameText(v, w), "a text of wide characters is restored");
  } else {
    const auto v = text<std::u32string>("length", n);
    auto w = text<std::u32string>("previous length", n);
    trip(v, w);
    sym_check(sameText(v, w), "a text of wide characters is restored");
  }
}
ENTRY(p22_vector) {
  const unsigned n = (unsigned)sym_bound(2);
  std::vector<std::int32_t> v, w;
  for (unsigned i = (unsigned)sym_choose("size", n + 1); i; i--) v.push_back(any<std::int32_t>("item"));
  for (unsigned i = (unsigned)sym_choose("previous size", n + 1); i; i--) w.push_back(any<std::int32_t>("previous"));
  trip(v, w);
  sym_check(v.size() == w.size(), "a vector has its size back");
  for (std::size_t i = 0; i < v.size() && i < w.size(); i++) sym_check(v[i] == w[i], "an item of a vector is restored");
}
ENTRY(p22_nested) {
  const unsigned n = (unsigned)sym_bound(2);
  std::vector<std::vector<std::string>> v, w{{"old"}};
  for (unsigned i = (unsigned)sym_choose("size", n + 1); i; i--) {
    v.emplace_back();
    for (unsigned j = (unsigned)sym_choose("inner size", n + 1); j; j--) v.back().push_back(text<std::string>("length", 1));
  }
  trip(v, w);
  sym_check(v.size() == w.size(), "a vector of vectors has its size back");
  for (std::size_t i = 0; i < v.size() && i < w.size(); i++) {
    sym_check(v[i].size() == w[i].size(), "an inner vector has its size back");
    for (std::size_t j = 0; j < v[i].size() && j < w[i].size(); j++) sym_check(sameText(v[i][j], w[i][j]), "an inner text is restored");
  }
}
ENTRY(p22_set) {
  const unsigned n = (unsigned)sym_bound(2);
  std::set<std::int16_t> v, w;
  for (unsigned i = (unsigned)sym_choose("size", n + 1); i; i--) v.insert(any<std::int16_t>("item"));
  for (unsigned i = (unsigned)sym_choose("previous size", n + 1); i; i--) w.insert(any<std::int16_t>("previous"));
  trip(v, w);
  sym_check(v.size() == w.size(), "a set has its size back");
  auto j = w.begin();
  for (auto x : v) { if (j == w.end()) break; sym_check(*j == x, "an item of a set is restored"); ++j; }
}
ENTRY(p22_map) {
  const unsigned n = (unsigned)sym_bound(2);
  // With the usual order, and with another one.
  std::map<std::int16_t, std::string> v, w;
  std::map<std::int16_t, std::uint8_t, std::greater<std::int16_t>> a, b;
  for (unsigned i = (unsigned)sym_choose("size", n + 1); i; i--) { auto k = any<std::int16_t>("key"); v[k] = text<std::string>("length", 1); a[k] = any<std::uint8_t>("item"); }
  if (sym_choose("previous", 2)) { auto k = any<std::int16_t>("previous key"); w[k] = "old"; b[k] = 1; }
  trip(v, w);
  trip(a, b);
  sym_check(v.size() == w.size() && a.size() == b.size(), "a map has its size back");
  auto j = w.begin();
  for (auto &x : v) { if (j == w.end()) break; sym_check(j->first == x.first && sameText(j->second, x.second), "an entry of a map is restored"); ++j; }
  auto q = b.begin();
  for (auto &x : a) { if (q == b.end()) break; sym_check(q->first == x.first && q->second == x.second, "an entry of a map is restored"); ++q; }
}
ENTRY(p22_unordered) {
  const unsigned n = (unsigned)sym_bound(2);
  std::unordered_map<int, std::int32_t> v, w;
  std::unordered_set<int> s, t;
  for (unsigned i = (unsigned)sym_choose("size", n + 1); i; i--) { int k = (int)sym_choose("key", 4); v[k] = any<std::int32_t>("item"); s.insert(k); }
  if (sym_choose("previous", 2)) { int k = (int)sym_choose("previous key", 4); w[k] = 1; t.insert(k); }
  trip(v, w);
  trip(s, t);
  sym_check(v.size() == w.size() && s.size() == t.size(), "an unordered container has its size back");
  for (auto &x : v) { auto f = w.find(x.first); sym_check(f != w.end() && f->second == x.second, "an entry of an unordered map is restored"); sym_check(t.count(x.first) == 1, "an item of an unordered set is restored"); }
}
// Several values one after another, and the same through the version that records types.
ENTRY(p22_several) {
  Xsmp::Object o("o");
  Mem m;
  const std::int32_t i = any<std::int32_t>("int"); const std::string s = text<std::string>("length", 2); const bool f = any<bool>("flag"); const double d = any<double>("double");
  std::int32_t i2 = 0; std::string s2 = "old"; bool f2 = false; double d2 = 0;
  if (sym_choose("types", 2)) { P::Store(nullptr, &o, &m, i, s, f, d); P::Restore(nullptr, &o, &m, i2, s2, f2, d2); }
  else { P::Store(nullptr, &m, i, s, f, d); P::Restore(nullptr, &m, i2, s2, f2, d2); }
  sym_check(m.r == m.w, "exactly the stored bytes are restored");
  sym_check(i == i2 && f == f2 && same(d, d2) && sameText(s, s2), "every value is restored");
}
// The version that records types refuses a value of another type.
ENTRY(p22_typed) {
  Xsmp::Object o("o");
  Mem m;
  const std::int32_t v = any<std::int32_t>("value");
  P::Store(nullptr, &o, &m, v);
  const std::uint64_t old = sym_u64("previous");
  bool refused = false;
  std::uint32_t a = (std::uint32_t)old; float f = 1; std::int64_t l = (std::int64_t)old; std::int32_t i = 0;
  const unsigned n = (unsigned)sym_choose("type", 4);
  try {
    switch (n) { case 0: P::Restore(nullptr, &o, &m, a); break; case 1: P::Restore(nullptr, &o, &m, f); break; case 2: P::Restore(nullptr, &o, &m, l); break; default: P::Restore(nullptr, &o, &m, i); }
  } catch (const Smp::CannotRestore &e) { refused = e.GetSender() == &o; }
  sym_check(refused == (n != 3), "a value of another type is refused");
  sym_check(a == (std::uint32_t)old && l == (std::int64_t)old && f == 1, "a refused value stays");
  if (!refused) sym_check(i == v, "the value is restored");
}
namespace {
struct Dev : Model {
  Dev(const char *n, Smp::IObject *p, fl::Types &t) : Model(n, "", dynamic_cast<Smp::IComposite *>(p)), a(&t.reg, fl::id(1), "a", "", this), s(&t.reg, fl::id(3), "s", "", this) {}
  void open(fl::Types &t) { pub = std::make_unique<::Xsmp::Publication::Publication>(this, &t.reg); Publish(pub.get()); pub->PublishField(&a); pub->PublishField(&s); }
  std::unique_ptr<::Xsmp::Publication::Publication> pub;
  ::Xsmp::Field<fl::Arr> a;
  ::Xsmp::Field<fl::St> s;
};
}
// References to objects are stored as paths.
ENTRY(p22_object) {
  fl::Types t;
  Simulator sim;
  auto *m = new Dev("m", &sim, t), *m2 = new Dev("n", &sim, t);
  sim.AddModel(m); sim.AddModel(m2);
  m->open(t); m2->open(t);
  sim.AddService(new ::Xsmp::Services::XsmpResolver("r", "", &sim, &sim));
  Smp::IObject *objects[] = {nullptr, &sim, m, m2, &m->a, m2->a.GetItem(1), &m2->s.q[0], &m->s.p, &m->s};
  const unsigned n = (unsigned)sym_choose("object", 9);
  Smp::IObject *v = objects[n], *w = objects[sym_choose("previous", 2)];
  trip<Smp::IObject *>(v, w, &sim);
  sym_check(v == w, "a reference is restored to the same object");
  if (n == 0 || n == 2 || n == 3) {
    Smp::IComponent *c = n ? static_cast<Smp::IComponent *>(n == 2 ? m : m2) : nullptr, *d = m;
    trip<Smp::IComponent *>(c, d, &sim);
    sym_check(c == d, "a reference to a component is restored to the same component");
  }
}
// Simple fields: the value, whether it is forced, whether it has failed.
ENTRY(p22_field) {
  ::Xsmp::Publication::TypeRegistry reg;
  Mem m;
  const std::int32_t v = any<std::int32_t>("value"), old = any<std::int32_t>("previous");
  using F = ::Xsmp::Field<Smp::Int32>;
  switch (sym_choose("field", 5)) {
  case 0: {
    F a(&reg, U::Uuid_Int32, "a"), b(&reg, U::Uuid_Int32, "b");
    a = v; b = old;
    a.Store(&m); b.Restore(&m);
    sym_check(*b == v && m.r == m.w, "the value of a field is restored");
    break;
  }
  case 1: {
    F::forcible a(&reg, U::Uuid_Int32, "a"), b(&reg, U::Uuid_Int32, "b");
    a = v; b = old;
    const bool fa = sym_choose("forced", 2), fb = sym_choose("previously forced", 2);
    if (fa) a.Force(v);
    if (fb) b.Force(old);
    a.Store(&m); b.Restore(&m);
    sym_check(*b == v && b.IsForced() == fa && m.r == m.w, "the value of a field and whether it is forced are restored");
    b = 77;
    sym_check(*b == (fa ? v : 77), "a restored force holds");
    break;
  }
  case 2: {
    F::transient a(&reg, U::Uuid_Int32, "a"), b(&reg, U::Uuid_Int32, "b");
    a = v; b = old;
    a.Store(&m); b.Restore(&m);
    sym_check(*b == old && m.w == 0, "a transient field is not part of the state");
    sym_check(!a.IsState(), "a transient field is no state");
    break;
  }
  case 3: {
    F::output a(&reg, U::Uuid_Int32, "a"), b(&reg, U::Uuid_Int32, "b");
    a = v; b = old;
    a.Store(&m); b.Restore(&m);
    sym_check(*b == v && m.r == m.w, "the value of an output is restored");
    break;
  }
  default: {
    struct Owner : Model, virtual FallibleModel { using Model::Model; } owner("o");
    Smp::IObject *o = static_cast<Model *>(&owner);
    F::failure a(&reg, U::Uuid_Int32, "a", "", o), b(&reg, U::Uuid_Int32, "b", "", o);
    a = v; b = old;
    const bool fa = sym_choose("failed", 2);
    if (fa) a.Fail();
    if (sym_choose("previously failed", 2)) b.Fail();
    a.Store(&m); b.Restore(&m);
    sym_check(*b == v && b.IsFailed() == fa && m.r == m.w, "the value of a field and whether it has failed are restored");
  }
  }
}
// Arrays and structures with their own storage.
ENTRY(p22_composed_field) {
  fl::Types t;
  Mem m;
  const std::int32_t v[3] = {any<std::int32_t>("v0"), any<std::int32_t>("v1"), any<std::int32_t>("v2")};
  switch (sym_choose("field", 4)) {
  case 0: {
    ::Xsmp::Field<fl::Arr> a(&t.reg, fl::id(1), "a"), b(&t.reg, fl::id(1), "b");
    for (unsigned i = 0; i < 2; i++) { a[i] = v[i]; b[i] = 5; }
    a.Store(&m); b.Restore(&m);
    sym_check(*b[0] == v[0] && *b[1] == v[1] && m.r == m.w, "the items of an array are restored");
    break;
  }
  case 1: {
    ::Xsmp::Field<fl::SArr> a(&t.reg, fl::id(2), "a"), b(&t.reg, fl::id(2), "b");
    for (unsigned i = 0; i < 3; i++) { a[i] = v[i]; b[i] = 5; }
    a.Store(&m); b.Restore(&m);
    sym_check(b[0] == v[0] && b[1] == v[1] && b[2] == v[2] && m.r == m.w, "the items of a simple array are restored");
    break;
  }
  case 2: {
    ::Xsmp::Field<fl::St> a(&t.reg, fl::id(3), "a"), b(&t.reg, fl::id(3), "b");
    a.p = (std::int16_t)v[0]; a.q[0] = v[1]; a.q[1] = v[2];
    a.Store(&m); b.Restore(&m);
    sym_check(*b.p == (std::int16_t)v[0] && *b.q[0] == v[1] && *b.q[1] == v[2] && m.r == m.w, "the members of a structure are restored");
    break;
  }
  default: {
    ::Xsmp::Field<fl::Arr>::forcible a(&t.reg, fl::id(1), "a"), b(&t.reg, fl::id(1), "b");
    for (unsigned i = 0; i < 2; i++) { a[i] = v[i]; b[i] = 5; }
    const unsigned k = (unsigned)sym_choose("forced", 3);
    if (k < 2) a[k].Force(v[2]);
    a.Store(&m); b.Restore(&m);
    for (unsigned i = 0; i < 2; i++) sym_check(*b[i] == (i == k ? v[2] : v[i]) && b[i].IsForced() == (i == k), "an item and whether it is forced are restored");
    sym_check(m.r == m.w, "exactly the stored bytes are restored");
  }
  }
}
// Fields in raw memory: state is stored, other fields are not.
ENTRY(p22_published) {
  fl::Types t;
  t.reg.AddStringType("S", "", fl::id(5), 3);
  Model a("a"), b("b");
  ::Xsmp::Publication::Publication pa(&a, &t.reg), pb(&b, &t.reg);
  const bool state = sym_choose("state", 2);
  constexpr auto V = Smp::ViewKind::VK_All;
  struct D { std::int32_t x[3]; fl::Arr r; fl::St s; char c[4]; } v{}, w{};
  const unsigned n = (unsigned)sym_choose("field", 8);
  for (auto &x : v.x) x = any<std::int32_t>("x");
  for (std::size_t i = 0; i < 2; i++) { v.r[i] = any<std::int32_t>("r"); v.s.q[i] = any<std::int32_t>("q"); }
  v.s.p = any<std::int16_t>("p");
  for (int i = 0; i < 3; i++) v.c[i] = any<char>("c");
  auto publish = [&](::Xsmp::Publication::Publication &p, D &d) {
    switch (n) {
    case 0: p.PublishField("f", "", &d.x[1], V, state, false, false); break;
    case 1: p.PublishField("f", "", d.x, fl::id(2), V, state, false, false); break;
    case 2: p.PublishArray("f", "", 2, d.x, PTK::PTK_Int32, V, state, false, false); break;
    case 3: p.PublishField("f", "", &d.r, fl::id(1), V, state, false, false); break;
    case 4: p.PublishField("f", "", &d.s, fl::id(3), V, state, false, false); break;
    case 5: { auto *q = p.PublishArray("f", "", V, state); q->PublishField("i", "", &d.x[0], V, true, false, false); q->PublishField("j", "", &d.x[2], V, true, false, false); break; }
    case 6: { auto *q = p.PublishStructure("f", "", V, state); q->PublishField("i", "", &d.x[0], V, true, false, false); q->PublishField("j", "", &d.x[2], V, false, false, false); break; }
    default: p.PublishField("f", "", d.c, fl::id(5), V, state, false, false); break;
    }
  };
  publish(pa, v); publish(pb, w);
  Mem m;
  dynamic_cast<Smp::IPersist *>(pa.GetField("f"))->Store(&m);
  dynamic_cast<Smp::IPersist *>(pb.GetField("f"))->Restore(&m);
  sym_check(m.r == m.w && (m.w != 0) == state, "exactly the state is stored");
  bool x[3] = {};
  if (state) { x[0] = n == 1 || n == 2 || n == 5 || n == 6; x[1] = n <= 2; x[2] = n == 1 || n == 5; }
  for (int i = 0; i < 3; i++) sym_check(w.x[i] == (x[i] ? v.x[i] : 0), "the items of a field are restored, others stay");
  const bool r = state && n == 3, s = state && n == 4;
  for (std::size_t i = 0; i < 2; i++) sym_check(w.r[i] == (r ? v.r[i] : 0) && w.s.q[i] == (s ? v.s.q[i] : 0), "the items of a field are restored, others stay");
  sym_check(w.s.p == (s ? v.s.p : 0), "the members of a field are restored, others stay");
  for (int i = 0; i < 4; i++) sym_check(w.c[i] == (state && n == 7 ? v.c[i] : 0), "the characters of a field are restored, others stay");
}
// What the storage refuses is reported as such.
ENTRY(p22_refused) {
  ::Xsmp::Publication::TypeRegistry reg;
  Model o("o");
  ::Xsmp::Publication::Publication p(&o, &reg);
  std::int32_t x = any<std::int32_t>("x");
  const std::int32_t old = x;
  p.PublishField("f", "", &x, Smp::ViewKind::VK_All, true, false, false);
  struct Bad final : Smp::IStorageWriter, Smp::IStorageReader {
    void Store(void *, Smp::UInt64) override { Xsmp::Exception::throwException(nullptr, "Full", "", "no space"); }
    void Restore(void *, Smp::UInt64) override { Xsmp::Exception::throwException(nullptr, "End", "", "no more"); }
    Smp::String8 GetStateVectorFileName() const override { return ""; }
    Smp::String8 GetStateVectorFilePath() const override { return ""; }
  } bad;
  auto *f = dynamic_cast<Smp::IPersist *>(p.GetField("f"));
  bool refused = false;
  if (sym_choose("operation", 2)) { try { f->Store(&bad); } catch (const Smp::CannotStore &) { refused = true; } }
  else { try { f->Restore(&bad); } catch (const Smp::CannotRestore &) { refused = true; } }
  sym_check(refused && x == old, "what the storage refuses is reported and changes nothing");
}
