// P38: entry points, relations between objects, equivalence of fields, conversion of values.
// SOURCES: src/Xsmp/Helper.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/EntryPointPublisher.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp src/Xsmp/cstring.cpp src/Xsmp/Component.cpp src/Xsmp/Simulator.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Smp/AnySimple.cpp
// UBSAN: yes
// ENTRY p38_entry_point quick=3 thorough=4
// ENTRY p38_publisher
// ENTRY p38_safe_execute
// ENTRY p38_ancestors quick=3 thorough=4
// ENTRY p38_parent_of_type quick=3 thorough=5
// ENTRY p38_equivalent weight=3
// ENTRY p38_copy quick=5 thorough=7
// ENTRY p38_convert
#include "fieldlib.h"
#include "simlib.h"
#include <Smp/DuplicateName.h>
#include <Xsmp/AnySimpleConverter.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Publication/Publication.h>
#include <stdexcept>
#include <string.h>
#include <string>
#include <vector>
namespace H = ::Xsmp::Helper;
using PTK = Smp::PrimitiveTypeKind;
using Pub = ::Xsmp::Publication::Publication;
using Smp::AnySimple;
namespace {
struct M : ::Xsmp::Model, virtual ::Xsmp::EntryPointPublisher {
  using Model::Model;
  const Smp::Uuid &GetUuid() const override { static Smp::Uuid u{}; return u; }
};
struct Rec : sl::Logger {
  using sl::Logger::Logger;
  struct L { const Smp::IObject *s; std::string m; int k; };
  std::vector<L> ls;
  void Log(const Smp::IObject *s, Smp::String8 m, Smp::Services::LogMessageKind k) override { ls.push_back({s, m ? m : "", (int)k}); }
};
struct Obj : ::Xsmp::Object { using Object::Object; };
struct Special : Obj { using Obj::Obj; };
enum class E8 : std::uint8_t {};
enum class E16 : std::int16_t {};
enum class E32 : std::int32_t {};
struct Text { Smp::Char8 internalString[4]; };
}
// Every execution runs the action once, of this entry point only; what it raises is passed on.
ENTRY(p38_entry_point) {
  M m("m", "", nullptr);
  int na = 0, nb = 0;
  bool fail = false;
  ::Xsmp::EntryPoint a("a", "first", static_cast<::Xsmp::EntryPointPublisher *>(&m), [&] { na++; if (fail) throw std::runtime_error("no"); });
  ::Xsmp::EntryPoint b("b", "second", static_cast<Smp::IObject *>(&m), [&] { nb++; });
  int wa = 0, wb = 0;
  unsigned n = (unsigned)sym_bound(3);
  for (unsigned i = 0; i < n; i++) {
    bool raised = false;
    fail = false;
    switch (sym_choose("what", 4)) {
    case 0: fail = true; wa++; try { a.Execute(); } catch (const std::runtime_error &) { raised = true; } sym_check(raised, "what the action raises is passed on"); break;
    case 1: wa++; a.Execute(); break;
    case 2: wb++; static_cast<Smp::IEntryPoint &>(b).Execute(); break;
    default: wb++; H::SafeExecute(nullptr, &b); break;
    }
    sym_check(na == wa && nb == wb, "an execution runs the action of the entry point once");
  }
  int nc = 0;
  ::Xsmp::EntryPoint c("c", "", static_cast<Smp::IObject *>(nullptr), [&] { nc++; });
  c.Execute();
  sym_check(nc == 1 && !c.GetParent(), "also without a parent");
  sym_check(!strcmp(a.GetName(), "a") && !strcmp(a.GetDescription(), "first") && a.GetParent() == &m && b.GetParent() == &m && !strcmp(b.GetName(), "b"), "an entry point has its name, description and parent");
}
// The publisher shows the entry points made for it.
ENTRY(p38_publisher) {
  M m("m", "", nullptr), other("other", "", nullptr);
  char c[2] = {(char)('a' + (int)sym_bool("name")), 0}, d[2] = {(char)('a' + (int)sym_bool("name")), 0};
  int runs = 0;
  ::Xsmp::EntryPoint a(c, "", static_cast<::Xsmp::EntryPointPublisher *>(&m), [&] { runs++; });
  ::Xsmp::EntryPoint x(c, "", static_cast<::Xsmp::EntryPointPublisher *>(&other), [] {});
  bool refused = false;
  ::Xsmp::EntryPoint *b = nullptr;
  try { b = new ::Xsmp::EntryPoint(d, "", static_cast<::Xsmp::EntryPointPublisher *>(&m), [] {}); } catch (const Smp::DuplicateName &) { refused = true; }
  sym_check(refused == (c[0] == d[0]), "a name is used by one entry point of a component");
  const auto *es = m.GetEntryPoints();
  sym_check(es->size() == (refused ? 1u : 2u) && es->at(std::size_t(0)) == &a && es->at(c) == &a && m.GetEntryPoint(c) == &a, "a component shows its entry points");
  if (!refused) sym_check(es->at(1) == b && m.GetEntryPoint(d) == b, "in the order they were made");
  sym_check(other.GetEntryPoints()->size() == 1 && other.GetEntryPoint(c) == &x && !m.GetEntryPoint("z") && !m.GetEntryPoint(nullptr), "and no others");
  m.GetEntryPoint(c)->Execute();
  sym_check(runs == 1, "the entry point shown is the one made");
  delete b;
}
// The simulator runs an entry point: nothing it raises escapes, the error is logged and the simulation aborted.
ENTRY(p38_safe_execute) {
  ::Xsmp::Simulator sim;
  bool logs = sym_choose("logger", 2) != 0;
  Rec *log = nullptr;
  if (logs) { log = new Rec("log", "", &sim, &sim); sim.AddService(log); }
  M *m = new M("m", "", &sim);
  sim.AddModel(m);
  Obj culprit("culprit");
  int kind = (int)sym_choose("raises", 5), runs = 0;
  bool own = sym_choose("sender", 2) != 0;
  ::Xsmp::EntryPoint ep("ep", "", static_cast<::Xsmp::EntryPointPublisher *>(m), [&] {
    runs++;
    if (kind == 1) ::Xsmp::Exception::throwException(own ? static_cast<Smp::IObject *>(m) : &culprit, "Broken", "d", "the text");
    if (kind == 2) throw std::runtime_error("plain");
    if (kind == 3) throw 7;
    if (kind == 4) ::Xsmp::Exception::throwDuplicateName(own ? static_cast<Smp::IObject *>(m) : &culprit, "n", m);
  });
  if (log) log->ls.clear();
  const auto before = sim.GetState();
  bool escaped = false;
  try { H::SafeExecute(&sim, &ep); } catch (...) { escaped = true; }
  sym_check(!escaped && runs == 1, "the entry point runs once and nothing escapes");
  sym_check(sim.GetState() == (kind ? Smp::SimulatorStateKind::SSK_Aborting : before), "the simulation is aborted exactly when the entry point fails");
  if (log) {
    int errors = 0, mine = 0, theirs = 0;
    const Smp::IObject *sender = own ? static_cast<Smp::IObject *>(m) : &culprit;
    for (auto &l : log->ls) if (l.k == Smp::Services::ILogger::LMK_Error) {
      if (l.s == sim.GetService("none") || !l.s) continue;
      errors++; mine += l.s == &ep; theirs += l.s == sender;
    }
    sym_check((errors > 0) == (kind != 0), "an error is logged exactly when the entry point fails");
    sym_check(!kind || mine == 1, "the error names the entry point");
    sym_check(kind != 1 && kind != 4 || theirs == 1, "and the object that raised it");
    bool told = false;
    for (auto &l : log->ls) if (l.k == Smp::Services::ILogger::LMK_Error) told |= l.m.find(kind == 1 ? "Broken" : kind == 2 ? "plain" : kind == 4 ? "DuplicateName" : "") != std::string::npos;
    sym_check(!kind || told, "and what was raised");
  }
}
// An object's ancestors are itself, its parent and so on.
ENTRY(p38_ancestors) {
  unsigned n = (unsigned)sym_bound(3) + 1;
  std::vector<Obj *> o;
  std::vector<int> up;
  for (unsigned i = 0; i < n; i++) {
    int p = (int)sym_choose("parent", i + 1) - 1;
    up.push_back(p);
    o.push_back(new Obj("o", "", p < 0 ? nullptr : o[(unsigned)p]));
  }
  for (unsigned i = 0; i < n; i++) {
    for (unsigned j = 0; j < n; j++) {
      bool want = false;
      for (int k = (int)j; k >= 0; k = up[(unsigned)k]) want |= k == (int)i;
      sym_check(H::IsAncestor(o[i], o[j]) == want, "an object is an ancestor of itself and of everything below it");
    }
    sym_check(!H::IsAncestor(nullptr, o[i]) && !H::IsAncestor(o[i], nullptr), "nothing is no ancestor");
  }
  for (auto *x : o) delete x;
}
// The nearest object of a type, from the object itself upwards.
ENTRY(p38_parent_of_type) {
  unsigned n = (unsigned)sym_bound(3) + 1;
  std::vector<Obj *> o;
  std::vector<bool> sp;
  for (unsigned i = 0; i < n; i++) {
    sp.push_back(sym_choose("special", 2) != 0);
    Smp::IObject *p = i ? o[i - 1] : nullptr;
    o.push_back(sp[i] ? new Special("o", "", p) : new Obj("o", "", p));
  }
  for (unsigned i = 0; i < n; i++) {
    Obj *want = nullptr;
    for (unsigned k = 0; k <= i; k++) if (sp[k]) want = o[k];
    sym_check(H::GetParentOfType<Special>(static_cast<Smp::IObject *>(o[i])) == want && H::GetParentOfType<Special>(static_cast<const Smp::IObject *>(o[i])) == want, "the nearest object of the type");
    sym_check(!H::GetParentOfType<Smp::ISimulator>(static_cast<Smp::IObject *>(o[i])), "none of another type");
  }
  sym_check(!H::GetParentOfType<Special>(static_cast<Smp::IObject *>(nullptr)), "none above nothing");
  for (auto *x : o) delete x;
}
namespace {
// Shapes of fields: simple of a kind, simple array of a kind and a size, structure or array of members.
struct Shape { int form; PTK kind; int size; std::vector<Shape> in; };
bool alike(const Shape &a, const Shape &b) {
  if (a.form != b.form) return false;
  if (a.form == 0) return a.kind == b.kind;
  if (a.form == 1) return a.size == b.size && a.kind == b.kind;
  if (a.in.size() != b.in.size()) return false;
  for (std::size_t i = 0; i < a.in.size(); i++) if (!alike(a.in[i], b.in[i])) return false;
  return true;
}
const char *nm[] = {"a", "b", "c"};
// what the contents of the field and its flags are does not matter
void *memory = new Smp::Int64[4]();
Shape leaf(Smp::IPublication &p, const char *n, bool deep) {
  static const Shape ls[] = {{0, PTK::PTK_Int32, 0, {}}, {0, PTK::PTK_UInt32, 0, {}}, {1, PTK::PTK_Int32, 2, {}}, {1, PTK::PTK_Int32, 3, {}}, {1, PTK::PTK_UInt32, 2, {}}};
  int i = deep ? (int)sym_choose("leaf", 3) : (int)sym_choose("leaf", 5);
  const Shape &s = ls[i];
  if (s.form == 0) { if (s.kind == PTK::PTK_Int32) p.PublishField(n, "", (Smp::Int32 *)memory, Smp::ViewKind::VK_All, false, true, false); else p.PublishField(n, "", (Smp::UInt32 *)memory); }
  else p.PublishArray(n, "", s.size, memory, s.kind);
  return s;
}
Shape shape(Smp::IPublication &p, const char *n) {
  int f = (int)sym_choose("form", 3);
  if (f == 0) return leaf(p, n, false);
  Shape s{f + 1, PTK::PTK_None, 0, {}};
  auto *in = f == 1 ? p.PublishStructure(n, "") : p.PublishArray(n, "");
  unsigned k = (unsigned)sym_choose("members", 3);
  for (unsigned i = 0; i < k; i++) s.in.push_back(leaf(*in, nm[i], true));
  return s;
}
}
// Fields are equivalent exactly when they have the same form, kinds and sizes, member by member.
ENTRY(p38_equivalent) {
  fl::Types t;
  M m("m", "", nullptr);
  Pub pub(&m, &t.reg);
  const Shape a = shape(pub, "first"), b = shape(pub, "second");
  auto *f = pub.GetFields()->at(std::size_t(0)), *g = pub.GetFields()->at(1);
  const bool want = alike(a, b);
  sym_check(H::AreEquivalent(f, g) == want && H::AreEquivalent(g, f) == want, "fields are equivalent exactly when they have the same form, kinds and sizes");
  sym_check(H::AreEquivalent(f, f), "a field is equivalent to itself");
  sym_check(!H::AreEquivalent(f, nullptr) && !H::AreEquivalent(nullptr, f), "nothing is not equivalent to a field");
  if (want && a.form > 1 && a.in.size() == 2) sym_witness("equal composites");
}
// A text is copied into its place, cut at its length, and terminated.
ENTRY(p38_copy) {
  SymStr s((unsigned)sym_bound(5), "text", true);
  AnySimple v;
  const bool none = sym_choose("none", 2) != 0;
  if (!none) v = AnySimple(PTK::PTK_String8, s.p);
  else v = AnySimple(PTK::PTK_String8, static_cast<Smp::String8>(nullptr));
  unsigned cap = (unsigned)sym_choose("size", 4);
  char buf[6] = {'#', '#', '#', '#', '#', '#'};
  H::CopyString(buf + 1, cap, v);
  unsigned len = none ? 0 : s.n < cap ? s.n : cap;
  sym_check(eqBytes(buf + 1, s.p, len) && buf[1 + len] == 0, "the text is copied up to the size given and terminated");
  bool rest = buf[0] == '#';
  for (unsigned i = len + 2; i < 6; i++) rest &= buf[i] == '#';
  sym_check(rest, "nothing else is written");
  Text x = ::Xsmp::AnySimpleConverter<Text>::convert(v);
  unsigned tl = none ? 0 : s.n < 3 ? s.n : 3;
  sym_check(eqBytes(x.internalString, s.p, tl) && x.internalString[tl] == 0, "a text type gets the text, cut at its capacity");
  auto y = ::Xsmp::AnySimpleConverter<std::array<char, 4>>::convert(v);
  sym_check(eqBytes(&y[0], s.p, tl) && y[tl] == 0, "so does an array of characters");
  AnySimple bx = ::Xsmp::AnySimpleConverter<Text>::convert(PTK::PTK_String8, x), by = ::Xsmp::AnySimpleConverter<std::array<char, 4>>::convert(PTK::PTK_String8, y);
  sym_check(bx.GetType() == PTK::PTK_String8 && strlen(static_cast<Smp::String8>(bx)) == tl && eqBytes(static_cast<Smp::String8>(bx), s.p, tl), "and gives it back");
  sym_check(bx == by, "as the array does");
}
// Enumerations and numbers pass through a variant unchanged.
ENTRY(p38_convert) {
  namespace X = ::Xsmp;
  switch (sym_choose("type", 6)) {
  case 0: { E8 e = static_cast<E8>(sym_u8("v")); AnySimple a = X::AnySimpleConverter<E8>::convert(PTK::PTK_UInt8, e); sym_check((a.GetType() == PTK::PTK_UInt8) & (X::AnySimpleConverter<E8>::convert(a) == e), "an enumeration of 8 bits"); break; }
  case 1: { E16 e = static_cast<E16>(sym_u16("v")); AnySimple a = X::AnySimpleConverter<E16>::convert(PTK::PTK_Int16, e); sym_check((a.GetType() == PTK::PTK_Int16) & (X::AnySimpleConverter<E16>::convert(a) == e), "an enumeration of 16 bits"); break; }
  case 2: { E32 e = static_cast<E32>(sym_u32("v")); AnySimple a = X::AnySimpleConverter<E32>::convert(PTK::PTK_Int32, e); sym_check((a.GetType() == PTK::PTK_Int32) & (X::AnySimpleConverter<E32>::convert(a) == e), "an enumeration of 32 bits"); break; }
  case 3: { Smp::Int64 v = (Smp::Int64)sym_u64("v"); AnySimple a = X::AnySimpleConverter<Smp::Int64>::convert(PTK::PTK_DateTime, v); sym_check((a.GetType() == PTK::PTK_DateTime) & (X::AnySimpleConverter<Smp::Int64>::convert(a) == v), "a date"); break; }
  case 4: { Smp::UInt64 v = sym_u64("v"); AnySimple a = X::AnySimpleConverter<Smp::UInt64>::convert(PTK::PTK_UInt64, v); sym_check((a.GetType() == PTK::PTK_UInt64) & (X::AnySimpleConverter<Smp::UInt64>::convert(a) == v), "an unsigned number"); break; }
  default: { bool v = sym_bool("v"); AnySimple a = X::AnySimpleConverter<bool>::convert(PTK::PTK_Bool, v); sym_check((a.GetType() == PTK::PTK_Bool) & (X::AnySimpleConverter<bool>::convert(a) == v), "a truth value"); break; }
  }
}
