// Every exception of the library, raised directly: what it carries and (with MESSAGES) what it says.
#ifndef EXCLIB_H
#define EXCLIB_H
#include "fieldlib.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/InvalidTarget.h>
#include <Smp/LibraryNotFound.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/ReferenceFull.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Operation.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Reference.h>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace ex {
using PTK = Smp::PrimitiveTypeKind;
using CSK = Smp::ComponentStateKind;
using SSK = Smp::SimulatorStateKind;
using Smp::AnySimple;
namespace E = ::Xsmp::Exception;
namespace U = Smp::Uuids;
using Obj = const Smp::IObject *;
#ifdef MESSAGES
static const std::int64_t table[] = {0, 7, -1, 4095, -30};
static unsigned drawn, row;
inline std::int64_t any64(const char *n) { if (!drawn++) row = (unsigned)sym_choose(n, 5); return table[(row + drawn) % 5]; }
#else
inline std::int64_t any64(const char *n) { return (std::int64_t)sym_u64(n); }
#endif
inline PTK anyKind(const char *n) { return (PTK)sym_choose(n, 16); }
#ifdef MESSAGES
inline PTK anyKind2(PTK a, const char *) { return (PTK)(((unsigned)a + 3) % 16); }
#else
inline PTK anyKind2(PTK, const char *n) { return anyKind(n); }
#endif
inline bool is(const char *a, const std::string &b) { return a && b == a; }
inline bool same(const AnySimple &a, std::int32_t v) { return a.GetType() == PTK::PTK_Int32 && a.value.int32Value == v; }
struct Part : ::Xsmp::Model { using Model::Model; };
struct Owner : ::Xsmp::Model, virtual ::Xsmp::Composite, virtual ::Xsmp::Aggregate { using Model::Model; };
struct World {
  fl::Types t;
  Owner root{"root", "", nullptr, nullptr};
  Owner owner{"owner", "", &root, nullptr};
  Part *part = new Part("part", "", &owner, nullptr), other{"other", "", &root, nullptr};
  ::Xsmp::Container<Smp::IComponent> box{"box", "", &owner, 0, -1};
  ::Xsmp::Reference<Smp::IComponent> ref{"ref", "", static_cast<::Xsmp::Aggregate *>(&owner), 0, -1};
  ::Xsmp::EventSource<void> source{"source", "", static_cast<Smp::IObject *>(&owner)};
  ::Xsmp::EntryPoint ep{"entry", "", static_cast<Smp::IObject *>(&owner), [] {}};
  ::Xsmp::Field<Smp::Int32>::output out{&t.reg, U::Uuid_Int32, "out", "", &owner};
  ::Xsmp::Field<Smp::Int32>::input in{&t.reg, U::Uuid_Int32, "in", "", &other};
  ::Xsmp::Field<fl::Arr> arr{&t.reg, fl::id(1), "arr", "", &owner};
  ::Xsmp::Field<fl::SArr> sarr{&t.reg, fl::id(2), "sarr", "", &owner};
  ::Xsmp::Publication::Publication pub{&owner, &t.reg};
  ::Xsmp::Publication::Operation *op = dynamic_cast<::Xsmp::Publication::Operation *>(pub.PublishOperation("op", "", Smp::ViewKind::VK_None));
  World() { box.AddComponent(part); }
};
// A text which goes away once it was used.
struct Text {
  char b[3];
  std::string s;
  explicit Text(bool k) {
    b[0] = k ? 'x' : 'y'; b[1] = k ? 'v' : 0; b[2] = 0;
    s = b;
  }
  void gone() { b[0] = '#'; b[1] = '#'; }
};
using Parts = std::vector<std::string>;
template <class T> std::string str(const T &v) { std::ostringstream o; o << v; return o.str(); }
inline std::string path(Obj o) { return ::Xsmp::Helper::GetPath(o); }
inline std::string path(const ::Xsmp::Container<Smp::IComponent> *o) { return path(static_cast<Obj>(o)); }
inline void common(const Smp::Exception &e, const char *name, Obj sender, const Parts &p) {
  sym_check(e.GetSender() == sender, "the sender is the object which raised the error");
  sym_check(is(e.GetName(), name), "the error has the name of its kind");
  sym_check(e.GetDescription() && e.GetMessage() && e.what(), "the error has its texts");
#ifdef MESSAGES
  const std::string m = e.GetMessage();
  for (auto &x : p) sym_check(m.find(x) != std::string::npos, "the message names the objects, texts and values concerned");
  sym_check(is(e.what(), std::string(name) + "(" + e.GetDescription() + "): " + m), "what() tells name, description and message");
  sym_check(e.GetDescription()[0] != 0, "the error has a description");
#endif
}
template <class X, class F, class G> void raised(const char *name, Obj sender, const Parts &p, std::vector<Text *> texts, F f, G g) {
  bool got = false;
  try { f(); }
  catch (const Smp::Exception &b) {
    for (auto *t : texts) t->gone();
    auto *x = dynamic_cast<const X *>(&b);
    sym_check(x != nullptr, "an error of its kind is raised");
    common(b, name, sender, p);
    sym_check(!x || g(*x), "the error carries what it was raised with");
    got = true;
  }
  sym_check(got, "an error is raised");
}
#define CARRIES(X, ...) [&](const X &e) { (void)e; return __VA_ARGS__; }
inline void objects() {
  World w;
  Obj s = &w.root;
  const bool k = sym_bool("name");
  Text n(k), m(!k);
  switch (sym_choose("error", 20)) {
  case 0: raised<Smp::FieldAlreadyConnected>("FieldAlreadyConnected", s, {path(&w.out), path(&w.in)}, {}, [&] { E::throwFieldAlreadyConnected(s, &w.out, &w.in); }, CARRIES(Smp::FieldAlreadyConnected, e.GetSource() == &w.out && e.GetTarget() == &w.in)); break;
  case 1: raised<Smp::InvalidTarget>("InvalidTarget", s, {path(&w.out), path(&w.in)}, {}, [&] { E::throwInvalidTarget(s, &w.out, &w.in); }, CARRIES(Smp::InvalidTarget, e.GetSource() == &w.out && e.GetTarget() == &w.in)); break;
  case 2: raised<Smp::CannotStore>("CannotStore", s, {n.s}, {&n}, [&] { E::throwCannotStore(s, n.b); }, CARRIES(Smp::CannotStore, true)); break;
  case 3: raised<Smp::CannotRestore>("CannotRestore", s, {n.s}, {&n}, [&] { E::throwCannotRestore(s, n.b); }, CARRIES(Smp::CannotRestore, true)); break;
  case 4: raised<Smp::InvalidObjectName>("InvalidObjectName", s, {"'" + n.s + "'", m.s}, {&n, &m}, [&] { E::throwInvalidObjectName(s, n.b, m.b); }, CARRIES(Smp::InvalidObjectName, is(e.GetInvalidName(), n.s))); break;
  case 5: raised<Smp::ContainerFull>("ContainerFull", &w.box, {path(&w.box), "'1'"}, {}, [&] { E::throwContainerFull(&w.box); }, CARRIES(Smp::ContainerFull, is(e.GetContainerName(), "box") && e.GetContainerSize() == 1)); break;
  case 6: raised<Smp::DuplicateName>("DuplicateName", s, {"'" + n.s + "'", path(w.box.GetComponents())}, {&n}, [&] { E::throwDuplicateName(s, n.b, w.box.GetComponents()); }, CARRIES(Smp::DuplicateName, is(e.GetDuplicateName(), n.s))); break;
  case 7: raised<Smp::NotContained>("NotContained", &w.box, {path(&w.box), path(&w.other)}, {}, [&] { E::throwNotContained(&w.box, &w.other); }, CARRIES(Smp::NotContained, is(e.GetContainerName(), "box") && e.GetComponent() == &w.other)); break;
  case 8: {
    ::Xsmp::Container<Smp::IComponent> c("c", "", &w.owner, any64("lower"), -1);
    raised<Smp::CannotDelete>("CannotDelete", &c, {path(&c), path(&w.other), str(c.GetLower())}, {}, [&] { E::throwCannotDelete(&c, &w.other); }, CARRIES(Smp::CannotDelete, is(e.GetContainerName(), "c") && e.GetComponent() == &w.other && e.GetLowerLimit() == c.GetLower()));
    break;
  }
  case 9: raised<Smp::InvalidObjectType>("InvalidObjectType", s, {path(&w.other)}, {}, [&] { E::throwInvalidObjectType<Owner>(s, &w.other); }, CARRIES(Smp::InvalidObjectType, e.GetInvalidObject() == static_cast<Obj>(&w.other))); break;
  case 10: raised<Smp::NotReferenced>("NotReferenced", &w.ref, {path(&w.ref), path(&w.other)}, {}, [&] { E::throwNotReferenced(&w.ref, &w.other); }, CARRIES(Smp::NotReferenced, is(e.GetReferenceName(), "ref") && e.GetComponent() == &w.other)); break;
  case 11: { const auto v = any64("size"); raised<Smp::ReferenceFull>("ReferenceFull", &w.ref, {path(&w.ref), str(v)}, {}, [&] { E::throwReferenceFull(&w.ref, v); }, CARRIES(Smp::ReferenceFull, is(e.GetReferenceName(), "ref") && e.GetReferenceSize() == v)); break; }
  case 12: { const auto v = any64("lower"); raised<Smp::CannotRemove>("CannotRemove", &w.ref, {path(&w.ref), path(&w.other), str(v)}, {}, [&] { E::throwCannotRemove(&w.ref, &w.other, v); }, CARRIES(Smp::CannotRemove, is(e.GetReferenceName(), "ref") && e.GetComponent() == &w.other && e.GetLowerLimit() == v)); break; }
  case 13: case 14: case 15: {
    ::Xsmp::EventSink<void> sink("sink", "", static_cast<Smp::IObject *>(&w.other), [](Smp::IObject *) {});
    const Parts p{path(&w.source), path(&sink)};
    switch (sym_choose("event error", 3)) {
    case 0: raised<Smp::InvalidEventSink>("InvalidEventSink", s, p, {}, [&] { E::throwInvalidEventSink(s, &w.source, &sink); }, CARRIES(Smp::InvalidEventSink, e.GetEventSource() == &w.source && e.GetEventSink() == &sink)); break;
    case 1: raised<Smp::EventSinkAlreadySubscribed>("EventSinkAlreadySubscribed", s, p, {}, [&] { E::throwEventSinkAlreadySubscribed(s, &w.source, &sink); }, CARRIES(Smp::EventSinkAlreadySubscribed, e.GetEventSource() == &w.source && e.GetEventSink() == &sink)); break;
    default: raised<Smp::EventSinkNotSubscribed>("EventSinkNotSubscribed", s, p, {}, [&] { E::throwEventSinkNotSubscribed(s, &w.source, &sink); }, CARRIES(Smp::EventSinkNotSubscribed, e.GetEventSource() == &w.source && e.GetEventSink() == &sink)); break;
    }
    break;
  }
  case 16: raised<Smp::Services::EntryPointNotSubscribed>("EntryPointNotSubscribed", s, {path(&w.ep), "'" + n.s + "'"}, {&n}, [&] { E::throwEntryPointNotSubscribed(s, &w.ep, n.b); }, CARRIES(Smp::Services::EntryPointNotSubscribed, e.GetEntryPoint() == &w.ep && is(e.GetEventName(), n.s))); break;
  case 17: raised<Smp::Services::EntryPointAlreadySubscribed>("EntryPointAlreadySubscribed", s, {path(&w.ep), "'" + n.s + "'"}, {&n}, [&] { E::throwEntryPointAlreadySubscribed(s, &w.ep, n.b); }, CARRIES(Smp::Services::EntryPointAlreadySubscribed, e.GetEntryPoint() == &w.ep && is(e.GetEventName(), n.s))); break;
  case 18: {
    std::unique_ptr<Smp::IFactory> f{::Xsmp::Factory::Create<Part>("fac", "", nullptr, fl::id(9))};
    raised<Smp::DuplicateUuid>("DuplicateUuid", s, {"fac", "'" + n.s + "'", str(fl::id(9))}, {&n}, [&] { E::throwDuplicateUuid(s, f.get(), n.b); }, CARRIES(Smp::DuplicateUuid, is(e.GetOldName(), "fac") && is(e.GetNewName(), n.s)));
    break;
  }
  default: { auto *ty = w.t.reg.GetType(fl::id(1)); raised<Smp::Publication::TypeAlreadyRegistered>("TypeAlreadyRegistered", s, {"'" + n.s + "'", str(fl::id(1))}, {&n}, [&] { E::throwTypeAlreadyRegistered(s, n.b, ty); }, CARRIES(Smp::Publication::TypeAlreadyRegistered, is(e.GetTypeName(), n.s) && e.GetType() == ty)); break; }
  }
}
inline void values() {
  World w;
  Obj s = sym_bool("has sender") ? &w.root : nullptr;
  const bool k = sym_bool("name");
  Text n(k), m(!k);
  const auto v = any64("value"), v2 = any64("second value"), v3 = any64("third value");
  const auto i = (std::int32_t)v, i2 = (std::int32_t)v2;
  switch (sym_choose("error", 17)) {
  case 0: { auto a = (CSK)sym_choose("state", 5), b = (CSK)sym_choose("expected", 5); raised<Smp::InvalidComponentState>("InvalidComponentState", &w.owner, {path(&w.owner), "in " + str(a), "of " + str(b)}, {}, [&] { E::throwInvalidComponentState(&w.owner, a, b); }, CARRIES(Smp::InvalidComponentState, e.GetInvalidState() == a && e.GetExpectedState() == b)); break; }
  case 1: { auto a = (SSK)sym_choose("state", 10); raised<Smp::InvalidSimulatorState>("InvalidSimulatorState", s, {"'" + str(a) + "'"}, {}, [&] { E::throwInvalidSimulatorState(s, a); }, CARRIES(Smp::InvalidSimulatorState, e.GetInvalidState() == a)); break; }
  case 2: raised<Smp::InvalidOperationName>("InvalidOperationName", s, {n.s}, {&n}, [&] { E::throwInvalidOperationName(s, n.b); }, CARRIES(Smp::InvalidOperationName, is(e.GetOperationName(), n.s))); break;
  case 3: raised<Smp::InvalidParameterCount>("InvalidParameterCount", w.op, {path(w.op), "with " + str(i), "of 0"}, {}, [&] { E::throwInvalidParameterCount(w.op, i); }, CARRIES(Smp::InvalidParameterCount, is(e.GetOperationName(), "op") && e.GetOperationParameters() == 0 && e.GetRequestParameters() == i)); break;
  case 4: { auto a = anyKind("invalid"), b = anyKind2(a, "expected"); raised<Smp::InvalidParameterType>("InvalidParameterType", s, {"operation " + n.s, "parameter " + m.s, "of type " + str(a), "expected type " + str(b)}, {&n, &m}, [&] { E::throwInvalidParameterType(s, n.b, m.b, a, b); }, CARRIES(Smp::InvalidParameterType, is(e.GetOperationName(), n.s) && is(e.GetParameterName(), m.s) && e.GetInvalidType() == a && e.GetExpectedType() == b)); break; }
  case 5: if (sym_bool("simple")) raised<Smp::InvalidArrayIndex>("InvalidArrayIndex", &w.sarr, {path(&w.sarr), "'" + str(v) + "'", "'3'"}, {}, [&] { E::throwInvalidArrayIndex(static_cast<const Smp::ISimpleArrayField *>(&w.sarr), (Smp::UInt64)v); }, CARRIES(Smp::InvalidArrayIndex, e.GetArraySize() == 3 && e.GetInvalidIndex() == v));
    else raised<Smp::InvalidArrayIndex>("InvalidArrayIndex", &w.arr, {path(&w.arr), "'" + str(v) + "'", "'2'"}, {}, [&] { E::throwInvalidArrayIndex(static_cast<const Smp::IArrayField *>(&w.arr), (Smp::UInt64)v); }, CARRIES(Smp::InvalidArrayIndex, e.GetArraySize() == 2 && e.GetInvalidIndex() == v));
    break;
  case 6: raised<Smp::InvalidFieldValue>("InvalidFieldValue", &w.out, {path(&w.out), str(i)}, {}, [&] { E::throwInvalidFieldValue(&w.out, AnySimple(PTK::PTK_Int32, i)); }, CARRIES(Smp::InvalidFieldValue, same(e.GetInvalidFieldValue(), i))); break;
  case 7: raised<Smp::InvalidArrayValue>("InvalidArrayValue", &w.sarr, {path(&w.sarr) + "[" + str(v2) + "]", str(i)}, {}, [&] { E::throwInvalidArrayValue(&w.sarr, (Smp::UInt64)v2, AnySimple(PTK::PTK_Int32, i)); }, CARRIES(Smp::InvalidArrayValue, e.GetInvalidValueIndex() == v2 && same(e.GetInvalidValue(), i))); break;
  case 8: raised<Smp::InvalidArraySize>("InvalidArraySize", &w.sarr, {path(&w.sarr), "size " + str(v), "3"}, {}, [&] { E::throwInvalidArraySize(&w.sarr, (Smp::UInt64)v); }, CARRIES(Smp::InvalidArraySize, e.GetArraySize() == 3 && e.GetInvalidSize() == v)); break;
  case 9: raised<Smp::Services::InvalidEventName>("InvalidEventName", s, {"'" + n.s + "'"}, {&n}, [&] { E::throwInvalidEventName(s, n.b); }, CARRIES(Smp::Services::InvalidEventName, true)); break;
  case 10: raised<Smp::Services::InvalidEventId>("InvalidEventId", s, {"'" + str(v) + "'"}, {}, [&] { E::throwInvalidEventId(s, v); }, CARRIES(Smp::Services::InvalidEventId, e.GetInvalidEventId() == v)); break;
  case 11: raised<Smp::InvalidFieldName>("InvalidFieldName", s, {path(s), "'" + n.s + "'"}, {&n}, [&] { E::throwInvalidFieldName(s, n.b); }, CARRIES(Smp::InvalidFieldName, is(e.GetFieldName(), n.s))); break;
  case 12: raised<Smp::Publication::TypeNotRegistered>("TypeNotRegistered", s, {str(fl::id(5))}, {}, [&] { E::throwTypeNotRegistered(s, fl::id(5)); }, CARRIES(Smp::Publication::TypeNotRegistered, e.GetUuid() == fl::id(5))); break;
  case 13: raised<Smp::InvalidParameterIndex>("InvalidParameterIndex", w.op, {path(w.op), "has '" + str(i2) + "'", "index '" + str(i) + "'"}, {}, [&] { E::throwInvalidParameterIndex(w.op, i, i2); }, CARRIES(Smp::InvalidParameterIndex, is(e.GetOperationName(), "op") && e.GetParameterIndex() == i && e.GetParameterCount() == i2)); break;
  case 14: raised<Smp::VoidOperation>("VoidOperation", w.op, {path(w.op)}, {}, [&] { E::throwVoidOperation(w.op); }, CARRIES(Smp::VoidOperation, is(e.GetOperationName(), "op"))); break;
  case 15: raised<Smp::InvalidReturnValue>("InvalidReturnValue", w.op, {path(w.op), str(i)}, {}, [&] { E::throwInvalidReturnValue(w.op, AnySimple(PTK::PTK_Int32, i)); }, CARRIES(Smp::InvalidReturnValue, is(e.GetOperationName(), "op") && same(e.GetValue(), i))); break;
  default: { Text vt(!k); AnySimple a(PTK::PTK_String8, vt.b); raised<Smp::InvalidParameterValue>("InvalidParameterValue", s, {path(s), "'" + n.s + "'", vt.s}, {&n, &vt}, [&] { E::throwInvalidParameterValue(s, n.b, a); a = AnySimple(); }, CARRIES(Smp::InvalidParameterValue, is(e.GetParameterName(), n.s) && e.GetValue().GetType() == PTK::PTK_String8 && is(e.GetValue().value.string8Value, vt.s))); break; }
  }
}
inline void kinds() {
  World w;
  Obj s = sym_bool("has sender") ? &w.root : nullptr;
  const bool k = sym_bool("name");
  Text n(k), m(!k);
  const auto v = any64("value"), v2 = any64("second value"), v3 = any64("third value");
  const auto err = sym_choose("error", 9);
  const bool kinds = err == 0 || err == 5 || err == 6;
  const PTK a = kinds ? anyKind("kind") : PTK::PTK_None, b = kinds ? anyKind2(a, "second kind") : a;
  switch (err) {
  case 0: raised<Smp::InvalidAnyType>("InvalidAnyType", s, {"type '" + str(b) + "'", "expected '" + str(a) + "'"}, {}, [&] { E::throwInvalidAnyType(s, a, b); }, CARRIES(Smp::InvalidAnyType, e.GetExpectedType() == a && e.GetInvalidType() == b)); break;
  case 1: raised<Smp::LibraryNotFound>("LibraryNotFound", s, {m.s}, {&n, &m}, [&] { E::throwLibraryNotFound(s, n.b, m.b); }, CARRIES(Smp::LibraryNotFound, is(e.GetLibraryName(), n.s))); break;
  case 2: raised<Smp::InvalidLibrary>("InvalidLibrary", s, {m.s}, {&n, &m}, [&] { E::throwInvalidLibrary(s, n.b, m.b); }, CARRIES(Smp::InvalidLibrary, is(e.GetLibraryName(), n.s))); break;
  case 3: raised<Smp::Services::InvalidSimulationTime>("InvalidSimulationTime", s, {"time '" + str(v2) + "'", "between '" + str(v) + "' and '" + str(v3) + "'"}, {}, [&] { E::throwInvalidSimulationTime(s, v, v2, v3); }, CARRIES(Smp::Services::InvalidSimulationTime, e.GetCurrentTime() == v && e.GetProvidedTime() == v2 && e.GetMaximumTime() == v3)); break;
  case 4: raised<Smp::Publication::DuplicateLiteral>("DuplicateLiteral", s, {"'" + n.s + "'", "'" + str((std::int32_t)v) + "'"}, {&n}, [&] { E::throwDuplicateLiteral(s, n.b, (std::int32_t)v); }, CARRIES(Smp::Publication::DuplicateLiteral, is(e.GetLiteralName(), n.s) && e.GetLiteralValue() == (std::int32_t)v)); break;
  case 5: raised<Smp::Publication::InvalidPrimitiveType>("InvalidPrimitiveType", s, {"'" + n.s + "'", "type '" + str(a) + "'"}, {&n}, [&] { E::throwInvalidPrimitiveType(s, n.b, a); }, CARRIES(Smp::Publication::InvalidPrimitiveType, is(e.GetTypeName(), n.s) && e.GetType() == a)); break;
  case 6: raised<Smp::InvalidFieldType>("InvalidFieldType", s, {"'" + str(a) + "'", path(s)}, {}, [&] { E::throwInvalidFieldType(s, a); }, CARRIES(Smp::InvalidFieldType, true)); break;
  case 7: raised<Smp::InvalidFieldType>("InvalidFieldType", s, {str(fl::id(6)), path(s)}, {}, [&] { E::throwInvalidFieldType(s, fl::id(6)); }, CARRIES(Smp::InvalidFieldType, true)); break;
  default: raised<Smp::InvalidFieldType>("InvalidFieldType", s, {"'Arr'", path(s)}, {}, [&] { E::throwInvalidFieldType(s, w.t.reg.GetType(fl::id(1))); }, CARRIES(Smp::InvalidFieldType, true)); break;
  }
}
}
#endif
