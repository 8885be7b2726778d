// P09: errors carry what they are about. Raised by the library itself: the sender is the object that refused,
// and the objects, values, kinds and names are the ones of the refused request.
// SOURCES: src/Xsmp/Exception.cpp src/Xsmp/Helper.cpp src/Xsmp/cstring.cpp src/Xsmp/Container.cpp src/Xsmp/Reference.cpp src/Xsmp/Component.cpp src/Xsmp/Field.cpp src/Xsmp/Object.cpp src/Xsmp/EventSource.cpp src/Xsmp/EventSink.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Property.cpp src/Xsmp/Publication/Request.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Request.cpp src/Xsmp/Factory.cpp src/Xsmp/FactoryCollection.cpp src/Smp/AnySimple.cpp src/Xsmp/Simulator.cpp
// FLAGS: @fake
// ENTRY p09_at_components
// ENTRY p09_at_fields
// ENTRY p09_at_published
// ENTRY p09_at_types
// ENTRY p09_at_requests
// ENTRY p09_at_values
// ENTRY p09_at_services --preempt=0
#include "exclib.h"
#include "schedlib.h"
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Xsmp/Collection.h>
#include <Xsmp/FactoryCollection.h>
#include <Xsmp/Publication/Property.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Publication/Type.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Request.h>
using namespace ex;
namespace {
namespace XP = ::Xsmp::Publication;
using PDK = Smp::Publication::ParameterDirectionKind;
#define RAISES(X, sender, call, ...) raised<Smp::X>(base(#X), sender, {}, {}, [&] { call; }, [&](const Smp::X &e) { (void)e; return __VA_ARGS__; })
constexpr const char *base(const char *n) { const char *r = n; for (; *n; n++) if (*n == ':') r = n + 1; return r; }
struct Plain : ::Xsmp::Component { using Component::Component; };
}
ENTRY(p09_at_components) {
  World w;
  switch (sym_choose("refused", 18)) {
  case 0: { ::Xsmp::Container<Smp::IComponent> c("c", "", &w.owner, 0, 0); Part p("p", "", &w.owner, nullptr);
    RAISES(ContainerFull, &c, c.AddComponent(&p), is(e.GetContainerName(), "c") && e.GetContainerSize() == 0); break; }
  case 1: { ::Xsmp::Container<Owner> c("c", "", &w.owner, 0, -1); Part p("p", "", &w.owner, nullptr);
    RAISES(InvalidObjectType, &c, c.AddComponent(&p), e.GetInvalidObject() == static_cast<Obj>(&p)); break; }
  case 2: { Part p("part", "", &w.owner, nullptr); RAISES(DuplicateName, &w.box, w.box.AddComponent(&p), is(e.GetDuplicateName(), "part")); break; }
  case 3: { const auto low = 1 + (Smp::Int64)sym_choose("lower", 2); ::Xsmp::Container<Smp::IComponent> c("c", "", &w.owner, low, -1); auto *p = new Part("p", "", &w.owner, nullptr); c.AddComponent(p);
    RAISES(CannotDelete, &c, c.DeleteComponent(p), is(e.GetContainerName(), "c") && e.GetComponent() == p && e.GetLowerLimit() == low); break; }
  case 4: RAISES(NotContained, &w.box, w.box.DeleteComponent(&w.other), is(e.GetContainerName(), "box") && e.GetComponent() == &w.other); break;
  case 5: { ::Xsmp::Reference<Smp::IComponent> r("r", "", static_cast<::Xsmp::Aggregate *>(&w.owner), 0, 1); r.AddComponent(w.part);
    RAISES(ReferenceFull, &r, r.AddComponent(&w.other), is(e.GetReferenceName(), "r") && e.GetReferenceSize() == 1); break; }
  case 6: { ::Xsmp::Reference<Owner> r("r", "", static_cast<::Xsmp::Aggregate *>(&w.owner), 0, -1);
    RAISES(InvalidObjectType, &r, r.AddComponent(&w.other), e.GetInvalidObject() == static_cast<Obj>(&w.other)); break; }
  case 7: { const auto low = 1 + (Smp::Int64)sym_choose("lower", 2); ::Xsmp::Reference<Smp::IComponent> r("r", "", static_cast<::Xsmp::Aggregate *>(&w.owner), low, -1); r.AddComponent(w.part);
    RAISES(CannotRemove, &r, r.RemoveComponent(w.part), is(e.GetReferenceName(), "r") && e.GetComponent() == w.part && e.GetLowerLimit() == low); break; }
  case 8: w.ref.AddComponent(w.part); RAISES(NotReferenced, &w.ref, w.ref.RemoveComponent(&w.other), is(e.GetReferenceName(), "ref") && e.GetComponent() == &w.other); break;
  case 9: { ::Xsmp::EventSink<Smp::Int32> s("sink", "", static_cast<Smp::IObject *>(&w.other), [](Smp::IObject *, Smp::Int32) {}, PTK::PTK_Int32);
    RAISES(InvalidEventSink, &w.source, w.source.Subscribe(&s), e.GetEventSource() == &w.source && e.GetEventSink() == &s); break; }
  case 10: { ::Xsmp::EventSink<void> s("sink", "", static_cast<Smp::IObject *>(&w.other), [](Smp::IObject *) {}); w.source.Subscribe(&s);
    RAISES(EventSinkAlreadySubscribed, &w.source, w.source.Subscribe(&s), e.GetEventSource() == &w.source && e.GetEventSink() == &s); w.source.Unsubscribe(&s); break; }
  case 11: { ::Xsmp::EventSink<void> s("sink", "", static_cast<Smp::IObject *>(&w.other), [](Smp::IObject *) {}), o("o", "", static_cast<Smp::IObject *>(&w.other), [](Smp::IObject *) {}); w.source.Subscribe(&o);
    RAISES(EventSinkNotSubscribed, &w.source, w.source.Unsubscribe(&s), e.GetEventSource() == &w.source && e.GetEventSink() == &s); w.source.Unsubscribe(&o); break; }
  case 12: { ::Xsmp::EventSink<void> s("sink", "", static_cast<Smp::IObject *>(&w.other), [](Smp::IObject *) {});
    raised<Smp::InvalidAnyType>("InvalidAnyType", nullptr, {}, {}, [&] { s.Notify(nullptr, AnySimple(PTK::PTK_Int32, Smp::Int32(4))); }, CARRIES(Smp::InvalidAnyType, e.GetExpectedType() == PTK::PTK_None && e.GetInvalidType() == PTK::PTK_Int32)); break; }
  case 13: { ::Xsmp::ContainingCollection<Smp::IEntryPoint> c("list", "", &w.owner); c.Add<::Xsmp::EntryPoint>("a", "", static_cast<Smp::IObject *>(&w.owner), [] {});
    RAISES(DuplicateName, &c, c.Add<::Xsmp::EntryPoint>("a", "", static_cast<Smp::IObject *>(&w.owner), [] {}), is(e.GetDuplicateName(), "a")); break; }
  case 14: { Part a("a", "", &w.root, nullptr); ::Xsmp::Collection<Smp::IComponent> c("list", "", &w.owner); c.Add(&a); Part b("a", "", &w.owner, nullptr);
    RAISES(DuplicateName, &c, c.Add(&b), is(e.GetDuplicateName(), "a")); break; }
  case 15: { // a component in each state, each transition
    Plain c("c", "", &w.root);
    const auto st = sym_choose("state", 5), op = sym_choose("operation", 4);
    sym_assume(st != op);
    XP::Publication p(&c, &w.t.reg);
    static sl::Logger *lg = nullptr;
    ::Xsmp::Simulator sim("sim", "");
    if (st > 0) c.Publish(&p);
    if (st > 1) c.Configure(lg, nullptr);
    if (st > 2) c.Connect(&sim);
    if (st > 3) c.Disconnect();
    static const CSK cur[] = {CSK::CSK_Created, CSK::CSK_Publishing, CSK::CSK_Configured, CSK::CSK_Connected, CSK::CSK_Disconnected};
    RAISES(InvalidComponentState, static_cast<Obj>(&c), if (op == 0) c.Publish(&p); else if (op == 1) c.Configure(lg, nullptr); else if (op == 2) c.Connect(&sim); else c.Disconnect(), e.GetInvalidState() == cur[st] && e.GetExpectedState() == cur[op]);
    break; }
  case 16: { // the names a new object may not have
    static const char *bad[] = {"1a", "[", "[x]", "[1", "a-b", "a[1"};
    const char *b = bad[sym_choose("name", 6)];
    RAISES(InvalidObjectName, &w.owner, Part p(b, "", &w.owner, nullptr), is(e.GetInvalidName(), b)); break; }
  default: { // DuplicateUuid
    ::Xsmp::FactoryCollection fs(&w.owner);
    fs.Add(::Xsmp::Factory::Create<Part>("first", "", nullptr, fl::id(9)));
    auto *second = ::Xsmp::Factory::Create<Part>("second", "", nullptr, fl::id(9));
    RAISES(DuplicateUuid, &fs, fs.Add(second), is(e.GetOldName(), "first") && is(e.GetNewName(), "second")); break; }
  }
}
ENTRY(p09_at_fields) {
  World w;
  const auto i = sym_u64("index");
  Smp::Int32 v = (Smp::Int32)sym_u32("value");
  const AnySimple good(PTK::PTK_Int32, v), bad(PTK::PTK_UInt32, (Smp::UInt32)v);
  switch (sym_choose("refused", 12)) {
  case 0: sym_assume(i >= 2); RAISES(InvalidArrayIndex, &w.arr, w.arr.GetItem(i), e.GetArraySize() == 2 && e.GetInvalidIndex() == (Smp::Int64)i); break;
  case 1: sym_assume(i >= 3); RAISES(InvalidArrayIndex, &w.sarr, w.sarr.GetValue(i), e.GetArraySize() == 3 && e.GetInvalidIndex() == (Smp::Int64)i); break;
  case 2: sym_assume(i >= 3); RAISES(InvalidArrayIndex, &w.sarr, w.sarr.SetValue(i, good), e.GetArraySize() == 3 && e.GetInvalidIndex() == (Smp::Int64)i); break;
  case 3: { AnySimple a[3]; sym_assume(i != 3); RAISES(InvalidArraySize, &w.sarr, w.sarr.GetValues(i, a), e.GetArraySize() == 3 && e.GetInvalidSize() == (Smp::Int64)i); break; }
  case 4: { AnySimple a[3]; sym_assume(i != 3); RAISES(InvalidArraySize, &w.sarr, w.sarr.SetValues(i, a), e.GetArraySize() == 3 && e.GetInvalidSize() == (Smp::Int64)i); break; }
  case 5: { const auto at = sym_choose("at", 3); AnySimple a[3] = {good, good, good}; a[at] = bad;
    RAISES(InvalidArrayValue, &w.sarr, w.sarr.SetValues(3, a), e.GetInvalidValueIndex() == (Smp::Int64)at && e.GetInvalidValue().type == PTK::PTK_UInt32 && e.GetInvalidValue().value.uInt32Value == (Smp::UInt32)v); break; }
  case 6: RAISES(InvalidFieldValue, &w.sarr, w.sarr.SetValue(1, bad), e.GetInvalidFieldValue().type == PTK::PTK_UInt32 && e.GetInvalidFieldValue().value.uInt32Value == (Smp::UInt32)v); break;
  case 7: w.out.Connect(&w.in); RAISES(FieldAlreadyConnected, &w.out, w.out.Connect(&w.in), e.GetSource() == &w.out && e.GetTarget() == &w.in); break;
  case 8: RAISES(InvalidTarget, &w.out, w.out.Connect(&w.out), e.GetSource() == &w.out && e.GetTarget() == &w.out); break;
  case 9: RAISES(InvalidTarget, &w.out, w.out.Connect(&w.arr), e.GetSource() == &w.out && e.GetTarget() == &w.arr); break;
  case 10: {
    ::Xsmp::Field<fl::Arr>::output o(&w.t.reg, fl::id(1), "o", "", &w.owner); ::Xsmp::Field<fl::Arr>::input n(&w.t.reg, fl::id(1), "n", "", &w.other);
    RAISES(InvalidTarget, &o, o.Connect(&w.in), e.GetSource() == &o && e.GetTarget() == &w.in);
    o.Connect(&n);
    RAISES(FieldAlreadyConnected, &o, o.Connect(&n), e.GetSource() == &o && e.GetTarget() == &n);
    break; }
  default: {
    ::Xsmp::Field<fl::SArr>::output o(&w.t.reg, fl::id(2), "o", "", &w.owner); ::Xsmp::Field<fl::SArr>::input n(&w.t.reg, fl::id(2), "n", "", &w.other);
    RAISES(InvalidTarget, &o, o.Connect(&w.in), e.GetSource() == &o && e.GetTarget() == &w.in);
    o.Connect(&n);
    RAISES(FieldAlreadyConnected, &o, o.Connect(&n), e.GetSource() == &o && e.GetTarget() == &n);
    break; }
  }
}
ENTRY(p09_at_published) {
  World w;
  const auto i = sym_u64("index");
  Smp::Int32 v = (Smp::Int32)sym_u32("value"), x = 0, xs[3] = {0, 0, 0};
  fl::St st{};
  const AnySimple good(PTK::PTK_Int32, v), bad(PTK::PTK_UInt32, (Smp::UInt32)v);
  auto *en = w.t.reg.AddEnumerationType("En", "", fl::id(20), 4);
  en->AddLiteral("one", "", 1);
  w.t.reg.AddArrayType("Ens", "", fl::id(21), fl::id(20), 4, 3, true);
  switch (sym_choose("refused", 9)) {
  case 0: { w.pub.PublishField("f", "", xs, fl::id(2), Smp::ViewKind::VK_None, true, false, false); auto *f = dynamic_cast<Smp::ISimpleArrayField *>(w.pub.GetField("f")); sym_assume(i >= 3);
    if (sym_bool("set")) RAISES(InvalidArrayIndex, f, f->SetValue(i, good), e.GetArraySize() == 3 && e.GetInvalidIndex() == (Smp::Int64)i);
    else RAISES(InvalidArrayIndex, f, f->GetValue(i), e.GetArraySize() == 3 && e.GetInvalidIndex() == (Smp::Int64)i);
    break; }
  case 1: { w.pub.PublishField("f", "", xs, fl::id(2), Smp::ViewKind::VK_None, true, false, false); auto *f = dynamic_cast<Smp::ISimpleArrayField *>(w.pub.GetField("f")); AnySimple a[3]; sym_assume(i != 3);
    if (sym_bool("set")) RAISES(InvalidArraySize, f, f->SetValues(i, a), e.GetArraySize() == 3 && e.GetInvalidSize() == (Smp::Int64)i);
    else RAISES(InvalidArraySize, f, f->GetValues(i, a), e.GetArraySize() == 3 && e.GetInvalidSize() == (Smp::Int64)i);
    break; }
  case 2: { w.pub.PublishField("f", "", xs, fl::id(2), Smp::ViewKind::VK_None, true, false, false); auto *f = dynamic_cast<Smp::ISimpleArrayField *>(w.pub.GetField("f"));
    const auto at = sym_choose("at", 3); AnySimple a[3] = {good, good, good}; a[at] = bad;
    RAISES(InvalidArrayValue, f, f->SetValues(3, a), e.GetInvalidValueIndex() == (Smp::Int64)at && e.GetInvalidValue().type == PTK::PTK_UInt32); break; }
  case 3: { w.pub.PublishField("f", "", &x, fl::id(20), Smp::ViewKind::VK_None, true, false, false); auto *f = dynamic_cast<Smp::ISimpleField *>(w.pub.GetField("f")); sym_assume(v != 1);
    RAISES(InvalidFieldValue, f, f->SetValue(good), same(e.GetInvalidFieldValue(), v)); break; }
  case 4: { w.pub.PublishField("f", "", xs, fl::id(21), Smp::ViewKind::VK_None, true, false, false); auto *f = dynamic_cast<Smp::ISimpleArrayField *>(w.pub.GetField("f")); sym_assume(v != 1);
    const auto at = sym_choose("at", 3);
    RAISES(InvalidArrayValue, f, f->SetValue(at, good), e.GetInvalidValueIndex() == (Smp::Int64)at && same(e.GetInvalidValue(), v)); break; }
  case 5: { w.pub.PublishField("o", "", &x, U::Uuid_Int32, Smp::ViewKind::VK_None, true, false, true); auto *o = dynamic_cast<Smp::IDataflowField *>(w.pub.GetField("o"));
    RAISES(InvalidTarget, dynamic_cast<Obj>(o), o->Connect(&w.out), e.GetSource() == dynamic_cast<const Smp::IField *>(o) && e.GetTarget() == &w.out);
    o->Connect(&w.in);
    RAISES(FieldAlreadyConnected, dynamic_cast<Obj>(o), o->Connect(&w.in), e.GetSource() == dynamic_cast<const Smp::IField *>(o) && e.GetTarget() == &w.in); break; }
  case 6: { w.pub.PublishField("s", "", &st, fl::id(3), Smp::ViewKind::VK_None, true, false, false); auto *a = dynamic_cast<Smp::IArrayField *>(w.pub.GetField("s.q")); sym_assume(i >= 2);
    RAISES(InvalidArrayIndex, a, a->GetItem(i), e.GetArraySize() == 2 && e.GetInvalidIndex() == (Smp::Int64)i); break; }
  case 7: RAISES(InvalidFieldName, &w.owner, w.pub.GetField("none"), is(e.GetFieldName(), "none")); break;
  default: if (sym_bool("property")) RAISES(Publication::TypeNotRegistered, &w.owner, w.pub.PublishProperty("p", "", fl::id(33), Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_None), e.GetUuid() == fl::id(33));
    else RAISES(Publication::TypeNotRegistered, &w.owner, w.pub.PublishField("f", "", &x, fl::id(33), Smp::ViewKind::VK_None, true, false, false), e.GetUuid() == fl::id(33));
  }
}
ENTRY(p09_at_types) {
  World w;
  auto &r = w.t.reg;
  const PTK k = anyKind("kind");
  const Smp::Int32 v = (Smp::Int32)sym_u32("value");
  switch (sym_choose("refused", 7)) {
  case 0: RAISES(Publication::TypeAlreadyRegistered, &r, r.AddStructureType("Again", "", fl::id(2)), is(e.GetTypeName(), "Again") && e.GetType() == r.GetType(fl::id(2))); break;
  case 1: sym_assume(k != PTK::PTK_Float32 && k != PTK::PTK_Float64); RAISES(Publication::InvalidPrimitiveType, &r, r.AddFloatType("F", "", fl::id(30), 0, 1, true, true, "", k), is(e.GetTypeName(), "F") && e.GetType() == k); break;
  case 2: sym_assume(!(k >= PTK::PTK_Int8 && k <= PTK::PTK_UInt64)); RAISES(Publication::InvalidPrimitiveType, &r, r.AddIntegerType("I", "", fl::id(30), 0, 1, "", k), is(e.GetTypeName(), "I") && e.GetType() == k); break;
  case 3: RAISES(Publication::TypeNotRegistered, &r, r.AddArrayType("A", "", fl::id(30), fl::id(31), 4, 2, true), e.GetUuid() == fl::id(31)); break;
  case 4: RAISES(Publication::TypeNotRegistered, &r, r.AddClassType("C", "", fl::id(30), fl::id(31)), e.GetUuid() == fl::id(31)); break;
  case 5: { auto *e1 = r.AddEnumerationType("E", "", fl::id(30), 4); e1->AddLiteral("first", "", v); RAISES(Publication::DuplicateLiteral, e1, e1->AddLiteral("second", "", v), is(e.GetLiteralName(), "first") && e.GetLiteralValue() == v); break; }
  default: RAISES(Publication::TypeNotRegistered, w.op, w.op->PublishParameter("p", "", fl::id(31), PDK::PDK_In), e.GetUuid() == fl::id(31));
  }
}
namespace {
struct Called : ::Xsmp::Model {
  using Model::Model;
  void Invoke(Smp::IRequest *) override {}
};
const char *params[] = {"m", "z", "a"};
struct Requests {
  fl::Types t;
  Called m{"m", "", nullptr, nullptr};
  XP::Publication pub{&m, &t.reg};
  XP::Operation *op = dynamic_cast<XP::Operation *>(pub.PublishOperation("op", "", Smp::ViewKind::VK_None)), *fn = dynamic_cast<XP::Operation *>(pub.PublishOperation("fn", "", Smp::ViewKind::VK_None));
  Requests() {
    t.reg.AddIntegerType("Small", "", fl::id(40), 0, 9, "", PTK::PTK_Int32);
    for (auto *n : params) op->PublishParameter(n, "", fl::id(40), PDK::PDK_InOut);
    fn->PublishParameter("r", "", fl::id(40), PDK::PDK_Return);
    pub.PublishProperty("pr", "", fl::id(40), Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_None);
  }
};
}
ENTRY(p09_at_requests) {
  Requests q;
  const Smp::Int32 i = (Smp::Int32)sym_u32("index");
  const AnySimple big(PTK::PTK_Int32, Smp::Int32(10)), wrong(PTK::PTK_UInt8, Smp::UInt8(3));
  switch (sym_choose("refused", 14)) {
  case 0: { std::unique_ptr<Smp::IRequest> r{q.op->CreateRequest()}; sym_assume(i < 0 || i > 2);
    if (sym_bool("set")) RAISES(InvalidParameterIndex, q.op, r->SetParameterValue(i, big), is(e.GetOperationName(), "op") && e.GetParameterIndex() == i && e.GetParameterCount() == 3);
    else RAISES(InvalidParameterIndex, q.op, r->GetParameterValue(i), is(e.GetOperationName(), "op") && e.GetParameterIndex() == i && e.GetParameterCount() == 3);
    break; }
  case 1: { std::unique_ptr<Smp::IRequest> r{q.op->CreateRequest()}; const auto at = sym_choose("parameter", 3); RAISES(InvalidParameterValue, q.op, r->SetParameterValue((Smp::Int32)at, big), is(e.GetParameterName(), params[at]) && same(e.GetValue(), 10)); break; }
  case 2: { std::unique_ptr<Smp::IRequest> r{q.op->CreateRequest()}; const auto at = sym_choose("parameter", 3);
    RAISES(InvalidAnyType, q.op, r->SetParameterValue((Smp::Int32)at, wrong), e.GetExpectedType() == PTK::PTK_Int32 && e.GetInvalidType() == PTK::PTK_UInt8); break; }
  case 3: { std::unique_ptr<Smp::IRequest> r{q.op->CreateRequest()}; RAISES(VoidOperation, q.op, if (sym_bool("set")) r->SetReturnValue(big); else r->GetReturnValue(), is(e.GetOperationName(), "op")); break; }
  case 4: { std::unique_ptr<Smp::IRequest> r{q.fn->CreateRequest()}; RAISES(InvalidReturnValue, q.fn, r->SetReturnValue(big), is(e.GetOperationName(), "fn") && same(e.GetValue(), 10)); break; }
  case 5: { std::unique_ptr<Smp::IRequest> r{q.fn->CreateRequest()}; RAISES(InvalidAnyType, q.fn, r->SetReturnValue(wrong), e.GetExpectedType() == PTK::PTK_Int32 && e.GetInvalidType() == PTK::PTK_UInt8); break; }
  case 6: { std::unique_ptr<Smp::IRequest> r{q.fn->CreateRequest()}; RAISES(InvalidOperationName, q.op, q.op->Invoke(r.get()), is(e.GetOperationName(), "fn")); break; }
  case 7: { auto *o = dynamic_cast<XP::Operation *>(q.pub.PublishOperation("op2", "", Smp::ViewKind::VK_None)); std::unique_ptr<Smp::IRequest> r{o->CreateRequest()};
    o->PublishParameter("late", "", U::Uuid_Int32, PDK::PDK_In);
    RAISES(InvalidParameterCount, o, o->Invoke(r.get()), is(e.GetOperationName(), "op2") && e.GetOperationParameters() == 1 && e.GetRequestParameters() == 0); break; }
  case 8: { RAISES(DuplicateName, q.fn, q.fn->PublishParameter("x", "", U::Uuid_Int32, PDK::PDK_In); q.fn->PublishParameter("r", "", U::Uuid_Int32, PDK::PDK_In), true); break; }
  case 9: { auto *p = dynamic_cast<XP::Property *>(q.pub.GetProperties()->at("pr")); std::unique_ptr<Smp::IRequest> r{q.pub.CreateRequest("get_pr")}; sym_assume(r != nullptr);
    switch (sym_choose("use", 4)) {
    case 0: RAISES(InvalidParameterIndex, p, r->SetParameterValue(i, big), e.GetParameterIndex() == i && e.GetParameterCount() == 0); break;
    case 1: RAISES(InvalidParameterIndex, p, r->GetParameterValue(i), e.GetParameterIndex() == i && e.GetParameterCount() == 0); break;
    case 2: RAISES(InvalidReturnValue, p, r->SetReturnValue(big), same(e.GetValue(), 10)); break;
    default: RAISES(InvalidAnyType, p, r->SetReturnValue(wrong), e.GetExpectedType() == PTK::PTK_Int32 && e.GetInvalidType() == PTK::PTK_UInt8);
    }
    break; }
  case 10: { auto *p = dynamic_cast<XP::Property *>(q.pub.GetProperties()->at("pr")); std::unique_ptr<Smp::IRequest> r{q.pub.CreateRequest("set_pr")}; sym_assume(r != nullptr);
    switch (sym_choose("use", 4)) {
    case 0: sym_assume(i != 0); RAISES(InvalidParameterIndex, p, if (sym_bool("set")) r->SetParameterValue(i, big); else r->GetParameterValue(i), e.GetParameterIndex() == i && e.GetParameterCount() == 1); break;
    case 1: RAISES(InvalidParameterValue, p, r->SetParameterValue(0, big), is(e.GetParameterName(), "pr") && same(e.GetValue(), 10)); break;
    case 2: RAISES(VoidOperation, p, if (sym_bool("set")) r->SetReturnValue(big); else r->GetReturnValue(), true); break;
    default: RAISES(InvalidAnyType, p, r->SetParameterValue(0, wrong), e.GetExpectedType() == PTK::PTK_Int32 && e.GetInvalidType() == PTK::PTK_UInt8);
    }
    break; }
  case 11: { Part plain("plain", "", nullptr, nullptr); std::unique_ptr<Smp::IRequest> r{q.op->CreateRequest()}; RAISES(InvalidOperationName, static_cast<Obj>(&plain), plain.Invoke(r.get()), is(e.GetOperationName(), "op")); break; }
  case 12: { auto *o = dynamic_cast<XP::Operation *>(q.pub.PublishOperation("op3", "", Smp::ViewKind::VK_None)); o->PublishParameter("a", "", U::Uuid_Int32, PDK::PDK_In); std::unique_ptr<Smp::IRequest> r{o->CreateRequest()}; r->SetParameterValue(0, big);
    auto *o2 = q.pub.PublishOperation("op3", "", Smp::ViewKind::VK_None); o2->PublishParameter("a", "", U::Uuid_UInt8, PDK::PDK_In);
    auto *o3 = dynamic_cast<XP::Operation *>(o2);
    RAISES(InvalidParameterType, o3, o3->Invoke(r.get()), is(e.GetOperationName(), "op3") && is(e.GetParameterName(), "a") && e.GetInvalidType() == PTK::PTK_Int32 && e.GetExpectedType() == PTK::PTK_UInt8); break; }
  default: { std::unique_ptr<Smp::IRequest> r{q.op->CreateRequest()}; r->SetParameterValue(2, AnySimple(PTK::PTK_Int32, Smp::Int32(4)));
    RAISES(InvalidParameterType, static_cast<Obj>(&q.m), (void)::Xsmp::Request::get<Smp::UInt8>(static_cast<const Smp::IComponent *>(&q.m), static_cast<const Smp::IRequest *>(r.get()), "a", PTK::PTK_UInt8), is(e.GetOperationName(), "op") && is(e.GetParameterName(), "a") && e.GetInvalidType() == PTK::PTK_Int32 && e.GetExpectedType() == PTK::PTK_UInt8); }
  }
}
namespace {
template <class T> void read(const AnySimple &a, PTK dst) {
  bool got = false;
  try { (void)static_cast<T>(a); }
  catch (const Smp::InvalidAnyType &e) {
    got = true;
    sym_check(e.GetExpectedType() == dst && e.GetInvalidType() == a.GetType(), "the error names the kind that was asked for and the kind of the value");
    sym_check(is(e.GetName(), "InvalidAnyType"), "the error has the name of its kind");
  }
  (void)got;
}
}
ENTRY(p09_at_values) {
  static const PTK src[] = {PTK::PTK_None, PTK::PTK_Bool, PTK::PTK_Int8, PTK::PTK_UInt16, PTK::PTK_Int32, PTK::PTK_UInt64, PTK::PTK_Int64, PTK::PTK_Char8};
  const PTK k = src[sym_choose("kind", 8)];
  const auto b = sym_u64("value");
  AnySimple a;
  switch (k) {
  case PTK::PTK_Bool: a = AnySimple(k, (b & 1) != 0); break;
  case PTK::PTK_Int8: a = AnySimple(k, (Smp::Int8)b); break;
  case PTK::PTK_UInt16: a = AnySimple(k, (Smp::UInt16)b); break;
  case PTK::PTK_Int32: a = AnySimple(k, (Smp::Int32)b); break;
  case PTK::PTK_UInt64: a = AnySimple(k, (Smp::UInt64)b); break;
  case PTK::PTK_Int64: a = AnySimple(k, (Smp::Int64)b); break;
  case PTK::PTK_Char8: a = AnySimple(k, (Smp::Char8)b); break;
  default: break;
  }
  switch (sym_choose("read as", 12)) {
  case 0: read<Smp::Int8>(a, PTK::PTK_Int8); break;
  case 1: read<Smp::UInt8>(a, PTK::PTK_UInt8); break;
  case 2: read<Smp::Int16>(a, PTK::PTK_Int16); break;
  case 3: read<Smp::UInt16>(a, PTK::PTK_UInt16); break;
  case 4: read<Smp::Int32>(a, PTK::PTK_Int32); break;
  case 5: read<Smp::UInt32>(a, PTK::PTK_UInt32); break;
  case 6: read<Smp::UInt64>(a, PTK::PTK_UInt64); break;
  case 7: read<Smp::Char8>(a, PTK::PTK_Char8); break;
  case 8: read<Smp::Float32>(a, PTK::PTK_Float32); break;
  case 9: read<Smp::Float64>(a, PTK::PTK_Float64); break;
  case 10: read<Smp::String8>(a, PTK::PTK_String8); break;
  default: read<Smp::Bool>(a, PTK::PTK_Bool); break;
  }
}
ENTRY(p09_at_services) {
  ::Xsmp::Simulator sim("sim", "");
  auto *lg = new sl::Logger("lg", "", &sim, nullptr);
  auto *em = new ::Xsmp::Services::XsmpEventManager("em", "", &sim, &sim);
  auto *sc = new ::Xsmp::Services::XsmpScheduler("sc", "", &sim, &sim);
  auto *tk = new ::Xsmp::Services::XsmpTimeKeeper("tk", "", &sim, &sim);
  sim.AddService(lg); sim.AddService(em); sim.AddService(sc); sim.AddService(tk);
  ::Xsmp::EntryPoint ep("ep", "", static_cast<Smp::IObject *>(&sim), [] {});
  using EM = Smp::Services::IEventManager;
  const auto t = (Smp::Int64)sym_u64("time") >> 2;
  const Obj s = sc, m = em;
  switch (sym_choose("refused", 11)) {
  case 1: sim.Connect(); sim.Abort(); RAISES(InvalidSimulatorState, &sim, sim.AddModel(nullptr), e.GetInvalidState() == SSK::SSK_Aborting); break;
  case 2: sim.Connect(); sim.Abort(); RAISES(InvalidSimulatorState, &sim, sim.AddService(lg), e.GetInvalidState() == SSK::SSK_Aborting); break;
  case 3: sim.Connect(); sym_assume(t < 0); RAISES(Services::InvalidEventTime, s, sc->AddSimulationTimeEvent(&ep, t), true); break;
  case 4: sim.Connect(); sym_assume(t <= 0); RAISES(Services::InvalidCycleTime, s, sc->AddSimulationTimeEvent(&ep, 5, t, 2), true); break;
  case 5: sim.Connect(); RAISES(Services::InvalidEventId, s, sc->RemoveEvent(77), e.GetInvalidEventId() == 77); break;
  case 6: sim.Connect(); sym_assume(t <= 0); { auto id = sc->AddSimulationTimeEvent(&ep, 5, 3, 2); RAISES(Services::InvalidCycleTime, s, sc->SetEventCycleTime(id, t), true); } break;
  case 7: sim.Connect(); RAISES(Services::InvalidEventId, m, em->Emit(77, true), e.GetInvalidEventId() == 77); break;
  case 8: sim.Connect(); em->Subscribe(EM::SMP_EnterExecutingId, &ep); RAISES(Services::EntryPointAlreadySubscribed, m, em->Subscribe(EM::SMP_EnterExecutingId, &ep), e.GetEntryPoint() == &ep && is(e.GetEventName(), EM::SMP_EnterExecuting)); break;
  case 9: sim.Connect(); RAISES(Services::EntryPointNotSubscribed, m, em->Unsubscribe(EM::SMP_LeaveStandbyId, &ep), e.GetEntryPoint() == &ep && is(e.GetEventName(), EM::SMP_LeaveStandby)); break;
  case 0: sim.Connect(); { sc->AddSimulationTimeEvent(&ep, 50); em->Emit(EM::SMP_PreSimTimeChangeId, true); sym_assume(t < 0 || t > 50);
    RAISES(Services::InvalidSimulationTime, static_cast<Obj>(tk), tk->SetSimulationTime(t), e.GetCurrentTime() == 0 && e.GetProvidedTime() == t && e.GetMaximumTime() == 50); } break;
  default: sim.Connect(); RAISES(Services::InvalidEventName, m, em->QueryEventId(""), true); break;
  }
}
