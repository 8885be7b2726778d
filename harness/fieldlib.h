// A type registry with an array, a simple array and a structure type, and the matching field types.
#ifndef FIELDLIB_H
#define FIELDLIB_H
#include "hlib.h"
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Uuid.h>
#include <Xsmp/Array.h>
#include <Xsmp/Field.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <cstddef>
namespace fl {
inline Smp::Uuid id(std::uint32_t n) { Smp::Uuid u{}; u.Data1 = 0xabc00000u + n; return u; }
using Arr = Xsmp::Array<Smp::Int32, 2>;
using SArr = Xsmp::Array<Smp::Int32, 3>::simple;
struct St {
  Smp::Int16 p;
  Arr q;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const St &v = {})
        : B(r, u, name, description, parent, view), p{r, Smp::Uuids::Uuid_Int16, "p", "", this, view, v.p}, q{r, id(1), "q", "", this, view, v.q} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename B::template Field<Smp::Int16> p;
    typename B::template Field<Arr> q;
    operator St() const { return {static_cast<Smp::Int16>(p), static_cast<Arr>(q)}; }
  };
};
struct Types {
  Xsmp::Publication::TypeRegistry reg;
  Types() {
    reg.AddArrayType("Arr", "", id(1), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 2, false);
    reg.AddArrayType("SArr", "", id(2), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 3, true);
    auto *s = reg.AddStructureType("St", "", id(3));
    s->AddField("p", "", Smp::Uuids::Uuid_Int16, offsetof(St, p));
    s->AddField("q", "", id(1), offsetof(St, q));
  }
};
}
#endif
