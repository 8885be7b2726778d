// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IEVENTSINK_H
#define SMPSTUB_IEVENTSINK_H
#include <Smp/AnySimple.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
class IEventSink : public virtual IObject { public:
  ~IEventSink() noexcept override = default;
virtual PrimitiveTypeKind GetEventArgType() const = 0;
virtual void Notify(IObject *sender, AnySimple value) = 0;
};
using EventSinkCollection = ICollection<IEventSink>;
}
#endif
