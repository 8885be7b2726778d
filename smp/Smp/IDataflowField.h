// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_IDATAFLOWFIELD_H
#define SMPSTUB_IDATAFLOWFIELD_H
#include <Smp/IField.h>
namespace Smp {
class IDataflowField : public virtual IField { public:
  ~IDataflowField() noexcept override = default;
virtual void Push() = 0;
virtual void Connect(IField *target) = 0;
};
}
#endif
