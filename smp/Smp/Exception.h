// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_EXCEPTION_H
#define SMPSTUB_EXCEPTION_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
#include <exception>
namespace Smp {
class IObject;
class Exception : public std::exception { public:
  ~Exception() noexcept override = default;
  const char *what() const noexcept override = 0;
  virtual String8 GetName() const noexcept = 0;
  virtual String8 GetDescription() const noexcept = 0;
  virtual String8 GetMessage() const noexcept = 0;
  virtual const IObject *GetSender() const noexcept = 0;
};
}
#endif
