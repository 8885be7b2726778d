// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_ILOGGER_H
#define SMPSTUB_SERVICES_ILOGGER_H
#include <Smp/Services/LogMessageKind.h>
#include <Smp/IService.h>
namespace Smp {
namespace Services {
class ILogger : public virtual IService { public:
  ~ILogger() noexcept override = default;
static constexpr LogMessageKind LMK_Information = 0; static constexpr LogMessageKind LMK_Event = 1; static constexpr LogMessageKind LMK_Warning = 2; static constexpr LogMessageKind LMK_Error = 3; static constexpr LogMessageKind LMK_Debug = 4;
static constexpr const char *LMK_InformationName = "Information"; static constexpr const char *LMK_EventName = "Event"; static constexpr const char *LMK_WarningName = "Warning"; static constexpr const char *LMK_ErrorName = "Error"; static constexpr const char *LMK_DebugName = "Debug";
static constexpr const char *SMP_Logger = "Logger";
virtual LogMessageKind QueryLogMessageKind(String8 messageKindName) = 0;
virtual void Log(const IObject *sender, String8 message, LogMessageKind kind = 0) = 0;
};
}
}
#endif
