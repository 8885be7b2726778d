// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_SERVICES_ITIMEKEEPER_H
#define SMPSTUB_SERVICES_ITIMEKEEPER_H
#include <Smp/IService.h>
namespace Smp {
namespace Services {
class ITimeKeeper : public virtual IService { public:
  ~ITimeKeeper() noexcept override = default;
static constexpr const char *SMP_TimeKeeper = "TimeKeeper";
virtual Duration GetSimulationTime() const = 0;
virtual DateTime GetEpochTime() const = 0;
virtual DateTime GetMissionStartTime() const = 0;
virtual Duration GetMissionTime() const = 0;
virtual DateTime GetZuluTime() const = 0;
virtual void SetSimulationTime(Duration simulationTime) = 0;
virtual void SetEpochTime(DateTime epochTime) = 0;
virtual void SetMissionStartTime(DateTime missionStart) = 0;
virtual void SetMissionTime(Duration missionTime) = 0;
};
}
}
#endif
