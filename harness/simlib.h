// Recording stand-ins for the standard services, used to observe a real Xsmp::Simulator.
#ifndef SIMLIB_H
#define SIMLIB_H
#include "hlib.h"
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/IResolver.h>
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/ITimeKeeper.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Model.h>
#include <Xsmp/Service.h>
#include "Xsmp/Simulator.h"
#include <atomic>
#include <functional>
#include <mutex>
#include <utility>
#include <vector>
namespace sl {
using EId = Smp::Services::EventId;
using EM = Smp::Services::IEventManager;
using SS = Smp::SimulatorStateKind;
struct Note { EId id; SS state; };
struct Events : Xsmp::Service, virtual EM {
  using Xsmp::Service::Service;
  std::vector<Note> log;
  std::vector<std::pair<EId, const Smp::IEntryPoint *>> subs;
  Smp::ISimulator *sim = nullptr;
  std::function<void(EId)> hook;
  EId QueryEventId(Smp::String8) override { return 0; }
  std::mutex mx;
  void Subscribe(EId e, const Smp::IEntryPoint *p) override {
    std::scoped_lock l(mx);
    for (auto &s : subs) if (s.first == e && s.second == p) ::Xsmp::Exception::throwException(this, "EntryPointAlreadySubscribed", "", "");
    subs.emplace_back(e, p);
  }
  void Unsubscribe(EId e, const Smp::IEntryPoint *p) override {
    std::scoped_lock l(mx);
    for (std::size_t i = 0; i < subs.size(); i++) if (subs[i].first == e && subs[i].second == p) { subs.erase(subs.begin() + (long)i); return; }
    ::Xsmp::Exception::throwException(this, "EntryPointNotSubscribed", "", "");
  }
  void Emit(EId e, bool = true) override {
    if (sim) { std::scoped_lock l(mx); log.push_back({e, sim->GetState()}); }
    if (hook) hook(e);
    std::vector<std::pair<EId, const Smp::IEntryPoint *>> copy;
    { std::scoped_lock l(mx); copy = subs; }
    for (auto &s : copy) if (s.first == e) s.second->Execute();
  }
};
struct Logger : Xsmp::Service, virtual Smp::Services::ILogger {
  using Xsmp::Service::Service;
  int count[5] = {0, 0, 0, 0, 0};
  const void *sender = nullptr;
  Smp::Services::LogMessageKind QueryLogMessageKind(Smp::String8) override { return 0; }
  void Log(const Smp::IObject *s, Smp::String8, Smp::Services::LogMessageKind k) override { std::scoped_lock l(mx); if (k >= 0 && k < 5) count[k]++; sender = s; }
  std::mutex mx;
};
struct Times : Xsmp::Service, virtual Smp::Services::ITimeKeeper {
  using Xsmp::Service::Service;
  std::atomic<Smp::Duration> sim{0};
  Smp::Duration epoch = 0, start = 0, zulu = 0;
  Smp::Duration GetSimulationTime() const override { return sim; }
  Smp::DateTime GetEpochTime() const override { return sim + epoch; }
  Smp::DateTime GetMissionStartTime() const override { return start; }
  Smp::Duration GetMissionTime() const override { return sim + epoch - start; }
  Smp::DateTime GetZuluTime() const override { return zulu; }
  void SetSimulationTime(Smp::Duration t) override { sim = t; }
  void SetEpochTime(Smp::DateTime t) override { epoch = t - sim; }
  void SetMissionStartTime(Smp::DateTime t) override { start = t; }
  void SetMissionTime(Smp::Duration t) override { start = sim + epoch - t; }
};
struct Links : Xsmp::Service, virtual Smp::Services::ILinkRegistry {
  using Xsmp::Service::Service;
  void AddLink(Smp::IComponent *, const Smp::IComponent *) override {}
  Smp::UInt32 GetLinkCount(const Smp::IComponent *, const Smp::IComponent *) const override { return 0; }
  bool RemoveLink(Smp::IComponent *, const Smp::IComponent *) override { return false; }
  const Smp::ComponentCollection *GetLinkSources(const Smp::IComponent *) const override { return nullptr; }
  bool CanRemove(const Smp::IComponent *) override { return true; }
  void RemoveLinks(const Smp::IComponent *) override {}
};
struct Resolver : Xsmp::Service, virtual Smp::Services::IResolver {
  using Xsmp::Service::Service;
  Smp::IObject *ResolveAbsolute(Smp::String8) override { return nullptr; }
  Smp::IObject *ResolveRelative(Smp::String8, const Smp::IComponent *) override { return nullptr; }
};
struct Sched : Xsmp::Service, virtual Smp::Services::IScheduler {
  using Xsmp::Service::Service;
  using D = Smp::Duration; using I = Smp::Int64; using P = const Smp::IEntryPoint *;
  std::vector<std::pair<EId, P>> posted;
  EId last = 0;
  Smp::Duration next = 0;
  EId add(P p) { posted.emplace_back(++last, p); return last; }
  EId AddImmediateEvent(P p) override { return add(p); }
  EId AddSimulationTimeEvent(P p, D t, D = 0, I = 0) override { next = t; return add(p); }
  EId AddMissionTimeEvent(P p, D, D = 0, I = 0) override { return add(p); }
  EId AddEpochTimeEvent(P p, Smp::DateTime, D = 0, I = 0) override { return add(p); }
  EId AddZuluTimeEvent(P p, Smp::DateTime, D = 0, I = 0) override { return add(p); }
  void SetEventSimulationTime(EId, D) override {}
  void SetEventMissionTime(EId, D) override {}
  void SetEventEpochTime(EId, Smp::DateTime) override {}
  void SetEventZuluTime(EId, Smp::DateTime) override {}
  void SetEventCycleTime(EId, D) override {}
  void SetEventRepeat(EId, I) override {}
  void RemoveEvent(EId e) override {
    for (std::size_t i = 0; i < posted.size(); i++) if (posted[i].first == e) { posted.erase(posted.begin() + (long)i); return; }
    ::Xsmp::Exception::throwInvalidEventId(this, e);
  }
  EId GetCurrentEventId() const override { return -1; }
  D GetNextScheduledEventTime() const override { return next; }
};
}
#endif
