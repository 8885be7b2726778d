// P07: the service packages add their service to the simulator they are initialised for.
// SOURCES: src-gen/xsmp_event_manager.cpp src-gen/xsmp_link_registry.cpp src-gen/xsmp_resolver.cpp src-gen/xsmp_scheduler.cpp src-gen/xsmp_time_keeper.cpp src/Xsmp/Simulator.cpp
// ENTRY p07_package_service quick=2 thorough=3
#include "hlib.h"
#include <Smp/IService.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <xsmp_event_manager.h>
#include <xsmp_link_registry.h>
#include <xsmp_resolver.h>
#include <xsmp_scheduler.h>
#include <xsmp_time_keeper.h>
#include <cstring>

namespace {
struct Package {
  bool (*init)(::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *);
  bool (*fin)();
  const char *name;
  bool (*is)(::Smp::IService *);
};
template <typename T> bool is(::Smp::IService *s) { return dynamic_cast<T *>(s) != nullptr; }
using namespace ::Xsmp::Services;
const Package packages[5] = {
    {Initialise_xsmp_event_manager, Finalise_xsmp_event_manager, "XsmpEventManager", is<XsmpEventManager>},
    {Initialise_xsmp_link_registry, Finalise_xsmp_link_registry, "XsmpLinkRegistry", is<XsmpLinkRegistry>},
    {Initialise_xsmp_resolver, Finalise_xsmp_resolver, "XsmpResolver", is<XsmpResolver>},
    {Initialise_xsmp_scheduler, Finalise_xsmp_scheduler, "XsmpScheduler", is<XsmpScheduler>},
    {Initialise_xsmp_time_keeper, Finalise_xsmp_time_keeper, "XsmpTimeKeeper", is<XsmpTimeKeeper>},
};
}

ENTRY(p07_package_service) {
  const unsigned n = (unsigned)sym_bound(2);
  ::Xsmp::Simulator a, b;
  ::Xsmp::Simulator *sims[2] = {&a, &b};
  unsigned added[2] = {0, 0};
  bool has[2][5] = {};
  for (unsigned k = 0; k < n; k++) {
    const unsigned p = (unsigned)sym_choose("package", 5), s = (unsigned)sym_choose("simulator", 3);
    if (s == 2) {
      sym_check(!packages[p].init(nullptr, nullptr), "without a simulator nothing can be initialised");
      continue;
    }
    sym_check(packages[p].init(sims[s], sims[s]->GetTypeRegistry()), "initialised");
    if (!has[s][p]) added[s]++;
    has[s][p] = true;
    for (unsigned i = 0; i < 2; i++) {
      const auto *services = sims[i]->GetContainer("Services")->GetComponents();
      sym_check(services->size() == added[i], "each service is added once, to the simulator given");
      for (unsigned q = 0; q < 5; q++) {
        auto *x = sims[i]->GetService(packages[q].name);
        sym_check((x != nullptr) == has[i][q], "the service is found by its name");
        if (x) sym_check(packages[q].is(x) && x->GetParent() == static_cast<::Smp::IObject *>(sims[i]) && x->GetState() == ::Smp::ComponentStateKind::CSK_Created, "the service is of the package's kind, in the simulator");
      }
    }
    sym_check((a.GetEventManager() != nullptr) == has[0][0] && (a.GetLinkRegistry() != nullptr) == has[0][1] && (a.GetResolver() != nullptr) == has[0][2] && (a.GetScheduler() != nullptr) == has[0][3] && (a.GetTimeKeeper() != nullptr) == has[0][4], "the simulator uses the service");
  }
  for (unsigned q = 0; q < 5; q++) sym_check(packages[q].fin() && packages[q].fin(), "finalised");
}
