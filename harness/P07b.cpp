// P07: the services package initialises and finalises each service package.
// ENTRY p07_services quick=3 thorough=4
#include "hlib.h"
#include "xsmp_services.cpp"

namespace {
int calls[6], finals[6];
::Smp::ISimulator *sims[6];
::Smp::Publication::ITypeRegistry *regs[6];
bool answers[6];
bool init(int i, ::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *r) { calls[i]++; sims[i] = s; regs[i] = r; return answers[i]; }
bool fin(int i) { finals[i]++; return answers[i]; }
}
#define PACKAGE(i, n) \
  extern "C" bool Initialise_##n(::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *r) { return init(i, s, r); } \
  extern "C" bool Finalise_##n() { return fin(i); }
PACKAGE(0, xsmp_logger)
PACKAGE(1, xsmp_time_keeper)
PACKAGE(2, xsmp_resolver)
PACKAGE(3, xsmp_event_manager)
PACKAGE(4, xsmp_link_registry)
PACKAGE(5, xsmp_scheduler)

// Histories over two simulators.
ENTRY(p07_services) {
  char mem[2], regMem;
  bool known[2] = {false, false};
  int inits = 0, fins = 0;
  auto *reg = sym_bool("registry") ? reinterpret_cast<::Smp::Publication::ITypeRegistry *>(&regMem) : nullptr;
  for (unsigned k = 0, n = (unsigned)sym_bound(4); k < n; k++) {
    int bad = (int)sym_choose("failing package", 7);
    for (int i = 0; i < 6; i++) answers[i] = i != bad;
    bool got;
    unsigned op = (unsigned)sym_choose("op", 4);
    bool called = false, failing = bad != 6;
    if (op < 2) {
      auto *s = reinterpret_cast<::Smp::ISimulator *>(&mem[op]);
      got = Initialise_xsmp_services(s, reg);
      if (!known[op]) {
        called = true;
        inits++;
        for (int i = 0; i < 6; i++) sym_check(sims[i] == s && regs[i] == reg, "each service package gets the simulator and the registry");
        sym_witness("initialised");
      }
      known[op] = true;
    } else if (op == 2) {
      got = Initialise_xsmp_services(nullptr, reg);
      sym_check(!got, "without a simulator nothing can be initialised");
    } else {
      got = Finalise_xsmp_services();
      if (known[0] || known[1]) { called = true; fins++; }
      known[0] = known[1] = false;
    }
    for (int i = 0; i < 6; i++) sym_check(calls[i] == inits && finals[i] == fins, "each service package is initialised once per simulator and finalised once");
    if (op != 2) sym_check(got == !(called && failing), "the answer is that of the service packages");
  }
}
