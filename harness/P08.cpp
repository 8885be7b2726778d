// P08: libraries loaded into a simulator, against a model of the dynamic loader.
// SOURCES: src/Xsmp/Simulator.cpp src/Xsmp/Container.cpp src/Xsmp/Composite.cpp src/Xsmp/Component.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/Object.cpp
// FLAGS: @fake
// ENTRY p08_history quick=4 thorough=5 weight=3
// ENTRY p08_nested quick=2 thorough=2 weight=2
// ENTRY p08_throwing
// ENTRY p08_states
// ENTRY p08_null
#include "simlib.h"
#include <Smp/InvalidLibrary.h>
#include <Smp/LibraryNotFound.h>
#include <dlfcn.h>
#include <string.h>
#include <string>
#include <typeinfo>
using namespace sl;

namespace {
// The libraries there are: which symbols they have and what their functions answer.
struct Lib {
  bool present = true, init = true, fin = true, initOk = true, finOk = true;
  int inits = 0, fins = 0;
  Smp::ISimulator *sim = nullptr, *finSim = nullptr;
  Smp::Publication::ITypeRegistry *reg = nullptr;
};
Lib libs[2];
const char *const files[2] = {"liba.so", "libb.so"};
std::string fins; // finalised libraries, in order
int opens, closes, models = -1;
const char *error;
int thrown = -1;                    // the library whose Initialise throws
const char *inner[2];               // library loaded by the Initialise of a library
bool innerFailed, asked;
SS finState;
struct Oops {};
int which(const void *h) { return h == &libs[0] ? 0 : h == &libs[1] ? 1 : -1; }
template <int I> bool initialise(Smp::ISimulator *s, Smp::Publication::ITypeRegistry *r) {
  Lib &l = libs[I];
  l.inits++;
  l.sim = s;
  l.reg = r;
  if (inner[I]) try { s->LoadLibrary(inner[I]); } catch (const Smp::Exception &) { innerFailed = true; }
  if (thrown == I) throw Oops();
  return l.initOk;
}
template <int I> bool finalise(Smp::ISimulator *s) {
  libs[I].fins++;
  libs[I].finSim = s;
  fins.push_back((char)('a' + I));
  finState = s->GetState();
  if (models >= 0) sym_check((int)s->GetContainer(Smp::ISimulator::SMP_SimulatorModels)->GetCount() == models, "the models still exist when a library is finalised");
  return libs[I].finOk;
}
namespace loader {
void *open(const char *n, int) {
  opens++;
  for (int i = 0; i < 2; i++) if (!strcmp(n, files[i]) && libs[i].present) { error = nullptr; return &libs[i]; }
  error = "cannot open";
  return nullptr;
}
void *symbol(void *h, const char *n) {
  int i = which(h);
  sym_check(i >= 0, "only libraries which were loaded are asked for symbols");
  error = nullptr;
  if (!strcmp(n, "Initialise") && libs[i].init) return i ? (void *)&initialise<1> : (void *)&initialise<0>;
  if (!strcmp(n, "Finalise") && libs[i].fin) return i ? (void *)&finalise<1> : (void *)&finalise<0>;
  error = "undefined symbol";
  return nullptr;
}
int close(void *h) { closes++; sym_check(which(h) >= 0, "only libraries which were loaded are closed"); return 0; }
char *text() { const char *e = error; error = nullptr; return (char *)e; }
}
struct M : Xsmp::Model { using Xsmp::Model::Model; };
struct World {
  Xsmp::Simulator *sim = new Xsmp::Simulator("sim", "");
  Logger *lg = nullptr;
  std::string want; // libraries to finalise, in the order of loading
  World(bool logged) {
    if (logged) { lg = new Logger("XsmpLogger", "", sim, nullptr); sim->AddService(lg); }
  }
  // 0 loaded, 1 not found, 2 invalid
  int load(int i) {
    const std::string name(1, (char)('a' + i));
    try { sim->LoadLibrary(name.c_str()); return 0; }
    catch (const Smp::LibraryNotFound &e) { check(e, e.GetLibraryName(), name); return 1; }
    catch (const Smp::InvalidLibrary &e) { check(e, e.GetLibraryName(), name); return 2; }
  }
  void check(const Smp::Exception &e, Smp::String8 lib, const std::string &name) {
    sym_check(e.GetSender() == static_cast<Smp::ISimulator *>(sim), "the error is the simulator's");
    sym_check(lib == name, "the error carries the library's name");
  }
  void destroy() {
    auto *s = static_cast<Smp::ISimulator *>(sim);
    const bool finalised = !want.empty();
    fins.clear();
    delete sim;
    std::string back(want.rbegin(), want.rend());
    sym_check(fins == back, "every library loaded is finalised once, in reverse order of loading, and no other");
    if (finalised) sym_check(libs[fins[0] - 'a'].finSim == s, "finalised with this simulator");
  }
};
void symbols(Lib &l) {
  l.present = sym_bool("present");
  if (!l.present) return;
  l.init = sym_bool("has Initialise");
  l.fin = sym_bool("has Finalise");
  if (l.init && l.fin) l.initOk = sym_bool("Initialise succeeds");
  l.finOk = sym_bool("Finalise succeeds");
}
int outcome(const Lib &l) { return !l.present ? 1 : l.init && l.fin && l.initOk ? 0 : 2; }
}
#define dlopen loader::open
#define dlsym loader::symbol
#define dlclose loader::close
#define dlerror loader::text
#include "Xsmp/LibraryHelper.cpp"
#undef dlopen
#undef dlsym
#undef dlclose
#undef dlerror

// Every history of loading, with the libraries changing in between.
ENTRY(p08_history) {
  World w(sym_bool("logger"));
  const int n = (int)sym_bound(3);
  for (int k = 0; k < n; k++) {
    const int i = (int)sym_choose("library", 2);
    Lib &l = libs[i];
    const bool loaded = w.want.find((char)('a' + i)) != std::string::npos;
    if (!loaded) symbols(l); // a library in use does not change
    else l.initOk = sym_bool("Initialise succeeds again");
    const int inits = l.inits;
    const int errors = w.lg ? w.lg->count[Smp::Services::ILogger::LMK_Error] : 0;
    const int o = w.load(i);
    sym_check(o == outcome(l), "a library is loaded exactly when it is there, has both functions and initialises");
    const bool called = l.present && l.init && l.fin;
    sym_check(l.inits == inits + (called ? 1 : 0), "Initialise is called once, and only when the library is valid");
    if (called) sym_check(l.sim == static_cast<Smp::ISimulator *>(w.sim) && l.reg == w.sim->GetTypeRegistry(), "with this simulator and its type registry");
    sym_check(libs[0].fins + libs[1].fins == 0, "nothing is finalised before the simulator is destroyed");
    if (w.lg) sym_check(w.lg->count[Smp::Services::ILogger::LMK_Error] == errors + (o ? 1 : 0), "every failure is logged as an error");
    if (!o) { w.want.push_back((char)('a' + i)); sym_witness("loaded"); }
    if (o == 1) sym_witness("not found");
    if (o == 2) sym_witness("invalid");
  }
  w.destroy();
}
// A library whose Initialise loads another one.
ENTRY(p08_nested) {
  World w(false);
  inner[0] = "b";
  symbols(libs[0]);
  symbols(libs[1]);
  for (unsigned k = 0, n = (unsigned)sym_bound(1); k < n; k++) {
    innerFailed = false;
    const bool called = libs[0].present && libs[0].init && libs[0].fin;
    const int o = w.load(0);
    sym_check(o == outcome(libs[0]), "the outcome of the outer library is its own");
    if (called) {
      sym_check(innerFailed == (outcome(libs[1]) != 0), "the outcome of the inner library is its own");
      if (!innerFailed) w.want.push_back('b');
    }
    if (!o) w.want.push_back('a');
  }
  if (w.want.find("ba") != std::string::npos) sym_witness("nested");
  w.destroy();
}
// A library whose Initialise throws is not loaded.
ENTRY(p08_throwing) {
  World w(sym_bool("logger"));
  if (sym_bool("another before")) { sym_check(w.load(1) == 0, "loaded"); w.want.push_back('b'); }
  thrown = 0;
  bool got = false;
  try { w.load(0); } catch (const Oops &) { got = true; } catch (const Smp::InvalidLibrary &) { got = true; }
  sym_check(got, "the failure is reported");
  if (sym_bool("another after")) { sym_check(w.load(1) == 0, "loaded"); w.want.push_back('b'); }
  w.destroy();
}
// Libraries are finalised after the simulation was left and before the models are destroyed.
ENTRY(p08_states) {
  World w(false);
  auto *sim = w.sim;
  sim->AddService(new Events("XsmpEventManager", "", sim, nullptr));
  sim->AddService(new Logger("XsmpLogger", "", sim, nullptr));
  sim->AddService(new Times("XsmpTimeKeeper", "", sim, nullptr));
  sym_check(w.load(0) == 0 && w.load(1) == 0, "loaded");
  w.want = "ab";
  models = (int)sym_choose("models", 3);
  for (int k = 0; k < models; k++) sim->AddModel(new M(k ? "m1" : "m0", "", sim, nullptr));
  const bool standby = sym_bool("standby");
  if (standby) sim->Connect();
  sym_check((sim->GetState() == SS::SSK_Standby) == standby, "standby");
  const bool aborted = sym_bool("aborted");
  if (aborted) sim->Abort();
  w.destroy();
  sym_check(finState == (aborted ? SS::SSK_Aborting : standby ? SS::SSK_Exiting : SS::SSK_Building), "a simulation in standby is left before the libraries are finalised");
}
// No name is no library.
ENTRY(p08_null) {
  World w(sym_bool("logger"));
  if (sym_bool("another before")) { sym_check(w.load(0) == 0, "loaded"); w.want.push_back('a'); }
  const int o = opens;
  bool refused = false;
  try { w.sim->LoadLibrary(nullptr); } catch (const Smp::LibraryNotFound &e) { refused = e.GetSender() == static_cast<Smp::ISimulator *>(w.sim) && e.GetLibraryName(); }
  sym_check(refused && opens == o, "no name: no library is found");
  w.destroy();
}
