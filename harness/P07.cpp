// P07: dynamic library helpers and package entry points, against a model of the dynamic loader.
// ENTRY p07_load quick=3 thorough=4
// ENTRY p07_symbol quick=3 thorough=4
// ENTRY p07_errors quick=3 thorough=4
// ENTRY p07_close
// ENTRY p07_package
#include "hlib.h"
#include <dlfcn.h>
#include <string>

// The loader: every outcome is an input.
namespace loader {
struct Call { int kind; const void *handle; std::string name; int flags; };
static int opens, syms, closes;
static std::string lastName;
static int lastFlags;
static void *lastHandle;
static void *result; // of the last call
static const char *error; // pending error text
static char lib[2], sym[2];
static const char *const openError = "cannot open", *const symError = "undefined symbol";
static void *open(const char *name, int flags) {
  opens++;
  lastName = name ? name : "(null)";
  lastFlags = flags;
  bool ok = sym_bool("library present");
  if ((flags & RTLD_NOLOAD) || !(flags & (RTLD_NOW | RTLD_LAZY))) ok = false; // nothing is loaded yet; no binding mode is an error
  result = ok ? (void *)&lib[0] : nullptr;
  error = ok ? nullptr : openError;
  return result;
}
static void *symbol(void *h, const char *name) {
  syms++;
  lastHandle = h;
  lastName = name ? name : "(null)";
  bool ok = sym_bool("symbol present");
  result = ok ? (void *)&sym[0] : nullptr;
  error = ok ? nullptr : symError; // a success clears the pending text (glibc)
  return result;
}
static int close(void *h) { closes++; lastHandle = h; return 0; }
static char *errorText() { const char *e = error; error = nullptr; return (char *)e; }
static void reset() { opens = syms = closes = 0; error = nullptr; lastHandle = nullptr; result = nullptr; lastFlags = 0; lastName.clear(); }
}
#define dlopen loader::open
#define dlsym loader::symbol
#define dlclose loader::close
#define dlerror loader::errorText
#include "Xsmp/LibraryHelper.cpp"
#undef dlopen
#undef dlsym
#undef dlclose
#undef dlerror

ENTRY(p07_load) {
  loader::reset();
  SymStr name((unsigned)sym_bound(3), "name", true);
  void *h = ::Xsmp::LoadLibrary(name.p);
  if (!name.p) {
    sym_check(!h && loader::opens == 0, "no name, no library");
    return;
  }
  sym_check(loader::opens == 1 && loader::syms == 0 && loader::closes == 0, "the loader is asked once");
  sym_check(loader::lastName == "lib" + std::string(name.p, name.n) + ".so", "the platform's file name of the library");
  sym_check(h == loader::result, "the handle is what the loader gave");
  sym_check((loader::lastFlags & RTLD_NOW) != 0, "missing symbols are reported when loading");
  std::string e = ::Xsmp::GetLastError();
  if (h) { sym_check(e.empty(), "no error text after a success"); sym_witness("loaded"); }
  else sym_check(e == loader::openError, "the error text is the loader's");
}

ENTRY(p07_symbol) {
  loader::reset();
  SymStr name((unsigned)sym_bound(3), "name", true);
  char lib;
  if (sym_bool("stale error")) loader::error = "an error of another call";
  void *s;
  typedef int (*Fn)(int);
  if (sym_bool("typed")) s = reinterpret_cast<void *>(::Xsmp::GetSymbol<Fn>(&lib, name.p));
  else s = ::Xsmp::GetSymbol(&lib, name.p);
  if (!name.p) {
    sym_check(!s && loader::syms == 0, "no name, no symbol");
    return;
  }
  sym_check(loader::syms == 1 && loader::opens == 0 && loader::closes == 0, "the loader is asked once");
  sym_check(loader::lastHandle == &lib, "in the library asked for");
  sym_check(loader::lastName == std::string(name.p, name.n), "for the name asked for");
  sym_check(s == loader::result, "the symbol is what the loader gave");
  std::string e = ::Xsmp::GetLastError();
  if (s) sym_check(e.empty(), "an error of an earlier call is not reported for this one");
  else sym_check(e == loader::symError, "the error text is the loader's");
}

// Error text over a history of calls: that of the latest failure, reported once.
ENTRY(p07_errors) {
  loader::reset();
  char lib;
  std::string expect;
  for (unsigned k = 0, n = (unsigned)sym_bound(3); k < n; k++)
    switch (sym_choose("op", 3)) {
    case 0: expect = ::Xsmp::LoadLibrary("a") ? "" : loader::openError; break;
    case 1: expect = ::Xsmp::GetSymbol(&lib, "f") ? "" : loader::symError; break;
    default: sym_check(::Xsmp::GetLastError() == expect, "the text of the latest failure"); expect.clear(); break;
    }
  sym_check(::Xsmp::GetLastError() == expect, "the text of the latest failure");
  sym_check(::Xsmp::GetLastError().empty(), "reported once");
}

ENTRY(p07_close) {
  loader::reset();
  char lib;
  ::Xsmp::CloseLibrary(&lib);
  sym_check(loader::closes == 1 && loader::lastHandle == &lib && loader::opens == 0 && loader::syms == 0, "that library is closed once");
}

// Package entry points.
#include "xsmp_services.h"
namespace {
int inits, finals;
::Smp::ISimulator *gotSim;
::Smp::Publication::ITypeRegistry *gotReg;
bool answer;
}
#include "xsmp_services.pkg.cpp"
extern "C" bool Initialise_xsmp_services(::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *r) { inits++; gotSim = s; gotReg = r; return answer; }
extern "C" bool Finalise_xsmp_services() { finals++; return answer; }

ENTRY(p07_package) {
  char a, b;
  auto *s = sym_bool("simulator") ? reinterpret_cast<::Smp::ISimulator *>(&a) : nullptr;
  auto *r = sym_bool("registry") ? reinterpret_cast<::Smp::Publication::ITypeRegistry *>(&b) : nullptr;
  answer = sym_bool("answer");
  if (sym_bool("initialise")) {
    bool got = Initialise(s, r);
    sym_check(inits == 1 && finals == 0, "initialised once");
    sym_check(gotSim == s && gotReg == r, "with the simulator and the registry given");
    sym_check(got == answer, "the result is the services' result");
  } else {
    bool got = Finalise(s);
    sym_check(finals == 1 && inits == 0, "finalised once");
    sym_check(got == answer, "the result is the services' result");
  }
}
