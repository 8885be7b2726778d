// P33: factories and the simulator's factory collection.
// SOURCES: src/Xsmp/Factory.cpp src/Xsmp/FactoryCollection.cpp src/Xsmp/Simulator.cpp src/Smp/Uuid.cpp
// ENTRY p33_create
// ENTRY p33_create_bad
// ENTRY p33_mismatch
// ENTRY p33_names quick=3 thorough=4
// ENTRY p33_lookup
// ENTRY p33_collection quick=4 thorough=5
// ENTRY p33_same_factory
// ENTRY p33_failed
#include "hlib.h"
#include <Smp/DuplicateUuid.h>
#include <Smp/InvalidObjectName.h>
#include <Xsmp/Factory.h>
#include <Xsmp/FactoryCollection.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Simulator.h>
#include <memory>
#include <string>
using Smp::Uuid;

namespace {
int live, made;
// a model whose UUID is an input
struct Made : public ::Xsmp::Model {
  static Uuid uuid;
  ::Smp::ISimulator *sim;
  int value = 0;
  Made(::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p, ::Smp::ISimulator *s) : ::Xsmp::Model(n, d, p, s), sim(s) { live++; made++; }
  ~Made() noexcept override { live--; }
  const Uuid &GetUuid() const override { return uuid; }
};
Uuid Made::uuid{1, 2, 3, 4, 5};
struct Other : public Made { using Made::Made; };

const Uuid base{0x10203040, 0x5060, 0x7080, 0x90a0, 0xb0c0d0e0f001};
unsigned char &byteOf(Uuid &u, unsigned i) {
  if (i < 4) return ((unsigned char *)&u.Data1)[i];
  if (i < 10) return ((unsigned char *)u.Data2.data())[i - 4];
  return u.Data3[i - 10];
}
bool same(const Uuid &x, const Uuid &y) {
  Uuid a = x, b = y;
  unsigned d = 0;
  for (unsigned i = 0; i < 16; i++) d |= byteOf(a, i) ^ byteOf(b, i);
  return d == 0;
}
struct Fact {
  int made = 0, live = 0;
};
// stand-in factory that reports its end
struct Fake : public ::Smp::IFactory {
  Uuid u;
  std::string n;
  static int dead;
  Fake(Uuid u, const char *n) : u(u), n(n) {}
  ~Fake() noexcept override { dead++; }
  ::Smp::String8 GetName() const override { return n.c_str(); }
  ::Smp::String8 GetDescription() const override { return ""; }
  ::Smp::IObject *GetParent() const override { return nullptr; }
  Uuid GetUuid() const override { return u; }
  ::Smp::IComponent *CreateInstance(::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p) override { calls++; name = n; desc = d; parent = p; return result; }
  void DeleteInstance(::Smp::IComponent *) override {}
  ::Smp::String8 GetTypeName() const override { return "T"; }
  int calls = 0;
  ::Smp::String8 name = nullptr, desc = nullptr;
  ::Smp::IComposite *parent = nullptr;
  ::Smp::IComponent *result = nullptr;
};
int Fake::dead;
int refusedTotal, total;
}

// A factory describes itself and creates what is asked, each instance on its own.
ENTRY(p33_create) {
  char s;
  auto *sim = sym_bool("simulator") ? reinterpret_cast<::Smp::ISimulator *>(&s) : nullptr;
  ::Xsmp::Simulator simulator;
  if (sim) sim = &simulator;
  Uuid u = base;
  byteOf(u, (unsigned)sym_choose("byte", 16)) ^= sym_u8("x");
  Made::uuid = u;
  char name[3] = {'a', (char)('0' + sym_choose("digit", 10)), 0}, desc[3];
  sym_bytes(desc, 2, "description"); desc[2] = 0;
  const std::string descText(desc);
  std::unique_ptr<::Smp::IFactory> f{::Xsmp::Factory::Create<Made>(name, desc, sim, u)};
  // the texts given may go away
  const char digit = name[1];
  name[0] = name[1] = '?';
  desc[0] = desc[1] = '?';
  sym_check(strlen(f->GetName()) == 2 && f->GetName()[0] == 'a' && f->GetName()[1] == digit, "the factory's name");
  sym_check(descText == f->GetDescription(), "the factory's description");
  sym_check(f->GetParent() == static_cast<::Smp::IObject *>(sim), "the factory's parent is the simulator");
  sym_check(same(f->GetUuid(), u), "the factory's identifier");
  sym_check(::Xsmp::Helper::demangle(typeid(Made).name()) == f->GetTypeName(), "the factory's type");
  sym_check(made == 0, "nothing is created before it is asked for");
  ::Xsmp::Model parent("parent", "", nullptr, nullptr);
  ::Smp::IComposite *p = sym_bool("parent") ? static_cast<::Smp::IComposite *>(&simulator) : nullptr;
  const bool described = sym_bool("described");
  ::Smp::IComponent *a = f->CreateInstance("first", described ? "about" : "", p);
  sym_check(made == 1 && live == 1, "one instance is created");
  auto *m = dynamic_cast<Made *>(a);
  sym_check(m != nullptr, "of the factory's type");
  sym_check(!strcmp(a->GetName(), "first") && !strcmp(a->GetDescription(), described ? "about" : ""), "with the name and description asked for");
  sym_check(a->GetParent() == (p ? static_cast<::Smp::IObject *>(&simulator) : nullptr) && m->sim == sim, "in the parent asked for, for the factory's simulator");
  sym_check(same(a->GetUuid(), f->GetUuid()), "with the factory's identifier");
  ::Smp::IComponent *b = f->CreateInstance("second", "other", nullptr);
  sym_check(a != b && made == 2 && live == 2, "each request creates another instance");
  sym_check(!strcmp(a->GetName(), "first") && !strcmp(b->GetName(), "second") && !b->GetParent(), "instances are independent");
  static_cast<Made *>(dynamic_cast<Made *>(b))->value = 7;
  sym_check(m->value == 0, "instances are independent");
  f->DeleteInstance(a);
  sym_check(live == 1 && !strcmp(b->GetName(), "second"), "the instance deleted is the one given");
  f.reset();
  sym_check(live == 1 && !strcmp(b->GetDescription(), "other"), "an instance outlives its factory");
  delete b;
  sym_check(live == 0, "no instance is left");
}

// A name which is no object name is refused and nothing is created.
ENTRY(p33_create_bad) {
  std::unique_ptr<::Smp::IFactory> f{::Xsmp::Factory::Create<Made>("F", "", nullptr, Made::uuid)};
  SymStr name(2, "name", true);
  bool ok = name.p && name.n > 0;
  for (unsigned i = 0; i < name.n; i++) {
    unsigned char c = (unsigned char)name.p[i];
    bool alpha = (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z');
    ok &= i == 0 ? alpha : (alpha | (c >= '0' && c <= '9') | (c == '_'));
    sym_assume(c != '[' && c != ']');
  }
  try {
    std::unique_ptr<::Smp::IComponent> c{f->CreateInstance(name.p, "", nullptr)};
    sym_check(ok, "the name is a name");
    sym_check(!strcmp(c->GetName(), name.p), "the name asked for");
    sym_witness("created");
  } catch (const ::Smp::InvalidObjectName &) {
    sym_check(!ok, "only names which are no names are refused");
    sym_witness("refused");
  }
  sym_check(live == 0, "nothing is left");
}

// A factory whose identifier is not the one of what it creates creates nothing.
ENTRY(p33_mismatch) {
  Uuid u = base;
  Made::uuid = base;
  byteOf(u, (unsigned)sym_choose("byte", 16)) ^= sym_u8("x");
  std::unique_ptr<::Smp::IFactory> f{::Xsmp::Factory::Create<Made>("F", "", nullptr, u)};
  try {
    std::unique_ptr<::Smp::IComponent> c{f->CreateInstance("c", "", nullptr)};
    sym_check(same(u, base) && same(c->GetUuid(), f->GetUuid()), "what is created has the factory's identifier");
    sym_witness("created");
  } catch (const ::Smp::Exception &) {
    sym_check(!same(u, base), "refused only when the identifiers differ");
    sym_witness("refused");
  }
  sym_check(made == 1 && live == 0, "nothing is left");
}

// The names of factories.
ENTRY(p33_names) {
  SymStr name((unsigned)sym_bound(2), "name", true);
  bool ok = name.p && name.n > 0;
  for (unsigned i = 0; i < name.n; i++) {
    unsigned char c = (unsigned char)name.p[i];
    bool alpha = (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z');
    ok &= i == 0 ? alpha : (alpha | (c >= '0' && c <= '9') | (c == '_'));
    sym_assume(c != '[' && c != ']');
  }
  try {
    std::unique_ptr<::Smp::IFactory> f{::Xsmp::Factory::Create<Made>(name.p, "", nullptr, Made::uuid)};
    sym_check(ok && !strcmp(f->GetName(), name.p), "a factory has the name given");
  } catch (const ::Smp::InvalidObjectName &) {
    sym_check(!ok, "a name is accepted");
    sym_witness("refused");
  }
}

// Two identifiers: the second factory is refused exactly when they are the same, and each is found by its own identifier alone.
ENTRY(p33_lookup) {
  ::Xsmp::Simulator sim;
  Uuid u = base;
  byteOf(u, (unsigned)sym_choose("byte", 16)) ^= sym_u8("x");
  auto *f = new Fake(base, "F");
  sim.RegisterFactory(f);
  sym_check(sim.GetFactory(u) == (same(u, base) ? f : nullptr), "a factory is found by exactly its identifier");
  auto *g = new Fake(u, "G");
  const auto *all = sim.GetFactories();
  try {
    sim.RegisterFactory(g);
    sym_check(!same(u, base), "an identifier is used once");
    sym_check(sim.GetFactory(u) == g && sim.GetFactory(base) == f, "each is found");
    sym_check(all->size() == 2 && all->at(std::size_t(0)) == f && all->at(std::size_t(1)) == g, "both are listed in order");
    sym_witness("two factories");
  } catch (const ::Smp::DuplicateUuid &e) {
    sym_check(same(u, base), "another identifier is accepted");
    sym_check(!strcmp(e.GetOldName(), "F") && !strcmp(e.GetNewName(), "G"), "the refusal names both factories");
    sym_check(sim.GetFactory(u) == f && all->size() == 1 && !all->at("G") && all->at("F") == f, "the refused factory is not there");
    sym_witness("refused");
  }
}

// Histories of registrations and creations in a simulator.
ENTRY(p33_collection) {
  static const Uuid ids[3] = {{1, 2, 3, 4, 5}, {1, 2, 3, 4, 6}, {2, 2, 3, 4, 5}};
  static const char *const names[2] = {"A", "B"};
  Fake::dead = 0;
  {
    ::Xsmp::Simulator sim;
    const auto *all = sim.GetFactories();
    sym_check(all->size() == 0 && all->begin() == all->end() && !all->at(std::size_t(0)) && !all->at("A"), "no factories at first");
    sym_check(!strcmp(all->GetName(), "Factories") && all->GetParent() == static_cast<::Smp::IObject *>(&sim), "the collection is the simulator's");
    Fake *reg[4];
    int regName[4], regId[4], n = 0, refused = 0;
    ::Xsmp::Model target("target", "", nullptr, nullptr);
    for (unsigned k = 0, steps = (unsigned)sym_bound(3); k < steps; k++) {
      const unsigned id = (unsigned)sym_choose("id", 3);
      int found = -1;
      for (int i = 0; i < n; i++) if (regId[i] == (int)id) found = i;
      if (sym_bool("register")) {
        const int nm = (int)sym_choose("name", 2);
        auto *f = new Fake(ids[id], names[nm]);
        try {
          sim.RegisterFactory(f);
          sym_check(found < 0, "an identifier is used once");
          reg[n] = f; regName[n] = nm; regId[n++] = (int)id;
        } catch (const ::Smp::DuplicateUuid &e) {
          sym_check(found >= 0, "a free identifier is accepted");
          sym_check(!strcmp(e.GetOldName(), names[regName[found]]) && !strcmp(e.GetNewName(), names[nm]), "the refusal names both factories");
          refused++;
        }
      } else {
        ::Smp::IComponent *want = sym_bool("creates") ? &target : nullptr;
        if (found >= 0) reg[found]->result = want;
        const int before = found >= 0 ? reg[found]->calls : 0;
        auto *got = sim.CreateInstance(ids[id], "n", "d", &sim);
        sym_check(got == (found >= 0 ? want : nullptr), "the instance is what that factory creates; an unknown identifier creates nothing");
        for (int i = 0; i < n; i++) if (i != found) sym_check(reg[i]->calls == 0 || reg[i]->name, "asked only when it is its turn");
        if (found >= 0) {
          Fake *f = reg[found];
          sym_check(f->calls == before + 1 && !strcmp(f->name, "n") && !strcmp(f->desc, "d") && f->parent == static_cast<::Smp::IComposite *>(&sim), "the factory is asked once for what was asked for");
          sym_witness("created");
        }
      }
      sym_check(Fake::dead == refused, "registered factories live on");
      sym_check(all->size() == (std::size_t)n, "as many factories as registered");
      int it = 0;
      for (auto *f : *all) { sym_check(it < n && f == reg[it], "factories are listed in order"); it++; }
      sym_check(it == n && !all->at((std::size_t)n), "factories are listed in order");
      for (int i = 0; i < n; i++) sym_check(all->at((std::size_t)i) == reg[i], "found by index");
      for (int i = 0; i < 3; i++) {
        Fake *want = nullptr;
        for (int j = 0; j < n; j++) if (regId[j] == i) want = reg[j];
        sym_check(sim.GetFactory(ids[i]) == want, "found by identifier");
      }
      for (int i = 0; i < 2; i++) {
        Fake *want = nullptr;
        for (int j = n - 1; j >= 0; j--) if (regName[j] == i) want = reg[j];
        sym_check(all->at(names[i]) == want, "found by name: the first registered");
      }
      sym_check(!all->at("C") && !all->at((::Smp::String8) nullptr), "unknown names give nothing");
    }
    refusedTotal = refused; total = n;
  }
  sym_check(Fake::dead == refusedTotal + total, "the simulator ends its factories once");
}

// The same factory registered twice is refused and stays registered.
ENTRY(p33_same_factory) {
  Fake::dead = 0;
  {
    ::Xsmp::Simulator sim;
    auto *f = new Fake(base, "F");
    sim.RegisterFactory(f);
    bool refused = false;
    try { sim.RegisterFactory(f); } catch (const ::Smp::DuplicateUuid &e) { refused = !strcmp(e.GetOldName(), "F") && !strcmp(e.GetNewName(), "F"); }
    sym_check(refused, "refused");
    sym_check(Fake::dead == 0 && sim.GetFactory(base) == f && sim.GetFactories()->size() == 1 && f->calls == 0, "the factory stays registered");
    sim.CreateInstance(base, "n", "d", nullptr);
    sym_check(f->calls == 1, "and is used");
  }
  sym_check(Fake::dead == 1, "the factory ends once");
}

// An instance that cannot be created: the failure is reported and the factory still works.
ENTRY(p33_failed) {
  static bool fail;
  struct Failing : public Made {
    Failing(::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p, ::Smp::ISimulator *s) : Made(n, d, p, s) { if (fail) throw 42; }
  };
  Made::uuid = base;
  ::Xsmp::Simulator sim;
  sim.RegisterFactory(::Xsmp::Factory::Create<Failing>("F", "", &sim, base));
  int ok = 0;
  for (int k = 0; k < 3; k++) {
    fail = sym_bool("fails");
    try {
      std::unique_ptr<::Smp::IComponent> c{sim.CreateInstance(base, "c", "", nullptr)};
      sym_check(!fail && c && live == 1, "created");
      ok++;
    } catch (int e) { sym_check(fail && e == 42, "the failure is reported"); }
    sym_check(live == 0, "nothing is left");
  }
}
