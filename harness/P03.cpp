// P03: owning C string.
// SOURCES: src/Xsmp/cstring.cpp
// ENTRY p03_sequence quick=3 thorough=4
// ENTRY p03_alias quick=0 thorough=0
// ENTRY p03_moved_from quick=0 thorough=0
// ENTRY p03_alloc_failure quick=0 thorough=0
// ENTRY p03_lengths
// ENTRY p03_long quick=24 thorough=200
#include "hlib.h"
#include <Xsmp/cstring.h>
#include <new>
#include <string_view>
#include <utility>
using Xsmp::cstring;

namespace {
const unsigned MAXLEN = 3;
// what each string should hold
struct Model { char t[MAXLEN + 1]; unsigned n; bool live; };
struct Slot { alignas(cstring) unsigned char b[sizeof(cstring)]; cstring *get() { return reinterpret_cast<cstring *>(b); } };

void agree(cstring *s, const Model &m) {
  sym_check(s->c_str() != nullptr, "a string that holds a value has text");
  for (unsigned i = 0; i <= m.n; i++) sym_check(s->c_str()[i] == m.t[i], "the text is what was last given");
}
void setModel(Model &m, const char *p, unsigned n) { for (unsigned i = 0; i < n; i++) m.t[i] = p[i]; m.t[n] = 0; m.n = n; m.live = true; }
cstring *make(void *where, SymStr &in, Model &m) {
  switch (sym_choose("ctor", 3)) {
  case 0: setModel(m, in.p, in.n); return new (where) cstring(in.p);
  case 1: setModel(m, in.p, in.n); return new (where) cstring(in.p, in.n);
  default: {
    // a view need not be terminated
    char *raw = new char[in.n ? in.n : 1];
    for (unsigned i = 0; i < in.n; i++) raw[i] = in.p[i];
    setModel(m, in.p, in.n);
    cstring *r = new (where) cstring(std::string_view(raw, in.n));
    delete[] raw;
    return r;
  }
  }
}
}

// Any sequence of operations on two strings, starting from any two texts.
ENTRY(p03_sequence) {
  unsigned steps = sym_bound(3);
  sym_leak_begin();
  {
    Slot a, b;
    Model m[2];
    {
      SymStr i0(MAXLEN - 1, "t0"), i1(1, "t1");
      make(a.b, i0, m[0]);
      make(b.b, i1, m[1]);
    }
    cstring *s[2] = {a.get(), b.get()};
    sym_check(s[0]->c_str() != s[1]->c_str(), "each string owns its text");
    for (unsigned k = 0; k < steps; k++) {
      unsigned i = sym_choose("which", 2), j = 1 - i;
      switch (sym_choose("op", 6)) {
      case 0: // copy assignment from the other
        if (!m[j].live) sym_end();
        *s[i] = *s[j];
        m[i] = m[j];
        sym_check(s[i]->c_str() != s[j]->c_str(), "a copy does not share its source's text");
        sym_witness("copy assignment");
        break;
      case 1: // self copy assignment
        *s[i] = *static_cast<const cstring *>(s[i]);
        break;
      case 2: { // assignment of a C string
        SymStr in(1, "t");
        *s[i] = in.p;
        setModel(m[i], in.p, in.n);
        sym_check(s[i]->c_str() != in.p, "the text is copied");
        break;
      }
      case 3: // move assignment from the other
        if (!m[j].live) sym_end();
        *s[i] = std::move(*s[j]);
        m[i] = m[j];
        m[j].live = false;
        sym_witness("move assignment");
        break;
      case 4: { // destruction and copy construction from the other
        if (!m[j].live) sym_end();
        s[i]->~cstring();
        new (s[i]) cstring(*s[j]);
        m[i] = m[j];
        sym_check(s[i]->c_str() != s[j]->c_str(), "a copy does not share its source's text");
        break;
      }
      default: // destruction and move construction from the other
        if (!m[j].live) sym_end();
        s[i]->~cstring();
        new (s[i]) cstring(std::move(*s[j]));
        m[i] = m[j];
        m[j].live = false;
        break;
      }
      for (int x = 0; x < 2; x++) if (m[x].live) agree(s[x], m[x]);
    }
    for (int x = 0; x < 2; x++) if (m[x].live) agree(s[x], m[x]);
    for (int x = 0; x < 2; x++) if (m[x].live) sym_observe("text", (unsigned char)s[x]->c_str()[0]);
    s[0]->~cstring();
    s[1]->~cstring();
  }
  sym_leak_end();
}

// Assignment from a string's own text, or part of it.
ENTRY(p03_alias) {
  sym_leak_begin();
  {
    SymStr in(3, "t");
    cstring s(in.p);
    unsigned off = sym_choose("offset", in.n + 1);
    s = s.c_str() + off;
    for (unsigned i = off; i <= in.n; i++) sym_check(s.c_str()[i - off] == in.p[i], "assignment from its own text keeps that text");
    s = s;
    for (unsigned i = off; i <= in.n; i++) sym_check(s.c_str()[i - off] == in.p[i], "self assignment keeps the text");
    sym_witness("alias");
  }
  sym_leak_end();
}

// A moved-from string can be copied, assigned to and from, moved and destroyed.
ENTRY(p03_moved_from) {
  sym_leak_begin();
  {
    SymStr in(2, "t"), in2(2, "u");
    cstring s(in.p);
    cstring t(std::move(s));
    sym_check(strcmp(t.c_str(), in.p) == 0, "a move transfers the text");
    switch (sym_choose("then", 6)) {
    case 0: { cstring u(s); break; }
    case 1: { cstring u(in2.p); u = s; break; }
    case 2: { s = in2.p; sym_check(strcmp(s.c_str(), in2.p) == 0, "a moved-from string accepts a new text"); break; }
    case 3: { s = t; sym_check(strcmp(s.c_str(), in.p) == 0, "a moved-from string accepts a copy"); sym_check(s.c_str() != t.c_str(), "copies are independent"); break; }
    case 4: { cstring u(std::move(s)); s = std::move(t); sym_check(strcmp(s.c_str(), in.p) == 0, "a moved-from string accepts a move"); break; }
    default: { cstring u(in2.p); u = std::move(s); break; }
    }
    sym_witness("moved-from");
  }
  sym_leak_end();
}

// Memory exhaustion during an operation raises bad_alloc and leaves every string valid.
ENTRY(p03_alloc_failure) {
  sym_leak_begin();
  {
    SymStr in(2, "t"), in2(2, "u");
    cstring s(in.p), t(in2.p);
    bool failed = false;
    unsigned op = sym_choose("op", 3);
    sym_fail_new(1);
    try {
      switch (op) {
      case 0: s = t; break;
      case 1: s = in2.p; break;
      default: { cstring u(t); break; }
      }
    } catch (const std::bad_alloc &) {
      failed = true;
      sym_witness("allocation failed");
    }
    sym_fail_new(0);
    if (failed) sym_check(strcmp(s.c_str(), in.p) == 0, "a failed assignment leaves the old text");
    sym_check(strcmp(t.c_str(), in2.p) == 0, "the source is unchanged");
  }
  sym_leak_end();
}

// Every length up to the bound.
ENTRY(p03_long) {
  unsigned n = sym_choose("len", sym_bound(24) + 1);
  char *raw = new char[n + 1];
  if (n) sym_bytes(raw, n, "c");
  raw[n] = 0;
  sym_leak_begin();
  {
    // embedded terminators are kept when a size is given
    cstring s(raw, n);
    for (unsigned i = 0; i <= n; i++) sym_check(s.c_str()[i] == raw[i], "every byte is copied");
    cstring v{std::string_view(raw, n)};
    for (unsigned i = 0; i <= n; i++) sym_check(v.c_str()[i] == raw[i], "every byte is copied");
  }
  sym_leak_end();
  delete[] raw;
}

// Long texts around the usual limits of small integers.
ENTRY(p03_lengths) {
  static const unsigned L[] = {0, 1, 15, 16, 127, 128, 255, 256, 257, 300};
  char *t = new char[301];
  for (int i = 0; i < 300; i++) t[i] = (char)('a' + i % 23);
  unsigned n = L[sym_choose("n", 10)], m = L[sym_choose("m", 10)];
  t[n] = 0;
  sym_leak_begin();
  {
    cstring s(t, n), d(t + n, 0u), z{(const char *)t}, c(s);
    t[n] = (char)('a' + n % 23);
    t[m] = 0;
    d = s;
    c = t;
    z = std::string_view(t, m).data();
    sym_check(std::strlen(s.c_str()) == n && std::strlen(d.c_str()) == n && std::strlen(c.c_str()) == m && std::strlen(z.c_str()) == m, "the length of the text");
    for (unsigned i = 0; i < n; i++) sym_check(s.c_str()[i] == (char)('a' + i % 23) && d.c_str()[i] == s.c_str()[i], "every byte is copied");
    for (unsigned i = 0; i < m; i++) sym_check(c.c_str()[i] == (char)('a' + i % 23) && z.c_str()[i] == c.c_str()[i], "every byte is copied");
    cstring e(std::move(c));
    c = s;
    sym_check(std::strlen(e.c_str()) == m && std::strlen(c.c_str()) == n, "moved text");
  }
  sym_leak_end();
  delete[] t;
}
