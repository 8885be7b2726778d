// P11: ownership of a variant's text; equality.
// SOURCES: src/Smp/AnySimple.cpp src/Xsmp/Exception.cpp src/Xsmp/cstring.cpp
// UBSAN: yes
// ENTRY p11_sequence quick=3 thorough=4 weight=4
// ENTRY p11_self_text
// ENTRY p11_alloc_failure
// ENTRY p11_ctor
// ENTRY p11_eq_int
// ENTRY p11_eq_small
// ENTRY p11_eq_f32
// ENTRY p11_eq_f64
// ENTRY p11_eq_text quick=3 thorough=6
// ENTRY p11_eq_none
#include "hlib.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <cmath>
#include <limits>
#include <new>
#include <utility>
using namespace Smp;
using K = PrimitiveTypeKind;

namespace {
const unsigned MAXLEN = 3;
struct Model {
  K kind = K::PTK_None;
  bool text = false; // a String8 variant with a text
  char t[MAXLEN + 1] = {0};
  unsigned n = 0;
  UInt64 v = 0;
  void none() { kind = K::PTK_None; text = false; }
  void num(K k, UInt64 x) { kind = k; v = x; text = false; }
  void str(const char *p, unsigned len) { kind = K::PTK_String8; text = p != nullptr; n = len; for (unsigned i = 0; i < len; i++) t[i] = p[i]; t[len] = 0; }
};
void agree(const AnySimple &a, const Model &m) {
  sym_check(a.GetType() == m.kind && a.type == m.kind, "the variant has the kind last given");
  if (m.kind == K::PTK_UInt64) sym_check((UInt64)a == m.v, "the variant has the number last given");
  if (m.kind == K::PTK_Bool) sym_check((Bool)a == (m.v != 0), "the variant has the boolean last given");
  if (m.kind == K::PTK_String8) {
    String8 s = (String8)a;
    sym_check((s != nullptr) == m.text, "the variant has a text exactly when it was given one");
    if (s) for (unsigned i = 0; i <= m.n; i++) sym_check(s[i] == m.t[i], "the variant has the text last given");
  }
}
void apart(const AnySimple &a, const AnySimple &b) {
  if (a.type == K::PTK_String8 && b.type == K::PTK_String8 && a.value.string8Value && b.value.string8Value)
    sym_check(a.value.string8Value != b.value.string8Value, "each variant owns its text");
}
bool setText(AnySimple &a, Model &m, unsigned max) {
  SymStr s(max, "text", true);
  a.SetValue(K::PTK_String8, (String8)s.p);
  m.str(s.p, s.n);
  if (s.p) sym_check(a.value.string8Value != s.p, "the text is copied");
  return true;
}
void setNum(AnySimple &a, Model &m) { UInt64 x = sym_u64("number"); a.SetValue(K::PTK_UInt64, x); m.num(K::PTK_UInt64, x); }
}

// Any sequence of operations on two variants.
ENTRY(p11_sequence) {
  unsigned steps = (unsigned)sym_bound(3);
  sym_leak_begin();
  {
    AnySimple a[2];
    Model m[2];
    setText(a[0], m[0], 2);
    if (sym_choose("second", 2)) setText(a[1], m[1], 1); else setNum(a[1], m[1]);
    for (unsigned k = 0; k < steps; k++) {
      unsigned i = (unsigned)sym_choose("which", 2), j = 1 - i;
      switch (sym_choose("op", 8)) {
      case 0: a[i] = a[j]; m[i] = m[j]; break;
      case 1: a[i] = *static_cast<const AnySimple *>(&a[i]); break;
      case 2: a[i] = std::move(a[j]); m[i] = m[j]; m[j].none(); break;
      case 3: { // copy and move construction
        AnySimple c(a[i]);
        agree(c, m[i]);
        apart(c, a[i]);
        AnySimple d(std::move(c));
        agree(d, m[i]);
        Model none;
        agree(c, none);
        sym_witness("constructed");
        break;
      }
      case 4: setText(a[i], m[i], 1); break;
      case 5: setNum(a[i], m[i]); break;
      case 6: {
        bool threw = false;
        String8 s = nullptr;
        try { s = a[i].MoveString(); } catch (const InvalidAnyType &) { threw = true; }
        sym_check(threw == (m[i].kind != K::PTK_String8), "only a text variant gives its text away");
        if (!threw) {
          sym_check((s != nullptr) == m[i].text, "the text given away is there when the variant had one");
          if (s) sym_check(eqBytes(s, m[i].t, m[i].n + 1), "the text given away is the variant's text");
          delete[] s;
          m[i].text = false;
          sym_witness("text moved out");
        }
        break;
      }
      default: // a refused store of another type of value
        if (m[i].kind == K::PTK_String8) sym_end();
        try { a[i].SetValue(K::PTK_String8, (UInt64)1); sym_check(false, "a number is not a text"); } catch (const InvalidAnyType &) {}
      }
      agree(a[0], m[0]);
      agree(a[1], m[1]);
      apart(a[0], a[1]);
    }
  }
  sym_leak_end();
}

// A variant given (a part of) its own text.
ENTRY(p11_self_text) {
  sym_leak_begin();
  {
    AnySimple a;
    Model m;
    SymStr s(3, "text");
    a.SetValue(K::PTK_String8, (String8)s.p);
    unsigned off = (unsigned)sym_range("offset", 0, s.n);
    off = (unsigned)sym_concretize(off);
    if (sym_choose("how", 2)) { // moving onto itself leaves a usable variant
      AnySimple &r = a;
      a = std::move(r);
      sym_check(a.type == K::PTK_None || a.type == K::PTK_String8, "a variant moved onto itself is empty or keeps its text");
      a.SetValue(K::PTK_String8, (String8)s.p);
      off = 0;
    } else
      a.SetValue(K::PTK_String8, (String8)a + off);
    m.str(s.p + off, s.n - off);
    agree(a, m);
  }
  sym_leak_end();
}

// When the allocation of the new text fails, the variant keeps its previous value.
ENTRY(p11_alloc_failure) {
  sym_leak_begin();
  {
    AnySimple a, b;
    Model ma;
    SymStr s(2, "text");
    switch (sym_choose("previous", 3)) {
    case 0: setNum(a, ma); break;
    case 1: setText(a, ma, 2); break;
    default: break;
    }
    b.SetValue(K::PTK_String8, (String8)s.p);
    sym_fail_new(1);
    bool threw = false;
    try {
      switch (sym_choose("op", 3)) {
      case 0: a = b; break;
      case 1: a.SetValue(K::PTK_String8, (String8)s.p); break;
      default: { AnySimple c(b); break; }
      }
    } catch (const std::bad_alloc &) { threw = true; }
    sym_fail_new(0);
    sym_check(threw, "a failed allocation is reported");
    agree(a, ma);
    Model mb;
    mb.str(s.p, s.n);
    agree(b, mb);
  }
  sym_leak_end();
}

ENTRY(p11_ctor) {
  sym_leak_begin();
  {
    AnySimple a;
    sym_check(a.GetType() == K::PTK_None, "a new variant is empty");
    K k = (K)sym_choose("kind", 16);
    AnySimple b(k);
    sym_check(b.GetType() == k, "a variant created for a kind has that kind");
    if (k == K::PTK_String8) sym_check((String8)b == nullptr, "and no text");
    if (k == K::PTK_Int64) sym_check((Int64)b == 0, "and the value zero");
    if (k == K::PTK_Bool) sym_check(!(Bool)b, "and the value false");
    AnySimple c(b);
    sym_check(c.GetType() == k && b.GetType() == k, "a copy has the kind of its source");
    AnySimple d;
    d = std::move(c);
    sym_check(d.GetType() == k && c.GetType() == K::PTK_None, "a move empties its source");
    sym_check(d == b && b == d && !(d != b), "a copy equals its source");
  }
  sym_leak_end();
}

namespace {
bool intKind(K k) { return (k >= K::PTK_Int8 && k <= K::PTK_UInt64) || k == K::PTK_Duration || k == K::PTK_DateTime; }
__int128 symInt(AnySimple &a, K k, const char *name) {
  UInt64 b = sym_u64(name);
  switch (k) {
  case K::PTK_Int8: a.SetValue(k, (Int8)b); return (Int8)b;
  case K::PTK_UInt8: a.SetValue(k, (UInt8)b); return (UInt8)b;
  case K::PTK_Int16: a.SetValue(k, (Int16)b); return (Int16)b;
  case K::PTK_UInt16: a.SetValue(k, (UInt16)b); return (UInt16)b;
  case K::PTK_Int32: a.SetValue(k, (Int32)b); return (Int32)b;
  case K::PTK_UInt32: a.SetValue(k, (UInt32)b); return (UInt32)b;
  case K::PTK_UInt64: a.SetValue(k, (UInt64)b); return (UInt64)b;
  default: a.SetValue(k, (Int64)b); return (Int64)b;
  }
}
void compareOne(const AnySimple &a, const AnySimple &b, bool want, const char *what) {
  bool eq = a == b;
  sym_check(eq == want, what);
  sym_check((a != b) == !eq, "being different is the opposite of being equal");
}
void compare(const AnySimple &a, const AnySimple &b, bool want, const char *what) {
  sym_check((a == b) == want, what);
  sym_check((b == a) == want, what);
  sym_check((a != b) == !want, what);
}
}
// Numbers of any two integer kinds are equal exactly when they are the same number.
ENTRY(p11_eq_int) {
  K k1 = (K)sym_choose("kind", 16), k2 = (K)sym_choose("kind", 16);
  if (!intKind(k1) || !intKind(k2)) sym_end();
  AnySimple a, b;
  __int128 x = symInt(a, k1, "x"), y = symInt(b, k2, "y");
  compare(a, b, x == y, "integers are equal exactly when their values are");
  if (k1 != k2) sym_witness("different kinds");
}
ENTRY(p11_eq_small) {
  AnySimple a, b;
  UInt8 x = sym_u8("x"), y = sym_u8("y");
  if (sym_choose("kind", 2)) {
    a.SetValue(K::PTK_Bool, (x & 1) != 0);
    b.SetValue(K::PTK_Bool, (y & 1) != 0);
    compare(a, b, (x & 1) == (y & 1), "booleans are equal exactly when their values are");
  } else {
    a.SetValue(K::PTK_Char8, (Char8)x);
    b.SetValue(K::PTK_Char8, (Char8)y);
    compare(a, b, x == y, "characters are equal exactly when their values are");
  }
}
ENTRY(p11_eq_f32) {
  UInt32 x = sym_u32("x"), y = sym_u32("y");
  Float32 f, g;
  memcpy(&f, &x, 4);
  memcpy(&g, &y, 4);
  AnySimple a, b;
  a.SetValue(K::PTK_Float32, f);
  b.SetValue(K::PTK_Float32, g);
  if (sym_choose("order", 2)) { std::swap(a, b); std::swap(f, g); }
  bool want = f == g || std::fabs(f - g) <= std::numeric_limits<Float32>::epsilon();
  compareOne(a, b, want, "floats are equal exactly when they are within the machine epsilon");
}
ENTRY(p11_eq_f64) {
  UInt64 x = sym_u64("x"), y = sym_u64("y");
  Float64 f, g;
  memcpy(&f, &x, 8);
  memcpy(&g, &y, 8);
  AnySimple a, b;
  a.SetValue(K::PTK_Float64, f);
  b.SetValue(K::PTK_Float64, g);
  if (sym_choose("order", 2)) { std::swap(a, b); std::swap(f, g); }
  bool want = f == g || std::fabs(f - g) <= std::numeric_limits<Float64>::epsilon();
  compareOne(a, b, want, "doubles are equal exactly when they are within the machine epsilon");
}
ENTRY(p11_eq_text) {
  unsigned max = (unsigned)sym_bound(3);
  SymStr s(max, "s", true), t(max, "t", true);
  AnySimple a, b;
  a.SetValue(K::PTK_String8, (String8)s.p);
  b.SetValue(K::PTK_String8, (String8)t.p);
  bool want = s.p && t.p ? s.n == t.n && eqBytes(s.p, t.p, s.n) : !s.p && !t.p;
  compare(a, b, want, "texts are equal exactly when their characters are");
}
// An empty variant only equals an empty one, and differs from texts, characters and booleans.
ENTRY(p11_eq_none) {
  AnySimple a, b;
  compare(a, b, true, "empty variants are equal");
  K k = (K)sym_choose("kind", 16);
  if (k == K::PTK_None) sym_end();
  AnySimple c(k);
  compare(a, c, false, "an empty variant differs from any value");
}
