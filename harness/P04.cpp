// P04: fixed-size array.
// ENTRY p04_access
// ENTRY p04_iterate
// ENTRY p04_modify
// ENTRY p04_compare quick=3 thorough=3
// ENTRY p04_compare_text
// ENTRY p04_nested
// ENTRY p04_empty
// ENTRY p04_sizes
#include "hlib.h"
#include <algorithm>
#include <stdexcept>
#include <utility>
#include <Xsmp/Array.h>
#include <Xsmp/String.h>
using Xsmp::Array;
typedef std::uint64_t u64;
typedef std::int32_t i32;

namespace {
template <class A> void any(A &a, const char *name) { sym_bytes(a.data(), sizeof(*a.data()) * a.size(), name); }
template <class A> void relations(const A &a, const A &b, int o, bool eq) {
  sym_check((a == b) == eq, "== is element-wise equality");
  sym_check((a != b) == !eq, "!= is element-wise difference");
  sym_check((a < b) == (o < 0), "< is lexicographic");
  sym_check((a > b) == (o > 0), "> is lexicographic");
  sym_check((a <= b) == (o <= 0), "<= is lexicographic");
  sym_check((a >= b) == (o >= 0), ">= is lexicographic");
}
}

ENTRY(p04_access) {
  typedef Array<i32, 3> A;
  A *s = new A; // on its own: any access outside is seen
  any(*s, "content");
  i32 old[3];
  for (int i = 0; i < 3; i++) old[i] = s->internalArray[i];
  const A *c = s;
  u64 i = sym_u64("index");
  bool thrown = false, cthrown = false;
  const i32 *p = nullptr, *q = nullptr;
  try { p = &s->at(i); } catch (const std::out_of_range &) { thrown = true; }
  try { q = &c->at(i); } catch (const std::out_of_range &) { cthrown = true; }
  sym_check(thrown == (i >= 3) && cthrown == (i >= 3), "at() throws exactly for an index that is not smaller than the size");
  if (i < 3) {
    sym_check(p == s->internalArray + i && q == p, "at() is the element");
    sym_check(&(*s)[i] == p && &(*c)[i] == p, "operator[] is the element");
    i32 v = (i32)sym_u32("value");
    switch (sym_choose("how", 4)) {
    case 0: s->at(i) = v; break;
    case 1: (*s)[i] = v; break;
    case 2: s->data()[i] = v; break;
    default: *(s->begin() + i) = v; break;
    }
    for (unsigned k = 0; k < 3; k++) sym_check((*c)[k] == (k == i ? v : old[k]), "exactly that element is written");
  } else sym_witness("out of range");
  sym_check(&s->front() == s->internalArray && &c->front() == s->internalArray, "front()");
  sym_check(&s->back() == s->internalArray + 2 && &c->back() == s->internalArray + 2, "back()");
  sym_check(s->data() == s->internalArray && c->data() == s->internalArray, "data()");
  sym_check(s->size() == 3 && s->max_size() == 3 && !s->empty(), "size()");
  delete s;
}

ENTRY(p04_iterate) {
  typedef Array<i32, 3> A;
  A *s = new A;
  any(*s, "content");
  const A *c = s;
  unsigned n = 0;
  for (auto it = s->begin(); it != s->end(); ++it, ++n) sym_check(&*it == s->internalArray + n, "begin/end");
  sym_check(n == 3, "iteration covers the array");
  n = 0;
  for (auto it = c->begin(); it != c->end(); ++it, ++n) sym_check(&*it == s->internalArray + n, "const begin/end");
  sym_check(n == 3, "iteration covers the array");
  n = 0;
  for (auto it = c->cbegin(); it != c->cend(); ++it, ++n) sym_check(&*it == s->internalArray + n, "cbegin/cend");
  sym_check(n == 3, "iteration covers the array");
  n = 3;
  for (auto it = s->rbegin(); it != s->rend(); ++it) sym_check(&*it == s->internalArray + --n, "rbegin/rend");
  sym_check(n == 0, "reverse iteration covers the array");
  n = 3;
  for (auto it = c->rbegin(); it != c->rend(); ++it) sym_check(&*it == s->internalArray + --n, "const rbegin/rend");
  sym_check(n == 0, "reverse iteration covers the array");
  n = 3;
  for (auto it = c->crbegin(); it != c->crend(); ++it) sym_check(&*it == s->internalArray + --n, "crbegin/crend");
  sym_check(n == 0, "reverse iteration covers the array");
  delete s;
}

ENTRY(p04_modify) {
  typedef Array<i32, 3> A;
  A *s = new A, *t = new A;
  any(*s, "s");
  any(*t, "t");
  i32 a[3], b[3];
  for (int i = 0; i < 3; i++) { a[i] = s->internalArray[i]; b[i] = t->internalArray[i]; }
  switch (sym_choose("op", 5)) {
  case 0: {
    i32 v = (i32)sym_u32("value");
    s->fill(v);
    for (int i = 0; i < 3; i++) sym_check((*s)[i] == v && (*t)[i] == b[i], "fill sets every element of this array only");
    break;
  }
  case 1: s->swap(*t); for (int i = 0; i < 3; i++) sym_check((*s)[i] == b[i] && (*t)[i] == a[i], "swap exchanges every element"); break;
  case 2: s->swap(*s); for (int i = 0; i < 3; i++) sym_check((*s)[i] == a[i], "swap with itself keeps the elements"); break;
  case 3: *s = *t; for (int i = 0; i < 3; i++) sym_check((*s)[i] == b[i] && (*t)[i] == b[i], "copy"); break;
  default: {
    // the argument of fill may be an element of the array
    u64 k = sym_choose("element", 3);
    s->fill((*s)[k]);
    for (int i = 0; i < 3; i++) sym_check((*s)[i] == a[k], "fill with one of the elements");
    break;
  }
  }
  delete s;
  delete t;
}

ENTRY(p04_compare) {
  if (sym_bool("floating")) {
    typedef Array<float, 2> A;
    A a, b;
    any(a, "a");
    any(b, "b");
    bool eq = a.internalArray[0] == b.internalArray[0] && a.internalArray[1] == b.internalArray[1];
    bool lt = a.internalArray[0] < b.internalArray[0] || (!(b.internalArray[0] < a.internalArray[0]) && a.internalArray[1] < b.internalArray[1]);
    sym_check((a == b) == eq && (a != b) == !eq, "== is element-wise equality");
    sym_check((a < b) == lt && (b > a) == lt && (a >= b) == !lt && (b <= a) == !lt, "< is lexicographic");
    return;
  }
  typedef Array<i32, 3> A;
  A a, b;
  any(a, "a");
  any(b, "b");
  int o = 0;
  for (int i = 0; i < 3 && !o; i++) o = a.internalArray[i] < b.internalArray[i] ? -1 : a.internalArray[i] > b.internalArray[i];
  relations(a, b, o, o == 0);
  sym_observe("order", (u64)(std::int64_t)o);
  if (o == 0) sym_witness("equal arrays");
  Array<std::uint8_t, 1> c, d;
  any(c, "c");
  any(d, "d");
  o = c.internalArray[0] < d.internalArray[0] ? -1 : c.internalArray[0] > d.internalArray[0];
  relations(c, d, o, o == 0);
}

ENTRY(p04_compare_text) {
  typedef Array<Xsmp::String<2>, 2> A;
  A a, b;
  for (int i = 0; i < 2; i++) {
    SymStr x(2, "a"), y(1, "b");
    a[i] = x.p;
    b[i] = y.p;
  }
  int o = a[0].compare(b[0]);
  if (!o) o = a[1].compare(b[1]);
  relations(a, b, o, o == 0);
}

ENTRY(p04_nested) {
  typedef Array<Array<i32, 2>, 2> A;
  A *a = new A, *b = new A;
  sym_bytes(a, sizeof *a, "a");
  sym_bytes(b, sizeof *b, "b");
  const i32 *x = reinterpret_cast<const i32 *>(a), *y = reinterpret_cast<const i32 *>(b);
  int o = 0;
  for (int i = 0; i < 4 && !o; i++) o = x[i] < y[i] ? -1 : x[i] > y[i];
  relations(*a, *b, o, o == 0);
  u64 i = sym_u64("i"), j = sym_u64("j");
  bool thrown = false;
  i32 got = 0;
  try { got = a->at(i).at(j); } catch (const std::out_of_range &) { thrown = true; }
  sym_check(thrown == (i >= 2 || j >= 2), "range-checked access of both levels");
  if (!thrown) for (int k = 0; k < 4; k++) sym_check(k != (int)(2 * i + j) || got == x[k], "element of the inner array");
  Array<i32, 2> v{{1, 2}};
  a->fill(v);
  sym_check((*a)[0] == v && (*a)[1] == v, "fill with arrays");
  a->swap(*b);
  sym_check((*b)[0] == v && (*b)[1] == v, "swap of arrays of arrays");
  delete a;
  delete b;
}

ENTRY(p04_empty) {
  typedef Array<i32, 0> A;
  A a{}, b{};
  const A &c = a;
  sym_check(a.size() == 0 && a.max_size() == 0 && a.empty(), "no elements");
  sym_check(a.begin() == a.end() && c.begin() == c.end() && a.cbegin() == a.cend() && a.rbegin() == a.rend() && c.crbegin() == c.crend(), "no iteration");
  bool thrown = false;
  std::uint64_t i = sym_u64("index");
  try { a.at(i); } catch (const std::out_of_range &) { thrown = true; }
  sym_check(thrown, "every index is out of range");
  thrown = false;
  try { c.at(i); } catch (const std::out_of_range &) { thrown = true; }
  sym_check(thrown, "every index is out of range");
  a.fill(3);
  a.swap(b);
  relations(a, b, 0, true);
}

// Elements with owned state; aggregate initialisation fills the rest with default values.
ENTRY(p04_sizes) {
  i32 x = (i32)sym_u32("x"), y = (i32)sym_u32("y");
  Array<i32, 4> a{{x, y}};
  sym_check(a[0] == x && a[1] == y && a[2] == 0 && a[3] == 0, "aggregate initialisation");
  Array d{x, y, x};
  static_assert(std::is_same_v<decltype(d), Array<i32, 3>>);
  sym_check(d[0] == x && d[1] == y && d[2] == x, "deduced array");
  Array<i32, 3>::simple s{{x, y, x}};
  sym_check(s.size() == 3 && s.at(2) == x && s.back() == x, "simple array");
  sym_check(std::is_sorted(d.begin(), d.end()) == (x <= y && y <= x), "usable with algorithms");
}
