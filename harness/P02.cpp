// P02: bounded string, observers.
// ENTRY p02_find quick=3 thorough=4 weight=5
// ENTRY p02_rfind quick=3 thorough=4 weight=5
// ENTRY p02_first_of quick=3 thorough=4 weight=5
// ENTRY p02_last_of quick=3 thorough=4 weight=5
// ENTRY p02_first_not_of quick=3 thorough=4 weight=5
// ENTRY p02_last_not_of quick=3 thorough=4 weight=5
// ENTRY p02_compare quick=3 thorough=4 weight=5
// ENTRY p02_compare_view quick=3 thorough=4 weight=5
// ENTRY p02_access quick=3 thorough=5
// ENTRY p02_substr quick=3 thorough=5
// ENTRY p02_iterate quick=3 thorough=5
// ENTRY p02_long
// ENTRY p02_lengths
#include "hlib.h"
#include <Xsmp/String.h>
#include <functional>
#include <stdexcept>
#include <string>
#include <string_view>
using Xsmp::String;
typedef std::uint64_t u64;

namespace {
const u64 NPOS = (u64)-1;
// A bounded string whose content is in.p; it previously held a longer text, so that stale bytes follow the content.
template <std::size_t N> String<N> *stale(const SymStr &in, const char *name) {
  char prev[N + 1];
  for (std::size_t i = 0; i < N; i++) prev[i] = 'x';
  prev[N] = 0;
  String<N> *s = new String<N>(prev);
  s->assign(in.p, in.n);
  return s;
}
bool isIn(char c, const char *p, unsigned k) {
  bool r = false;
  for (unsigned i = 0; i < k; i++) r |= c == p[i];
  return r;
}
bool at(const char *c, const char *p, unsigned k) {
  bool r = true;
  for (unsigned i = 0; i < k; i++) r &= c[i] == p[i];
  return r;
}
enum Kind { FIND, RFIND, FIRST_OF, LAST_OF, FIRST_NOT, LAST_NOT };
u64 oracle(Kind kind, const char *c, unsigned n, const char *p, unsigned k, u64 pos) {
  u64 r = NPOS;
  for (unsigned i = 0; i <= n; i++) {
    bool back = kind == RFIND || kind == LAST_OF || kind == LAST_NOT, ok;
    if (kind == FIND || kind == RFIND) ok = i + k <= n && at(c + i, p, k);
    else if (i == n) ok = false;
    else ok = isIn(c[i], p, k) == (kind == FIRST_OF || kind == LAST_OF);
    ok &= back ? i <= pos : i >= pos;
    if (back) { if (ok) r = i; }
    else if (ok && r == NPOS) r = i;
  }
  return r;
}
template <Kind K, class S, class... A> u64 ask(const S &s, A... a) {
  if constexpr (K == FIND) return s.find(a...);
  else if constexpr (K == RFIND) return s.rfind(a...);
  else if constexpr (K == FIRST_OF) return s.find_first_of(a...);
  else if constexpr (K == LAST_OF) return s.find_last_of(a...);
  else if constexpr (K == FIRST_NOT) return s.find_first_not_of(a...);
  else return s.find_last_not_of(a...);
}
template <Kind K> void search() {
  bool back = K == RFIND || K == LAST_OF || K == LAST_NOT;
  SymStr in((unsigned)sym_bound(3), "content");
  const String<4> *s = stale<4>(in, "stale");
  u64 form = sym_choose("form", 8), pos = 0, def = back ? NPOS : 0;
  if (form < 4) pos = sym_u64("pos");
  u64 r, e;
  if (form % 4 == 1) {
    char c = (char)sym_u8("chr");
    r = form < 4 ? ask<K>(*s, c, pos) : ask<K>(*s, c);
    e = oracle(K, in.p, in.n, &c, 1, form < 4 ? pos : def);
  } else {
    SymStr pat(2, "pattern");
    switch (form) {
    case 0: r = ask<K>(*s, std::string_view(pat.p, pat.n), pos); e = oracle(K, in.p, in.n, pat.p, pat.n, pos); break;
    case 2: r = ask<K>(*s, (const char *)pat.p, pos); e = oracle(K, in.p, in.n, pat.p, pat.n, pos); break;
    case 3: { u64 cnt = sym_choose("count", pat.n + 1); r = ask<K>(*s, (const char *)pat.p, pos, cnt); e = oracle(K, in.p, in.n, pat.p, (unsigned)cnt, pos); break; }
    case 4: r = ask<K>(*s, std::string_view(pat.p, pat.n)); e = oracle(K, in.p, in.n, pat.p, pat.n, def); break;
    default: r = ask<K>(*s, (const char *)pat.p); e = oracle(K, in.p, in.n, pat.p, pat.n, def); break;
    }
  }
  sym_check(r == e, "the search gives the position it gives on the content");
  if (r != NPOS) sym_witness("found");
  sym_observe("pos", r);
  delete s;
}
int sign(long v) { return (v > 0) - (v < 0); }
int order(const char *a, unsigned n, const char *b, unsigned m) {
  for (unsigned i = 0; i < n && i < m; i++)
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return sign((long)n - (long)m);
}
template <class A, class B> void relations(const A &a, const B &b, int o) {
  sym_check((a == b) == (o == 0), "== is equality of the contents");
  sym_check((a != b) == (o != 0), "!= is difference of the contents");
  sym_check((a < b) == (o < 0), "< is the order of the contents");
  sym_check((a > b) == (o > 0), "> is the order of the contents");
  sym_check((a <= b) == (o <= 0), "<= is the order of the contents");
  sym_check((a >= b) == (o >= 0), ">= is the order of the contents");
}
}

ENTRY(p02_find) { search<FIND>(); }
ENTRY(p02_rfind) { search<RFIND>(); }
ENTRY(p02_first_of) { search<FIRST_OF>(); }
ENTRY(p02_last_of) { search<LAST_OF>(); }
ENTRY(p02_first_not_of) { search<FIRST_NOT>(); }
ENTRY(p02_last_not_of) { search<LAST_NOT>(); }

ENTRY(p02_compare) {
  unsigned n = (unsigned)sym_bound(3);
  SymStr a(n, "a"), b(n, "b");
  String<4> *s = stale<4>(a, "stale");
  int o = order(a.p, a.n, b.p, b.n);
  if (sym_bool("other capacity")) {
    String<6> *t = stale<6>(b, "stale2");
    relations(*s, *t, o);
    sym_check(sign(s->compare(*t)) == o, "compare() has the sign of the order");
    sym_check(sign(t->compare(*s)) == -o, "compare() is antisymmetric");
    delete t;
  } else {
    String<4> *t = stale<4>(b, "stale2");
    relations(*s, *t, o);
    sym_check(sign(s->compare(*t)) == o, "compare() has the sign of the order");
    if (o == 0) {
      sym_witness("equal contents");
      sym_check(std::hash<String<4>>()(*s) == std::hash<String<4>>()(*t), "equal strings have equal hashes");
    }
    delete t;
  }
  if (o < 0 && a.n && b.n && (a.p[0] & 0x80)) sym_witness("bytes above 127");
  sym_observe("order", (u64)(std::int64_t)o);
  delete s;
}

ENTRY(p02_compare_view) {
  unsigned n = (unsigned)sym_bound(3);
  SymStr a(n, "a"), b(n, "b");
  String<4> *s = stale<4>(a, "stale");
  int o = order(a.p, a.n, b.p, b.n);
  char *raw = new char[b.n ? b.n : 1]; // a view need not be terminated
  for (unsigned i = 0; i < b.n; i++) raw[i] = b.p[i];
  std::string_view v(raw, b.n);
  switch (sym_choose("form", 6)) {
  case 0: relations(*s, v, o); break;
  case 1: relations(v, *s, -o); break;
  case 2: { const char *z = b.p; relations(*s, z, o); break; }
  case 3: {
    const char *z = b.p;
    relations(z, *s, -o);
    break;
  }
  case 4: { std::string z(b.p, b.n); relations(*s, z, o); relations(z, *s, -o); break; }
  default: sym_check(sign(s->compare(v)) == o, "compare() has the sign of the order"); break;
  }
  delete[] raw;
  delete s;
}

ENTRY(p02_access) {
  SymStr in((unsigned)sym_bound(3), "content");
  String<4> *s = stale<4>(in, "stale");
  const String<4> *c = s;
  u64 pos = sym_u64("pos");
  bool thrown = false;
  char got = 0;
  try { got = sym_bool("const") ? c->at(pos) : s->at(pos); } catch (const std::out_of_range &) { thrown = true; }
  sym_check(thrown == (pos >= in.n), "at() throws exactly for positions outside the content");
  if (!thrown) {
    char e = 0;
    for (unsigned i = 0; i < in.n; i++) if (i == pos) e = in.p[i];
    sym_check(got == e, "at() gives the character at the position");
    sym_check((*c)[pos] == e && (*s)[pos] == e, "operator[] gives the character at the position");
    sym_check(&(*s)[pos] == s->data() + pos && &s->at(pos) == s->data() + pos, "element access refers to the element");
  } else sym_witness("out of range");
  if (in.n) {
    sym_check(s->front() == in.p[0] && c->front() == in.p[0], "front() is the first character");
    sym_check(s->back() == in.p[in.n - 1] && c->back() == in.p[in.n - 1], "back() is the last character");
    // writing through a reference changes that character only
    u64 w = sym_choose("write at", in.n);
    char v = (char)sym_u8("value");
    sym_assume(v != 0);
    switch (sym_choose("how", 4)) {
    case 0: (*s)[w] = v; break;
    case 1: s->at(w) = v; break;
    case 2: s->data()[w] = v; break;
    default: if (w == 0) s->front() = v; else if (w + 1 == in.n) s->back() = v; else (*s)[w] = v; break;
    }
    for (unsigned i = 0; i < in.n; i++) sym_check(c->c_str()[i] == (i == w ? v : in.p[i]), "one character changed");
    sym_check(c->size() == in.n, "same size");
  }
  delete s;
}

ENTRY(p02_substr) {
  SymStr in((unsigned)sym_bound(3), "content");
  const String<4> *s = stale<4>(in, "stale");
  u64 form = sym_choose("form", 3), pos = 0, n = NPOS;
  if (form > 0) pos = sym_u64("pos");
  if (form > 1) n = sym_u64("n");
  bool thrown = false;
  std::string_view v;
  try { v = form == 0 ? s->substr() : form == 1 ? s->substr(pos) : s->substr(pos, n); } catch (const std::out_of_range &) { thrown = true; }
  sym_check(thrown == (pos > in.n), "substr() throws exactly for a start behind the content");
  if (!thrown) {
    u64 left = in.n - pos, e = n < left ? n : left;
    sym_check(v.size() == e, "size of the part");
    sym_check(v.data() == s->data() + pos, "the part is the part of the string");
  }
  delete s;
}

ENTRY(p02_iterate) {
  SymStr in((unsigned)sym_bound(3), "content");
  String<4> *s = stale<4>(in, "stale");
  const String<4> *c = s;
  unsigned n = 0;
  for (char x : *s) { sym_check(n < in.n && x == in.p[n], "iteration visits the content in order"); n++; }
  sym_check(n == in.n, "iteration visits all the content");
  n = 0;
  for (char x : *c) { sym_check(n < in.n && x == in.p[n], "iteration visits the content in order"); n++; }
  sym_check(n == in.n, "iteration visits all the content");
  n = 0;
  for (auto it = c->cbegin(); it != c->cend(); ++it) { sym_check(n < in.n && *it == in.p[n], "iteration visits the content in order"); n++; }
  sym_check(n == in.n, "iteration visits all the content");
  switch (sym_choose("reverse", 3)) {
  case 0: for (auto it = s->rbegin(); it != s->rend(); ++it) { n--; sym_check(*it == in.p[n], "reverse iteration"); } break;
  case 1: for (auto it = c->rbegin(); it != c->rend(); ++it) { n--; sym_check(*it == in.p[n], "reverse iteration"); } break;
  default: for (auto it = c->crbegin(); it != c->crend(); ++it) { n--; sym_check(*it == in.p[n], "reverse iteration"); } break;
  }
  sym_check(n == 0, "reverse iteration visits all the content");
  sym_check(std::string(s->c_str()) == std::string(in.p, in.n) && s->data() == s->c_str(), "c_str() is the content");
  delete s;
}

// Differences late in long strings, and differences of length only.
ENTRY(p02_long) {
  char a[40], b[40];
  for (int i = 0; i < 40; i++) a[i] = b[i] = 'm';
  unsigned n = (unsigned)sym_choose("n", 33), m = (unsigned)sym_choose("m", 33);
  unsigned d = (unsigned)sym_range("at", 0, 31);
  char v = (char)sym_u8("value");
  sym_assume(v != 0);
  a[d] = v;
  a[n] = 0; b[m] = 0;
  String<32> s(a);
  String<40> t(b);
  int o = order(a, n, b, m);
  sym_check(sign(s.compare(t)) == o && (s == t) == (o == 0) && (s < t) == (o < 0), "the order of the contents");
  sym_check((b > s) == (o < 0) && (b == s) == (o == 0) && (b <= s) == (o >= 0), "the order of the contents");
}

// Equal prefixes of very different lengths.
ENTRY(p02_lengths) {
  static const unsigned L[] = {0, 1, 2, 127, 128, 255, 256, 257, 300};
  static char t[301];
  for (int i = 0; i < 300; i++) t[i] = 'm';
  unsigned n = L[sym_choose("n", 9)], m = L[sym_choose("m", 9)];
  static String<300> a, b;
  a = std::string_view(t, n);
  b = std::string_view(t, m);
  int o = n < m ? -1 : n > m;
  relations(a, b, o);
  relations(a, std::string_view(t, m), o);
  relations(std::string_view(t, n), b, o);
  sym_check(a.find(std::string_view(t, m)) == (m <= n ? 0 : NPOS), "search");
  sym_check(a.rfind(std::string_view(t, m)) == (m <= n ? n - m : NPOS), "search");
  sym_check(a.substr(n > m ? m : n).size() == n - (n > m ? m : n), "part");
}
