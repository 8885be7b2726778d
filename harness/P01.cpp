// P01: bounded string, mutating operations.
// ENTRY p01_construct
// ENTRY p01_sequence quick=2 thorough=3 weight=9
// ENTRY p01_sequence_wide quick=3 thorough=4 weight=9
// ENTRY p01_self quick=0 thorough=0
// ENTRY p01_embedded_nul
// ENTRY p01_capacity_zero
// ENTRY p01_lengths
#include "hlib.h"
#include <Xsmp/String.h>
#include <string>
#include <string_view>
using Xsmp::String;

namespace {
template <std::size_t N> struct Model {
  char t[N + 8];
  unsigned n = 0;
  void assign(const char *p, unsigned k) { n = 0; append(p, k); }
  void append(const char *p, unsigned k) {
    for (unsigned i = 0; i < k && n < N; i++) t[n++] = p[i];
  }
  void prefix(std::uint64_t k) {
    if (k >= n) { n = 0; return; }
    for (unsigned i = 0; i + k < n; i++) t[i] = t[i + k];
    n -= (unsigned)k;
  }
  void suffix(std::uint64_t k) { n = k >= n ? 0 : n - (unsigned)k; }
};
template <std::size_t N> void agree(const String<N> &s, const Model<N> &m) {
  sym_check(s.size() == m.n, "the size is the size of the text cut at the capacity");
  sym_check(s.length() == m.n, "length() is the size");
  sym_check(s.empty() == (m.n == 0), "empty() tells whether the size is zero");
  for (unsigned i = 0; i < m.n; i++) sym_check(s.c_str()[i] == m.t[i], "the content is the text cut at the capacity");
  sym_check(s.c_str()[m.n] == '\0', "the content is terminated inside the buffer");
}
template <std::size_t N> void mutate(String<N> &s, Model<N> &m, unsigned maxSrc) {
  switch (sym_choose("op", 16)) {
  case 0: { SymStr in(maxSrc, "src"); s.assign(std::string_view(in.p, in.n)); m.assign(in.p, in.n); break; }
  case 1: { SymStr in(maxSrc, "src"); s.assign(in.p, in.n); m.assign(in.p, in.n); break; }
  case 2: { SymStr in(maxSrc, "src"); s = in.p; m.assign(in.p, in.n); break; }
  case 3: { SymStr in(3, "src"); String<3> o(in.p); s.assign(o); m.assign(in.p, in.n); break; }
  case 4: { SymStr in(2, "src"); String<2> o(in.p); s = o; m.assign(in.p, in.n); sym_witness("assigned from another capacity"); break; }
  case 5: { SymStr in(maxSrc, "src"); s.append(std::string_view(in.p, in.n)); m.append(in.p, in.n); break; }
  case 6: { SymStr in(maxSrc, "src"); s.append(in.p, in.n); m.append(in.p, in.n); break; }
  case 7: { SymStr in(3, "src"); String<3> o(in.p); s.append(o); m.append(in.p, in.n); break; }
  case 8: { SymStr in(maxSrc, "src"); s += in.p; m.append(in.p, in.n); break; }
  case 9: { char c = (char)sym_u8("chr"); sym_assume(c != 0); s += c; m.append(&c, 1); break; }
  case 10: { char c = (char)sym_u8("chr"); sym_assume(c != 0); s.push_back(c); m.append(&c, 1); break; }
  case 11: s.pop_back(); m.suffix(1); break;
  case 12: { std::uint64_t k = sym_u64("count"); s.remove_prefix(k); m.prefix(k); sym_witness("remove_prefix"); break; }
  case 13: { std::uint64_t k = sym_u64("count"); s.remove_suffix(k); m.suffix(k); break; }
  case 14: s.clear(); m.n = 0; break;
  default: {
    SymStr in(maxSrc, "src");
    String<N> *o = new String<N>(in.p);
    Model<N> mo;
    mo.assign(in.p, in.n);
    s.swap(*o);
    agree(*o, m);
    m = mo;
    delete o;
    break;
  }
  }
}
template <std::size_t N> void sequence(unsigned steps, unsigned maxSrc, unsigned init) {
  SymStr in(init, "init");
  String<N> *s = new String<N>(in.p); // on its own, so that any access outside its buffer is seen
  Model<N> m;
  m.assign(in.p, in.n);
  agree(*s, m);
  for (unsigned k = 0; k < steps; k++) {
    mutate(*s, m, maxSrc);
    agree(*s, m);
  }
  sym_observe("size", s->size());
  sym_observe("first", (unsigned char)s->c_str()[0]);
  delete s;
}
}

ENTRY(p01_construct) {
  SymStr in(6, "src");
  Model<4> m;
  m.assign(in.p, in.n);
  String<4> *s = nullptr;
  switch (sym_choose("ctor", 6)) {
  case 0: s = new String<4>(in.p); break;
  case 1: s = new String<4>(std::string(in.p, in.n)); break;
  case 2: s = new String<4>(std::string_view(in.p, in.n)); break;
  case 3: s = new String<4>(in.p, in.n); break;
  case 4: { String<6> o(in.p); s = new String<4>(o); break; }
  default: { String<4> o(in.p); s = new String<4>(o); break; }
  }
  agree(*s, m);
  String<4> d;
  sym_check(d.empty() && d.c_str()[0] == 0, "a default string is empty");
  sym_check(d.max_size() == 4, "max_size is the capacity");
  d = *s;
  agree(d, m);
  if (in.n > 4) sym_witness("longer than the capacity");
  // concatenation with other texts is not cut
  std::string sum = *s + d;
  sym_check(sum.size() == 2 * m.n, "concatenation keeps both texts");
  for (unsigned i = 0; i < m.n; i++) sym_check(sum[i] == m.t[i] && sum[m.n + i] == m.t[i], "concatenation keeps both texts");
  std::string l = std::string_view(in.p, in.n) + *s, r = *s + std::string_view(in.p, in.n);
  sym_check(l == std::string(in.p, in.n) + std::string(m.t, m.n), "concatenation on the left");
  sym_check(r == std::string(m.t, m.n) + std::string(in.p, in.n), "concatenation on the right");
  char c = (char)sym_u8("chr");
  std::string lc = c + *s, rc = *s + c;
  sym_check(lc == std::string(1, c) + std::string(m.t, m.n) && rc == std::string(m.t, m.n) + std::string(1, c), "concatenation with a character");
  delete s;
}

ENTRY(p01_sequence) { sequence<2>((unsigned)sym_bound(2), 3, 3); }
ENTRY(p01_sequence_wide) { sequence<1>((unsigned)sym_bound(3), 2, 1); }

// Assigning or appending a part of the string to itself.
ENTRY(p01_self) {
  SymStr in(5, "init");
  String<5> *s = new String<5>(in.p);
  Model<5> m;
  m.assign(in.p, in.n);
  std::uint64_t pos = sym_choose("pos", in.n + 1), cnt = sym_choose("cnt", in.n + 1 - pos);
  switch (sym_choose("op", 4)) {
  case 0: s->assign(s->substr(pos, cnt)); m.assign(in.p + pos, cnt); break;
  case 1: s->append(s->substr(pos, cnt)); m.append(in.p + pos, cnt); break;
  case 2: *s = s->substr(pos, cnt); m.assign(in.p + pos, cnt); break;
  default: s->append(*s); m.append(in.p, in.n); break;
  }
  agree(*s, m);
  if (pos && cnt) sym_witness("overlapping");
  delete s;
}

// A text with a terminator inside counts up to it; the buffer stays bounded and terminated.
ENTRY(p01_embedded_nul) {
  char raw[6];
  sym_bytes(raw, 6, "raw");
  unsigned n = sym_choose("n", 7);
  String<4> *s = new String<4>(raw, n);
  unsigned k = 0;
  while (k < n && k < 4 && raw[k]) k++;
  sym_check(s->size() == k, "the content ends at the first terminator");
  for (unsigned i = 0; i < k; i++) sym_check(s->c_str()[i] == raw[i], "the content is the text");
  s->append(raw, n);
  unsigned j = 0;
  while (j < n && k + j < 4 && raw[j]) j++;
  sym_check(s->size() == k + j, "the content ends at the first terminator");
  for (unsigned i = 0; i < j; i++) sym_check(s->c_str()[k + i] == raw[i], "appended text");
  delete s;
}

ENTRY(p01_capacity_zero) {
  SymStr in(2, "src");
  String<0> *s = new String<0>(in.p);
  sym_check(s->empty() && s->c_str()[0] == 0, "capacity zero is always empty");
  *s += in.p;
  s->push_back('a');
  s->assign(in.p, in.n);
  sym_check(s->empty() && s->c_str()[0] == 0, "capacity zero is always empty");
  delete s;
}

// Long texts around the usual limits of small integers.
ENTRY(p01_lengths) {
  static const unsigned L[] = {0, 1, 127, 128, 255, 256, 257, 299, 300, 301, 400};
  char *t = new char[401];
  for (int i = 0; i < 400; i++) t[i] = (char)('a' + i % 23);
  t[400] = 0;
  unsigned n = L[sym_choose("n", 11)], m = L[sym_choose("m", 11)];
  String<300> *s = new String<300>(t, n);
  unsigned k = n < 300 ? n : 300;
  sym_check(s->size() == k && s->length() == k && s->empty() == (k == 0), "the size is the size of the text cut at the capacity");
  for (unsigned i = 0; i < k; i++) sym_check(s->c_str()[i] == t[i], "the content is the text cut at the capacity");
  switch (sym_choose("op", 5)) {
  case 0: {
    s->append(t, m);
    unsigned j = m < 300 - k ? m : 300 - k;
    sym_check(s->size() == k + j, "appended text is cut at the capacity");
    for (unsigned i = 0; i < j; i++) sym_check(s->c_str()[k + i] == t[i], "appended text");
    break;
  }
  case 1: {
    s->remove_prefix(m);
    unsigned j = m < k ? m : k;
    sym_check(s->size() == k - j, "removal at the start");
    for (unsigned i = 0; i + j < k; i++) sym_check(s->c_str()[i] == t[i + j], "removal at the start");
    break;
  }
  case 2: s->remove_suffix(m); sym_check(s->size() == (m < k ? k - m : 0), "removal at the end"); break;
  case 3: { String<256> o(*s); sym_check(o.size() == (k < 256 ? k : 256), "cut at the smaller capacity"); s->assign(o); sym_check(s->size() == o.size(), "assigned from a smaller capacity"); break; }
  default: s->assign(std::string_view(t, m)); sym_check(s->size() == (m < 300 ? m : 300), "assigned"); break;
  }
  sym_check(s->c_str()[s->size()] == 0, "terminated");
  delete s;
  delete[] t;
}
