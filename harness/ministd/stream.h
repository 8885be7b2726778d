// A small, self-contained model of the standard library's streams and file system, force-included in front of every source of a harness
// that needs them: the code under test then uses these classes (renamed so that they cannot be mixed up with the library's own).
// Text formatting follows the standard's rules for integers, booleans, characters, texts, width, fill and base; floating-point numbers
// are written as their bit pattern, integers of 4096 and more as their hexadecimal digits in braces. Files live in memory, and every operation on them can be made to fail.
#ifndef MINISTD_STREAM_H
#define MINISTD_STREAM_H
#include <algorithm>
#include <array>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <istream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <ostream>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <date/date.h>

namespace ministd {
// ---- files
enum Op { OpenWrite, OpenRead, Write, Read, Close, MakeDir };
struct File { std::string name; std::string data; bool dir; };
inline std::vector<File> files;
inline bool (*fault)(Op); // does this operation fail?
inline unsigned bufferSize = 4;
inline unsigned partial; // bytes of a failing write which are written all the same
inline unsigned handles; // open files
inline bool fails(Op o) { return fault && fault(o); }
inline File *find(const std::string &n) { for (auto &f : files) if (f.name == n) return &f; return nullptr; }
inline void mkdir(const char *n) { files.push_back({n, "", true}); }
inline std::string parent(const std::string &n) { auto p = n.rfind('/'); return p == std::string::npos ? "" : p == 0 ? "/" : n.substr(0, p); }
inline bool isDir(const std::string &n0) {
  std::string n = n0;
  while (n.size() > 1 && n.back() == '/') n.pop_back();
  if (n == "/" || n == ".") return true;
  auto *f = find(n);
  return f && f->dir;
}
inline bool hasDir(const std::string &n) { auto p = parent(n); return p.empty() || isDir(p); }
inline bool makeDirs(const std::string &n0) { // false on failure
  std::string n = n0;
  while (n.size() > 1 && n.back() == '/') n.pop_back();
  if (n.empty()) return false;
  if (isDir(n)) return true;
  if (find(n) || fails(MakeDir)) return false;
  auto p = parent(n);
  if (!p.empty() && !makeDirs(p)) return false;
  files.push_back({n, "", true});
  return true;
}
inline std::string out, err; // what was written to the console
inline void put64(std::string &s, std::uint64_t v, unsigned nibbles) { for (unsigned i = nibbles; i--;) { unsigned d = (unsigned)(v >> (4 * i)) & 15; s.push_back((char)(d + '0' + (d > 9 ? 'a' - '0' - 10 : 0))); } }
}

namespace std {
class sym_ios_base {
public:
  typedef unsigned fmtflags, iostate, openmode, seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384,
                            adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  typedef ::std::ios_base::failure failure;
  fmtflags flags() const { return _flags; }
  fmtflags flags(fmtflags f) { auto o = _flags; _flags = f; return o; }
  fmtflags setf(fmtflags f) { auto o = _flags; _flags |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { auto o = _flags; _flags = (_flags & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { _flags &= ~m; }
  streamsize width() const { return _width; }
  streamsize width(streamsize w) { auto o = _width; _width = w; return o; }
  streamsize precision() const { return _precision; }
  streamsize precision(streamsize p) { auto o = _precision; _precision = p; return o; }

protected:
  fmtflags _flags = dec | skipws;
  streamsize _width = 0, _precision = 6;
};
class sym_streambuf {
public:
  virtual ~sym_streambuf() = default;
  virtual streamsize sputn(const char *, streamsize) { return 0; }
  virtual streamsize sgetn(char *, streamsize) { return 0; }
  virtual int pubsync() { return 0; }
  virtual int sgetc() { return -1; }
  virtual streamsize in_avail() { return -1; }
  virtual streamsize size() { return -1; }        // of the whole sequence, -1 when it has no positions
  virtual streamsize at_pos() { return -1; }
  virtual void to_pos(streamsize) {}
  int sputc(char c) { return sputn(&c, 1) == 1 ? (unsigned char)c : -1; }
  int sbumpc() { char c; return sgetn(&c, 1) == 1 ? (unsigned char)c : -1; }
};
class sym_ios : public sym_ios_base {
public:
  sym_ios() = default;
  virtual ~sym_ios() = default;
  iostate rdstate() const { return _state; }
  void clear(iostate s = goodbit) { _state = s; if (_state & _except) throw 1; }
  void setstate(iostate s) { clear(_state | s); }
  bool good() const { return _state == 0; }
  bool eof() const { return _state & eofbit; }
  bool fail() const { return _state & (failbit | badbit); }
  bool bad() const { return _state & badbit; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate exceptions() const { return _except; }
  void exceptions(iostate e) { _except = e; clear(_state); }
  char fill() const { return _fill; }
  char fill(char c) { auto o = _fill; _fill = c; return o; }
  sym_ios &copyfmt(const sym_ios &o) { _flags = o._flags; _width = o._width; _precision = o._precision; _fill = o._fill; return *this; }
  sym_streambuf *rdbuf() const { return _buf; }
  sym_streambuf *rdbuf(sym_streambuf *b) { auto o = _buf; _buf = b; clear(); return o; }
  void init(sym_streambuf *b) { _buf = b; }

protected:
  iostate _state = 0, _except = 0;
  char _fill = ' ';
  sym_streambuf *_buf = nullptr;
};
class sym_ostream : public virtual sym_ios {
  template <typename U> sym_ostream &number(U mag, bool neg, bool isSigned) {
    auto base = _flags & basefield;
    if (base != hex && base != oct) base = dec;
    std::string d;
    if (base == hex && (unsigned)width() >= 2 * sizeof(U) && _fill == '0' && !(_flags & (showbase | uppercase | left | internal))) {
      ministd::put64(d, mag, 2 * sizeof(U)); // full width: the same digits for every value, without counting them
      streamsize w = width(0);
      std::string pad;
      while ((streamsize)(pad.size() + d.size()) < w) pad.push_back('0');
      return raw((pad + d).data(), (streamsize)(pad.size() + d.size()));
    }
    if constexpr (sizeof(U) > 2) {
      // large numbers are opaque in every base: their digits cost the solver much and tell nothing
      if (mag >= 4096) {
        d = "{";
        ministd::put64(d, mag, 2 * sizeof(U));
        d += base == hex ? "h}" : base == oct ? "o}" : "}";
      } else return number<std::uint16_t>((std::uint16_t)mag, neg, isSigned);
    }
    std::uint16_t b = base == hex ? 16 : base == oct ? 8 : 10, v = (std::uint16_t)mag;
    if (d.empty()) do {
      unsigned c = (unsigned)(v % b);
      d.insert(d.begin(), (char)(c < 10 ? '0' + c : (_flags & uppercase ? 'A' : 'a') + c - 10));
      v = (std::uint16_t)(v / b);
    } while (v);
    std::string sign;
    if (base == dec && isSigned) { if (neg) sign = "-"; else if (_flags & showpos) sign = "+"; }
    if ((_flags & showbase) && mag) { if (base == hex) sign = _flags & uppercase ? "0X" : "0x"; else if (base == oct) sign = "0"; }
    return padded(sign, d);
  }
  template <typename S> sym_ostream &sig(S v) {
    typedef std::make_unsigned_t<S> U;
    const bool d = (_flags & basefield) != hex && (_flags & basefield) != oct, neg = v < 0;
    return number<U>((U)(d && neg ? (U)0 - (U)v : (U)v), neg, true);
  }
  sym_ostream &padded(const std::string &sign, const std::string &d) {
    std::string s;
    streamsize w = width(0), n = (streamsize)(sign.size() + d.size());
    if ((_flags & adjustfield) == internal) { s += sign; for (; n < w; n++) s.push_back(_fill); s += d; }
    else if ((_flags & adjustfield) == left) { s += sign + d; for (; n < w; n++) s.push_back(_fill); }
    else { for (; n < w; n++) s.push_back(_fill); s += sign + d; }
    return raw(s.data(), (streamsize)s.size());
  }
  sym_ostream &raw(const char *s, streamsize n) {
    if (!good()) { setstate(failbit); return *this; }
    if (n && (!_buf || _buf->sputn(s, n) != n)) setstate(badbit);
    return *this;
  }

public:
  sym_ostream() = default;
  explicit sym_ostream(sym_streambuf *b) { init(b); }
  sym_ostream &write(const char *s, streamsize n) { return raw(s, n); }
  sym_ostream &put(char c) { return raw(&c, 1); }
  sym_ostream &flush() { if (_buf && good() && _buf->pubsync() < 0) setstate(badbit); return *this; }
  sym_ostream &text(const char *s, std::size_t n) { return padded("", std::string(s, n)); }
  sym_ostream &operator<<(bool v) { if (!(_flags & boolalpha)) return sig((long)v); return v ? text("true", 4) : text("false", 5); }
  sym_ostream &operator<<(short v) { return sig(v); }
  sym_ostream &operator<<(unsigned short v) { return number(v, false, false); }
  sym_ostream &operator<<(int v) { return sig(v); }
  sym_ostream &operator<<(unsigned v) { return number(v, false, false); }
  sym_ostream &operator<<(long v) { return sig(v); }
  sym_ostream &operator<<(unsigned long v) { return number(v, false, false); }
  sym_ostream &operator<<(long long v) { return sig(v); }
  sym_ostream &operator<<(unsigned long long v) { return number(v, false, false); }
  sym_ostream &operator<<(float v) { std::uint32_t b; memcpy(&b, &v, 4); std::string s = "{float "; ministd::put64(s, b, 8); return padded("", s + "}"); }
  sym_ostream &operator<<(double v) { std::uint64_t b; memcpy(&b, &v, 8); std::string s = "{double "; ministd::put64(s, b, 16); return padded("", s + "}"); }
  sym_ostream &operator<<(const void *p) { return text("{pointer}", 9); }
  sym_ostream &operator<<(std::nullptr_t) { return text("nullptr", 7); }
  sym_ostream &operator<<(sym_ostream &(*f)(sym_ostream &)) { return f(*this); }
  sym_ostream &operator<<(sym_ios &(*f)(sym_ios &)) { f(*this); return *this; }
  sym_ostream &operator<<(sym_ios_base &(*f)(sym_ios_base &)) { f(*this); return *this; }
};
inline sym_ostream &operator<<(sym_ostream &o, char c) { return o.text(&c, 1); }
inline sym_ostream &operator<<(sym_ostream &o, signed char c) { return o << (char)c; }
inline sym_ostream &operator<<(sym_ostream &o, unsigned char c) { return o << (char)c; }
inline sym_ostream &operator<<(sym_ostream &o, const char *s) { if (!s) { o.setstate(sym_ios_base::badbit); return o; } return o.text(s, strlen(s)); }
inline sym_ostream &operator<<(sym_ostream &o, const std::string &s) { return o.text(s.data(), s.size()); }
inline sym_ostream &operator<<(sym_ostream &o, std::string_view s) { return o.text(s.data(), s.size()); }
// output to a temporary stream
template <typename O, typename T, typename = std::enable_if_t<!std::is_lvalue_reference_v<O> && std::is_base_of_v<sym_ostream, O>>> O &&operator<<(O &&o, const T &v) { static_cast<sym_ostream &>(o) << v; return std::move(o); }
#define MANIP(n, set) static inline sym_ios_base &n(sym_ios_base &s) { set; return s; }
MANIP(hex, s.setf(sym_ios_base::hex, sym_ios_base::basefield)) MANIP(oct, s.setf(sym_ios_base::oct, sym_ios_base::basefield)) MANIP(dec, s.setf(sym_ios_base::dec, sym_ios_base::basefield))
MANIP(boolalpha, s.setf(sym_ios_base::boolalpha)) MANIP(noboolalpha, s.unsetf(sym_ios_base::boolalpha)) MANIP(showbase, s.setf(sym_ios_base::showbase)) MANIP(noshowbase, s.unsetf(sym_ios_base::showbase))
MANIP(showpos, s.setf(sym_ios_base::showpos)) MANIP(noshowpos, s.unsetf(sym_ios_base::showpos)) MANIP(uppercase, s.setf(sym_ios_base::uppercase)) MANIP(nouppercase, s.unsetf(sym_ios_base::uppercase))
MANIP(left, s.setf(sym_ios_base::left, sym_ios_base::adjustfield)) MANIP(right, s.setf(sym_ios_base::right, sym_ios_base::adjustfield)) MANIP(internal, s.setf(sym_ios_base::internal, sym_ios_base::adjustfield))
MANIP(fixed, s.setf(sym_ios_base::fixed, sym_ios_base::floatfield)) MANIP(scientific, s.setf(sym_ios_base::scientific, sym_ios_base::floatfield)) MANIP(skipws, s.setf(sym_ios_base::skipws)) MANIP(noskipws, s.unsetf(sym_ios_base::skipws))
#undef MANIP
static inline sym_ostream &flush(sym_ostream &o) { return o.flush(); }
static inline sym_ostream &endl(sym_ostream &o) { return o.put('\n').flush(); }
static inline sym_ostream &ends(sym_ostream &o) { return o.put('\0'); }
inline sym_ostream &operator<<(sym_ostream &o, _Setw w) { o.width(w._M_n); return o; }
inline sym_ostream &operator<<(sym_ostream &o, _Setprecision w) { o.precision(w._M_n); return o; }
template <typename C> inline sym_ostream &operator<<(sym_ostream &o, _Setfill<C> f) { o.fill(f._M_c); return o; }

class sym_istream : public virtual sym_ios {
  streamsize _count = 0;

public:
  sym_istream() = default;
  explicit sym_istream(sym_streambuf *b) { init(b); }
  sym_istream &read(char *s, streamsize n) {
    _count = 0;
    if (!good()) { setstate(failbit); return *this; }
    streamsize k = _buf ? _buf->sgetn(s, n) : 0;
    if (k < 0) { setstate(badbit); return *this; }
    _count = k;
    if (k < n) setstate(eofbit | failbit);
    return *this;
  }
  streamsize gcount() const { return _count; }
  streamsize readsome(char *s, streamsize n) {
    _count = 0;
    if (!good()) { setstate(failbit); return 0; }
    streamsize k = _buf ? _buf->in_avail() : -1;
    if (k < 0) { setstate(eofbit); return 0; }
    k = _buf->sgetn(s, k < n ? k : n);
    if (k < 0) { setstate(badbit); return 0; }
    return _count = k;
  }
  streamsize tellg() { return fail() || !_buf ? -1 : _buf->at_pos(); }
  sym_istream &seekg(streamsize off, seekdir dir = beg) {
    clear(_state & ~eofbit);
    if (fail()) return *this;
    streamsize z = _buf ? _buf->size() : -1, to = off + (dir == 0 ? 0 : dir == 1 ? (_buf ? _buf->at_pos() : 0) : z);
    if (z < 0 || to < 0) setstate(failbit); else _buf->to_pos(to);
    return *this;
  }
  int get() { char c; read(&c, 1); return good() ? (unsigned char)c : -1; }
  sym_istream &get(char &c) { return read(&c, 1); }
  int peek() { if (!good()) return -1; int c = _buf ? _buf->sgetc() : -1; if (c == -1) setstate(eofbit); return c; }
  sym_istream &ignore(streamsize n = 1, int delim = -1) { while (n-- > 0) { int c = get(); if (c == -1) { clear((_state & ~failbit) | eofbit); break; } if (c == delim) break; } return *this; }
};
inline sym_istream &operator>>(sym_istream &i, std::string &s) {
  s.clear();
  if (!i.good()) { i.setstate(sym_ios_base::failbit); return i; }
  auto space = [](int c) { return c == ' ' || (c >= 9 && c <= 13); };
  auto *b = i.rdbuf();
  if (i.flags() & sym_ios_base::skipws) while (b && b->sgetc() != -1 && space(b->sgetc())) b->sbumpc();
  for (int c; b && (c = b->sgetc()) != -1 && !space(c); b->sbumpc()) s.push_back((char)c);
  if (!b || b->sgetc() == -1) i.setstate(sym_ios_base::eofbit);
  if (s.empty()) i.setstate(sym_ios_base::failbit);
  return i;
}
inline sym_istream &operator>>(sym_istream &i, char &c) { char x; if (i.get(x).good()) c = x; return i; }
inline sym_istream &getline(sym_istream &i, std::string &s, char d = '\n') {
  s.clear();
  if (!i.good()) { i.setstate(sym_ios_base::failbit); return i; }
  bool any = false;
  for (;;) {
    int c = i.rdbuf() ? i.rdbuf()->sbumpc() : -1;
    if (c == -1) { i.setstate(any ? sym_ios_base::eofbit : sym_ios_base::eofbit | sym_ios_base::failbit); break; }
    any = true;
    if ((char)c == d) break;
    s.push_back((char)c);
  }
  return i;
}

class sym_stringbuf : public sym_streambuf {
public:
  std::string s;
  std::size_t at = 0;
  streamsize sputn(const char *p, streamsize n) override { s.append(p, (std::size_t)n); return n; }
  streamsize sgetn(char *p, streamsize n) override { streamsize k = 0; while (k < n && at < s.size()) p[k++] = s[at++]; return k; }
  int sgetc() override { return at < s.size() ? (unsigned char)s[at] : -1; }
};
template <typename Base> class sym_text : public Base {
  sym_stringbuf _b;

public:
  sym_text() { this->init(&_b); }
  explicit sym_text(const std::string &s, sym_ios_base::openmode = 0) { _b.s = s; this->init(&_b); }
  explicit sym_text(sym_ios_base::openmode) { this->init(&_b); }
  std::string str() const { return _b.s; }
  void str(const std::string &s) { _b.s = s; _b.at = 0; }
};
class sym_iostream : public sym_ostream, public sym_istream {};
typedef sym_text<sym_ostream> sym_ostringstream;
typedef sym_text<sym_istream> sym_istringstream;
typedef sym_text<sym_iostream> sym_stringstream;

// console
class sym_consolebuf : public sym_streambuf {
public:
  std::string *s;
  explicit sym_consolebuf(std::string *s) : s(s) {}
  streamsize sputn(const char *p, streamsize n) override { s->append(p, (std::size_t)n); return n; }
};
inline sym_consolebuf sym_coutbuf{&ministd::out}, sym_cerrbuf{&ministd::err};
inline sym_ostream sym_cout{&sym_coutbuf}, sym_cerr{&sym_cerrbuf}, sym_clog{&sym_cerrbuf};

// files
namespace sym_filesystem {
class path {
  std::string _s;

public:
  path() = default;
  path(const char *s) : _s(s) {}
  path(const std::string &s) : _s(s) {}
  path(std::string_view s) : _s(s) {}
  const std::string &native() const { return _s; }
  std::string string() const { return _s; }
  std::string generic_string() const { return _s; }
  const char *c_str() const { return _s.c_str(); }
  operator std::string() const { return _s; }
  bool empty() const { return _s.empty(); }
  bool is_absolute() const { return !_s.empty() && _s[0] == '/'; }
  bool is_relative() const { return !is_absolute(); }
  path parent_path() const { return path(ministd::parent(_s)); }
  bool has_parent_path() const { return !parent_path().empty(); }
  path filename() const { auto p = _s.rfind('/'); return path(p == std::string::npos ? _s : _s.substr(p + 1)); }
  bool has_filename() const { return !filename().empty(); }
  path &operator/=(const path &o) {
    if (o.is_absolute()) _s = o._s;
    else { if (!_s.empty() && _s.back() != '/') _s += '/'; _s += o._s; }
    return *this;
  }
  path &operator+=(const path &o) { _s += o._s; return *this; }
  friend path operator/(const path &a, const path &b) { path r = a; r /= b; return r; }
  friend bool operator==(const path &a, const path &b) { return a._s == b._s; }
  friend bool operator!=(const path &a, const path &b) { return a._s != b._s; }
};
class filesystem_error : public std::exception {
public:
  filesystem_error() = default;
  const char *what() const noexcept override { return "filesystem error"; }
};
inline bool is_directory(const path &p) { return !p.empty() && ministd::isDir(p.native()); }
inline bool is_directory(const path &p, std::error_code &) noexcept { return is_directory(p); }
inline bool exists(const path &p) { return !p.empty() && (ministd::isDir(p.native()) || ministd::find(p.native())); }
inline bool exists(const path &p, std::error_code &) noexcept { return exists(p); }
inline bool is_regular_file(const path &p) { auto *f = ministd::find(p.native()); return f && !f->dir; }
inline bool create_directories(const path &p, std::error_code &ec) noexcept {
  bool was = is_directory(p), ok = ministd::makeDirs(p.native());
  ec = ok ? std::error_code() : std::error_code(1, std::generic_category());
  return ok && !was;
}
inline bool create_directories(const path &p) { std::error_code ec; bool r = create_directories(p, ec); if (ec) throw filesystem_error(); return r; }
inline bool create_directory(const path &p, std::error_code &ec) noexcept { return create_directories(p, ec); }
inline bool create_directory(const path &p) { return create_directories(p); }
inline bool remove(const path &p) { for (auto it = ministd::files.begin(); it != ministd::files.end(); ++it) if (it->name == p.native()) { ministd::files.erase(it); return true; } return false; }
inline bool remove(const path &p, std::error_code &) noexcept { return remove(p); }
inline void rename(const path &a, const path &b) { remove(b); if (auto *f = ministd::find(a.native())) f->name = b.native(); else throw filesystem_error(); }
}
class sym_filebuf : public sym_streambuf {
  std::string _name, _pending;
  bool _open = false, _write = false;
  std::size_t _pos = 0;
  bool commit() {
    if (_pending.empty()) return true;
    if (ministd::fails(ministd::Write)) {
      if (auto *f = ministd::find(_name)) f->data.append(_pending.substr(0, ministd::partial));
      _pending.clear();
      return false;
    }
    if (auto *f = ministd::find(_name)) f->data += _pending;
    _pending.clear();
    return true;
  }

public:
  sym_filebuf() = default;
  sym_filebuf(sym_filebuf &&o) : _name(std::move(o._name)), _pending(std::move(o._pending)), _open(o._open), _write(o._write), _pos(o._pos) { o._open = false; o._pending.clear(); }
  ~sym_filebuf() override { close(); }
  bool is_open() const { return _open; }
  bool open(const std::string &n, bool write, unsigned mode) {
    if (_open) return false;
    auto *f = ministd::find(n);
    const bool dir = ministd::isDir(n);
    if (write) {
      if (n.empty() || n.back() == '/' || dir || !ministd::hasDir(n) || ministd::fails(ministd::OpenWrite)) return false;
      if (!f) ministd::files.push_back({n, "", false});
      else if (!(mode & (sym_ios_base::app | sym_ios_base::in)) || (mode & sym_ios_base::trunc)) f->data.clear();
    } else if ((!f && !dir) || ministd::fails(ministd::OpenRead)) return false;
    _name = n; _open = true; _write = write; _pos = 0;
    ministd::handles++;
    return true;
  }
  bool close() {
    if (!_open) return false;
    bool ok = commit();
    if (ministd::fails(ministd::Close)) ok = false;
    _open = false;
    ministd::handles--;
    return ok;
  }
  streamsize sputn(const char *p, streamsize n) override {
    if (!_open || !_write) return 0;
    _pending.append(p, (std::size_t)n);
    if (_pending.size() >= ministd::bufferSize && !commit()) return 0;
    return n;
  }
  streamsize sgetn(char *p, streamsize n) override {
    if (!_open || _write) return 0;
    auto *f = ministd::find(_name);
    if (!f || f->dir) return n ? -1 : 0;
    if (n && ministd::fails(ministd::Read)) return -1;
    streamsize k = 0;
    while (k < n && _pos < f->data.size()) p[k++] = f->data[_pos++];
    return k;
  }
  streamsize in_avail() override { auto *f = ministd::find(_name); return !_open || _write || !f || f->dir ? -1 : _pos < f->data.size() ? (streamsize)(f->data.size() - _pos) : 0; }
  streamsize size() override { auto *f = ministd::find(_name); return !_open || _write || !f || f->dir ? -1 : (streamsize)f->data.size(); }
  streamsize at_pos() override { return _open ? (streamsize)_pos : -1; }
  void to_pos(streamsize p) override { _pos = (std::size_t)p; }
  int sgetc() override { auto *f = ministd::find(_name); return _open && f && _pos < f->data.size() ? (unsigned char)f->data[_pos] : -1; }
  int pubsync() override { return commit() ? 0 : -1; }
};
template <typename Base, bool W> class sym_file : public Base {
  sym_filebuf _b;

public:
  sym_file() { this->init(&_b); }
  explicit sym_file(const char *n, sym_ios_base::openmode m = 0) { this->init(&_b); open(n, m); }
  explicit sym_file(const std::string &n, sym_ios_base::openmode m = 0) { this->init(&_b); open(n, m); }
  explicit sym_file(const sym_filesystem::path &n, sym_ios_base::openmode m = 0) { this->init(&_b); open(n.native(), m); }
  sym_file(sym_file &&o) : _b(std::move(o._b)) { this->_state = o._state; this->_except = o._except; this->_flags = o._flags; this->init(&_b); }
  void open(const std::string &n, sym_ios_base::openmode m = 0) { if (_b.open(n, W, m)) this->clear(); else this->setstate(sym_ios_base::failbit); }
  void open(const char *n, sym_ios_base::openmode m = 0) { open(std::string(n), m); }
  void open(const sym_filesystem::path &n, sym_ios_base::openmode m = 0) { open(n.native(), m); }
  bool is_open() const { return _b.is_open(); }
  void close() { if (!_b.close()) this->setstate(sym_ios_base::failbit); }
};
typedef sym_file<sym_ostream, true> sym_ofstream;
typedef sym_file<sym_istream, false> sym_ifstream;
}
// Regular expressions: only whole texts, "." for any character and ".*" at the end are known.
namespace std {
class sym_regex_error : public std::exception {
public:
  const char *what() const noexcept override { return "regex_error"; }
};
class sym_regex {
public:
  enum flag { ECMAScript = 1, optimize = 2, icase = 4, nosubs = 8 };
  std::string text;
  sym_regex() = default;
  int flags = ECMAScript;
  explicit sym_regex(const std::string &s, int f = ECMAScript) : text(s), flags(f) { if (s == "(") throw sym_regex_error(); }
  static char lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
  bool same(char a, char b) const { return a == '.' || a == b || ((flags & icase) && lower(a) == lower(b)); }
};
inline bool sym_regex_match(const std::string &s, const sym_regex &r) {
  std::size_t n = r.text.size();
  bool any = n >= 2 && r.text.compare(n - 2, 2, ".*") == 0;
  if (any) n -= 2;
  if (any ? s.size() < n : s.size() != n) return false;
  for (std::size_t i = 0; i < n; i++) if (!r.same(r.text[i], s[i])) return false;
  return true;
}
inline bool sym_regex_search(const std::string &s, const sym_regex &r) {
  std::size_t n = r.text.size();
  if (n >= 2 && r.text.compare(n - 2, 2, ".*") == 0) n -= 2;
  for (std::size_t at = 0; at + n <= s.size(); at++) {
    std::size_t i = 0;
    while (i < n && r.same(r.text[i], s[at + i])) i++;
    if (i == n) return true;
  }
  return false;
}
}
// The calendar library: its text is opaque, made of the format and the value; parsing gives what the harness chooses.
namespace ministd {
inline bool (*parsed)(const std::string &text, const std::string &format, long *value); // false: the text is not in the format
inline std::string calendar(const char *kind, const char *fmt, long v) { std::string s = std::string("{") + kind + " " + fmt + " "; put64(s, (std::uint64_t)v, 16); return s + "}"; }
typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds> date_point;
}
namespace date {
inline std::sym_ostream &to_stream(std::sym_ostream &o, const char *fmt, const std::chrono::nanoseconds &v) { return o << ministd::calendar("duration", fmt, v.count()); }
inline std::sym_ostream &to_stream(std::sym_ostream &o, const char *fmt, const ministd::date_point &v) { return o << ministd::calendar("date", fmt, v.time_since_epoch().count()); }
inline std::string format(const char *fmt, const std::chrono::nanoseconds &v) { return ministd::calendar("duration", fmt, v.count()); }
inline std::string format(const char *fmt, const ministd::date_point &v) { return ministd::calendar("date", fmt, v.time_since_epoch().count()); }
inline std::string format(const std::string &fmt, const std::chrono::nanoseconds &v) { return format(fmt.c_str(), v); }
inline std::string format(const std::string &fmt, const ministd::date_point &v) { return format(fmt.c_str(), v); }
inline std::string sym_rest(std::sym_istream &i) { std::string s; if (i.good() && i.rdbuf()) for (int c; (c = i.rdbuf()->sbumpc()) != -1;) s.push_back((char)c); return s; }
inline std::sym_istream &sym_parse(std::sym_istream &i, const std::string &fmt, std::chrono::nanoseconds &v) { long x; if (ministd::parsed && ministd::parsed(sym_rest(i), fmt, &x)) v = std::chrono::nanoseconds(x); else i.setstate(std::sym_ios_base::failbit); return i; }
inline std::sym_istream &sym_parse(std::sym_istream &i, const std::string &fmt, ministd::date_point &v) { std::chrono::nanoseconds d; if (sym_parse(i, fmt, d)) v = ministd::date_point(d); return i; }
template <typename P, typename... A> inline std::sym_istream &operator>>(std::sym_istream &i, const parse_manip<P, A...> &m) { return sym_parse(i, m.format_, m.tp_); }
inline std::sym_istream &from_stream(std::sym_istream &i, const char *fmt, std::chrono::nanoseconds &v) { return sym_parse(i, fmt, v); }
inline std::sym_istream &from_stream(std::sym_istream &i, const char *fmt, ministd::date_point &v) { return sym_parse(i, fmt, v); }
}
#define ostream sym_ostream
#define istream sym_istream
#define iostream sym_iostream
#define ostringstream sym_ostringstream
#define istringstream sym_istringstream
#define stringstream sym_stringstream
#define ofstream sym_ofstream
#define ifstream sym_ifstream
#define streambuf sym_streambuf
#define ios sym_ios
#define ios_base sym_ios_base
#define cout sym_cout
#define cerr sym_cerr
#define clog sym_clog
#define filesystem sym_filesystem
#define regex sym_regex
#define regex_error sym_regex_error
#define regex_match sym_regex_match
#define regex_search sym_regex_search
#endif
