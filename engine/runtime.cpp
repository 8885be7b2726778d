// The part of libstdc++/libc that is only available as machine code, for the symbolic run.
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <future>
#include <ios>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <pthread.h>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <any>

extern "C" {
char __libc_single_threaded = 0;
void *__dso_handle = nullptr;
void __rt_throw_bad_alloc() { throw std::bad_alloc(); }
}
namespace __cxxabiv1 {
__fundamental_type_info::~__fundamental_type_info() {}
extern "C" char *__cxa_demangle(const char *m, char *, size_t *, int *status) {
  if (status) *status = 0;
  return strdup(m);
}
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
}

namespace {
struct RtCategory final : public std::error_category {
  const char *name() const noexcept override { return "system"; }
  std::string message(int) const override { return "error"; }
  std::error_condition default_error_condition(int e) const noexcept override { return std::error_condition(e, *this); }
  bool equivalent(int e, const std::error_condition &c) const noexcept override { return c.value() == e; }
  bool equivalent(const std::error_code &c, int e) const noexcept override { return c.value() == e; }
};
RtCategory *rtCategory(int i) { static RtCategory c[2]; return &c[i]; }
}
namespace std {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); }
bool error_category::equivalent(int e, const error_condition &c) const noexcept { return c.value() == e; }
bool error_category::equivalent(const error_code &c, int e) const noexcept { return c.value() == e; }
inline namespace _V2 {
const error_category &system_category() noexcept { return *rtCategory(0); }
const error_category &generic_category() noexcept { return *rtCategory(1); }
}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static const char *dupz(const char *s, size_t n) {
  char *p = (char *)malloc(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
__cow_string::__cow_string() : _M_p(dupz("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupz(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupz(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupz(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
  if (this != &o) { free((void *)_M_p); _M_p = dupz(o._M_p, strlen(o._M_p)); }
  return *this;
}
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dupz("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define BASEEXC(T) \
  T::T(const string &s) : exception(), _M_msg(s) {} \
  T::T(const char *s) : exception(), _M_msg(s, strlen(s)) {} \
  T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  T::T(T &&o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {} \
  T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } \
  T &T::operator=(T &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
  T::~T() noexcept {} \
  const char *T::what() const noexcept { return _M_msg._M_p; }
BASEEXC(logic_error)
BASEEXC(runtime_error)
#define SUBEXC(T, B) \
  T::T(const string &s) : B(s) {} \
  T::T(const char *s) : B(s) {} \
  T::~T() noexcept {}
SUBEXC(domain_error, logic_error)
SUBEXC(invalid_argument, logic_error)
SUBEXC(length_error, logic_error)
SUBEXC(out_of_range, logic_error)
SUBEXC(range_error, runtime_error)
SUBEXC(overflow_error, runtime_error)
SUBEXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// error codes
static int s_generic, s_system;
const error_category &generic_category() noexcept { return *(const error_category *)&s_generic; }
const error_category &system_category() noexcept { return *(const error_category *)&s_system; }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, *(const error_category *)&s_generic), "system_error"); }

// ---- red-black tree (same algorithm as libstdc++)
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
  _Rb_tree_node_base *&root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
      }
    } else {
      _Rb_tree_node_base *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
  _Rb_tree_node_base *&root = header._M_parent;
  _Rb_tree_node_base *&leftmost = header._M_left;
  _Rb_tree_node_base *&rightmost = header._M_right;
  _Rb_tree_node_base *y = z;
  _Rb_tree_node_base *x = 0;
  _Rb_tree_node_base *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    { _Rb_tree_color t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t; }
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotl(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotr(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    _List_node_base *const t = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// A small fixed number of buckets keeps hash containers tractable; iteration order is not part of any property.
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n < 13 ? 13 : (size_t)-1; return n <= 13 ? 13 : n <= 97 ? 97 : 1009; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > bkt) { size_t n = elt + ins <= 13 ? 13 : elt + ins <= 97 ? 97 : 1009; if (n > bkt) return {true, n}; }
  return {false, 0};
}
}
// _Hash_bytes is a builtin of the engine.
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 7; }

// ---- threads
thread::_State::~_State() {}
extern "C" void *__rt_thread_main(void *p) {
  unique_ptr<thread::_State> s((thread::_State *)p);
  s->_M_run();
  return nullptr;
}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  pthread_t t;
  pthread_create(&t, nullptr, __rt_thread_main, s.get());
  *(pthread_t *)&_M_id = t;
  s.release();
}
void thread::join() { pthread_join(*(pthread_t *)&_M_id, nullptr); _M_id = id(); }
void thread::detach() { pthread_detach(*(pthread_t *)&_M_id); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { pthread_cond_destroy((pthread_cond_t *)this); }
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait((pthread_cond_t *)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t *)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t *)this); }

// exception_ptr is not modelled beyond construction

template class basic_string<char>;
template basic_string<char>::basic_string(char *, char *, const allocator<char> &);
template basic_string<char>::basic_string(const char *, const char *, const allocator<char> &);
template basic_string<char>::basic_string(string::iterator, string::iterator, const allocator<char> &);
}
