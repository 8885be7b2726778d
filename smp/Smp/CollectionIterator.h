// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_COLLECTIONITERATOR_H
#define SMPSTUB_COLLECTIONITERATOR_H
#include <cstddef>
#include <iterator>
namespace Smp {
template <typename T> class ICollection;
template <typename T> class CollectionIterator { public:
  using iterator_category = std::forward_iterator_tag; using value_type = T *; using difference_type = std::ptrdiff_t; using pointer = T **; using reference = T *;
  CollectionIterator(const ICollection<T> &c, std::size_t i) : _c(&c), _i(i) {}
  T *operator*() const { return _c->at(_i); }
  T *operator->() const { return _c->at(_i); }
  CollectionIterator &operator++() { ++_i; return *this; }
  CollectionIterator operator++(int) { auto t = *this; ++_i; return t; }
  bool operator==(const CollectionIterator &o) const { return _c == o._c && _i == o._i; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
private:
  const ICollection<T> *_c; std::size_t _i;
};
}
#endif
