// Stand-in for the ECSS-SMP interface header of the same name (declarations only).
#ifndef SMPSTUB_ICOLLECTION_H
#define SMPSTUB_ICOLLECTION_H
#include <Smp/IObject.h>
#include <Smp/CollectionIterator.h>
namespace Smp {
template <typename T> class ICollection : public virtual IObject { public:
  using iterator = CollectionIterator<T>; using const_iterator = CollectionIterator<T>; using value_type = T *;
  ~ICollection() noexcept override = default;
  virtual T *at(String8 name) const = 0;
  virtual T *at(std::size_t index) const = 0;
  virtual std::size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
}
#endif
