#ifndef VERIF_SHIM_DYNAMIC_ARRAY_H
#define VERIF_SHIM_DYNAMIC_ARRAY_H
#include "score/containers/non_relocatable_vector.h"
namespace score::containers
{
template <class T, class Allocator = std::allocator<T>>
class DynamicArray
{
  public:
    using value_type = T;
    using allocator_type = Allocator;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using iterator = T*;
    using const_iterator = const T*;
    explicit DynamicArray(size_type n, const Allocator& a = Allocator()) : non_relocatable_vector_{n, a}
    {
        for (size_type i = 0U; i < n; ++i)
        {
            non_relocatable_vector_.emplace_back();
        }
    }
    DynamicArray(size_type n, const T& v, const Allocator& a = Allocator()) : non_relocatable_vector_{n, a}
    {
        for (size_type i = 0U; i < n; ++i)
        {
            non_relocatable_vector_.emplace_back(v);
        }
    }
    DynamicArray(DynamicArray&&) noexcept = default;
    DynamicArray(const DynamicArray&) = default;
    DynamicArray& operator=(DynamicArray&&) noexcept = default;
    reference operator[](size_type i) { return non_relocatable_vector_[i]; }
    const_reference operator[](size_type i) const { return non_relocatable_vector_[i]; }
    reference at(size_type i) { return non_relocatable_vector_.at(i); }
    const_reference at(size_type i) const { return non_relocatable_vector_.at(i); }
    reference front() { return at(0U); }
    const_reference front() const { return at(0U); }
    reference back() { return at(size() - 1U); }
    const_reference back() const { return at(size() - 1U); }
    T* data() noexcept { return non_relocatable_vector_.data(); }
    const T* data() const noexcept { return non_relocatable_vector_.data(); }
    iterator begin() noexcept { return non_relocatable_vector_.begin(); }
    iterator end() noexcept { return non_relocatable_vector_.end(); }
    const_iterator begin() const noexcept { return non_relocatable_vector_.begin(); }
    const_iterator end() const noexcept { return non_relocatable_vector_.end(); }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }
    size_type size() const noexcept { return non_relocatable_vector_.size(); }
    bool empty() const noexcept { return size() == 0U; }

  private:
    template <class U, class A>
    friend class test::DynamicArrayTestAttorney;
    NonRelocatableVector<T, Allocator> non_relocatable_vector_;
};
}  // namespace score::containers
#endif
