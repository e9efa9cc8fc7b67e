#ifndef VERIF_SHIM_NON_RELOCATABLE_VECTOR_H
#define VERIF_SHIM_NON_RELOCATABLE_VECTOR_H
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>
#include "score/assert.hpp"
namespace score::containers
{
namespace test
{
template <class T, class A>
class NonRelocatableVectorAttorney;
template <class T, class A>
class DynamicArrayTestAttorney;
}  // namespace test
namespace detail
{
template <class T>
T* raw(T* p) noexcept
{
    return p;
}
template <class P>
auto raw(const P& p) noexcept -> decltype(p.get())
{
    return p.get();
}
}  // namespace detail
// Fixed capacity vector over an allocator whose pointers may be fancy (offset pointers).
template <class T, class Allocator = std::allocator<T>>
class NonRelocatableVector
{
    using alloc_t = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
    using traits = std::allocator_traits<alloc_t>;

  public:
    using value_type = T;
    using allocator_type = Allocator;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using iterator = T*;
    using const_iterator = const T*;
    explicit NonRelocatableVector(const Allocator& a = Allocator()) noexcept : alloc_{a} {}
    explicit NonRelocatableVector(size_type cap, const Allocator& a = Allocator()) : alloc_{a}
    {
        if (cap > 0U)
        {
            non_relocatable_vector_ = traits::allocate(alloc_, cap);
        }
        capacity_ = cap;
    }
    NonRelocatableVector(const NonRelocatableVector& o)
        : NonRelocatableVector(o.capacity_, traits::select_on_container_copy_construction(o.alloc_))
    {
        for (const auto& e : o)
        {
            emplace_back(e);
        }
    }
    NonRelocatableVector(NonRelocatableVector&& o) noexcept
        : alloc_{std::move(o.alloc_)},
          non_relocatable_vector_{o.non_relocatable_vector_},
          capacity_{o.capacity_},
          size_{o.size_}
    {
        o.non_relocatable_vector_ = nullptr;
        o.capacity_ = o.size_ = 0U;
    }
    NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
    NonRelocatableVector& operator=(NonRelocatableVector&& o) noexcept
    {
        if (this != &o)
        {
            release();
            if constexpr (traits::propagate_on_container_move_assignment::value)
            {
                alloc_ = std::move(o.alloc_);
            }
            non_relocatable_vector_ = o.non_relocatable_vector_;
            capacity_ = o.capacity_;
            size_ = o.size_;
            o.non_relocatable_vector_ = nullptr;
            o.capacity_ = o.size_ = 0U;
        }
        return *this;
    }
    ~NonRelocatableVector() { release(); }
    template <class... A>
    reference emplace_back(A&&... a)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(size_ < capacity_, "NonRelocatableVector is full");
        T* const p = base() + size_;
        traits::construct(alloc_, p, std::forward<A>(a)...);
        ++size_;
        return *p;
    }
    void push_back(const T& v) { emplace_back(v); }
    void push_back(T&& v) { emplace_back(std::move(v)); }
    void pop_back()
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(size_ > 0U);
        --size_;
        traits::destroy(alloc_, base() + size_);
    }
    void clear()
    {
        while (size_ > 0U)
        {
            pop_back();
        }
    }
    reference operator[](size_type i) { return at(i); }
    const_reference operator[](size_type i) const { return at(i); }
    reference at(size_type i)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i < size_, "index out of range");
        return base()[i];
    }
    const_reference at(size_type i) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i < size_, "index out of range");
        return base()[i];
    }
    reference front() { return at(0U); }
    const_reference front() const { return at(0U); }
    reference back() { return at(size_ - 1U); }
    const_reference back() const { return at(size_ - 1U); }
    T* data() noexcept { return base(); }
    const T* data() const noexcept { return base(); }
    iterator begin() noexcept { return base(); }
    iterator end() noexcept { return base() + size_; }
    const_iterator begin() const noexcept { return base(); }
    const_iterator end() const noexcept { return base() + size_; }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }
    size_type size() const noexcept { return size_; }
    size_type capacity() const noexcept { return capacity_; }
    bool empty() const noexcept { return size_ == 0U; }
    Allocator get_allocator() const noexcept { return alloc_; }
    friend bool operator==(const NonRelocatableVector& a, const NonRelocatableVector& b)
    {
        if (a.size_ != b.size_)
        {
            return false;
        }
        for (size_type i = 0U; i < a.size_; ++i)
        {
            if (!(a[i] == b[i]))
            {
                return false;
            }
        }
        return true;
    }

  private:
    template <class U, class A>
    friend class test::NonRelocatableVectorAttorney;
    T* base() const noexcept
    {
        return capacity_ == 0U ? nullptr : static_cast<T*>(detail::raw(non_relocatable_vector_));
    }
    void release() noexcept
    {
        if (capacity_ > 0U)
        {
            clear();
            traits::deallocate(alloc_, non_relocatable_vector_, capacity_);
            capacity_ = 0U;
        }
    }
    alloc_t alloc_;
    typename traits::pointer non_relocatable_vector_{nullptr};
    size_type capacity_{0U};
    size_type size_{0U};
};
}  // namespace score::containers
#endif
