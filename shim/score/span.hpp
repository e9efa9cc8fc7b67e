#ifndef VERIF_SHIM_SPAN_HPP
#define VERIF_SHIM_SPAN_HPP
#include <string>
#include <vector>
#include "score/utility.hpp"
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <type_traits>
#include "score/assert.hpp"
namespace score::cpp
{
inline constexpr std::ptrdiff_t dynamic_extent = -1;
// Signed size, bounds-checked element access: as in the original.
template <class T, std::ptrdiff_t Extent = dynamic_extent>
class span
{
  public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using index_type = std::ptrdiff_t;
    using size_type = std::ptrdiff_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using iterator = T*;
    using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<iterator>;

    constexpr span() noexcept = default;
    constexpr span(std::nullptr_t, std::ptrdiff_t) noexcept {}
    template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    constexpr span(T* p, I n) : data_{p}, size_{static_cast<std::ptrdiff_t>(n)}
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(size_ >= 0);
    }
    constexpr span(T* b, T* e) : data_{b}, size_{e - b} {}
    template <std::size_t N>
    constexpr span(T (&a)[N]) noexcept : data_{a}, size_{static_cast<std::ptrdiff_t>(N)}
    {
    }
    template <class U, std::size_t N, std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>, int> = 0>
    constexpr span(std::array<U, N>& a) noexcept : data_{a.data()}, size_{static_cast<std::ptrdiff_t>(N)}
    {
    }
    template <class U, std::size_t N, std::enable_if_t<std::is_convertible_v<const U (*)[], T (*)[]>, int> = 0>
    constexpr span(const std::array<U, N>& a) noexcept : data_{a.data()}, size_{static_cast<std::ptrdiff_t>(N)}
    {
    }
    template <class C,
              class P = std::remove_pointer_t<decltype(std::declval<C&>().data())>,
              class = decltype(std::declval<C&>().size()),
              std::enable_if_t<std::is_convertible_v<P (*)[], T (*)[]>, int> = 0>
    constexpr span(C& c) : data_{c.data()}, size_{static_cast<std::ptrdiff_t>(c.size())}
    {
    }
    template <class C,
              class P = std::remove_pointer_t<decltype(std::declval<const C&>().data())>,
              class = decltype(std::declval<const C&>().size()),
              std::enable_if_t<std::is_convertible_v<P (*)[], T (*)[]>, int> = 0>
    constexpr span(const C& c) : data_{c.data()}, size_{static_cast<std::ptrdiff_t>(c.size())}
    {
    }
    constexpr span(const span&) noexcept = default;
    constexpr span& operator=(const span&) noexcept = default;

    constexpr T* data() const noexcept { return data_; }
    constexpr std::ptrdiff_t size() const noexcept { return size_; }
    constexpr std::ptrdiff_t size_bytes() const noexcept { return size_ * static_cast<std::ptrdiff_t>(sizeof(T)); }
    constexpr bool empty() const noexcept { return size_ == 0; }
    constexpr T* begin() const noexcept { return data_; }
    constexpr T* end() const noexcept { return data_ + size_; }
    constexpr const T* cbegin() const noexcept { return data_; }
    constexpr const T* cend() const noexcept { return data_ + size_; }
    constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator{end()}; }
    constexpr reverse_iterator rend() const noexcept { return reverse_iterator{begin()}; }
    template <class I>
    constexpr T& operator[](I i) const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(static_cast<std::ptrdiff_t>(i) >= 0 &&
                                                  static_cast<std::ptrdiff_t>(i) < size_);
        return data_[i];
    }
    constexpr T& at(std::ptrdiff_t i) const { return (*this)[i]; }
    constexpr T& operator()(std::ptrdiff_t i) const { return (*this)[i]; }
    constexpr T& front() const { return (*this)[0]; }
    constexpr T& back() const { return (*this)[size_ - 1]; }
    constexpr span first(std::ptrdiff_t n) const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(n >= 0 && n <= size_);
        return {data_, n};
    }
    constexpr span last(std::ptrdiff_t n) const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(n >= 0 && n <= size_);
        return {data_ + (size_ - n), n};
    }
    constexpr span subspan(std::ptrdiff_t o, std::ptrdiff_t n = dynamic_extent) const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(o >= 0 && o <= size_);
        if (n == dynamic_extent)
        {
            n = size_ - o;
        }
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(n >= 0 && o + n <= size_);
        return {data_ + o, n};
    }

  private:
    T* data_{nullptr};
    std::ptrdiff_t size_{0};
};
template <class T, std::size_t N>
span(T (&)[N]) -> span<T>;
template <class T, std::size_t N>
span(std::array<T, N>&) -> span<T>;
template <class T, std::size_t N>
span(const std::array<T, N>&) -> span<const T>;
template <class T, class I>
span(T*, I) -> span<T>;
template <class C>
span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <class T>
span<const std::uint8_t> as_bytes_u8(span<T> s) noexcept
{
    return {reinterpret_cast<const std::uint8_t*>(s.data()), s.size_bytes()};
}
}  // namespace score::cpp
#endif
