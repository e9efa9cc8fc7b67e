#ifndef VERIF_SHIM_UTILITY_HPP
#define VERIF_SHIM_UTILITY_HPP
#include <algorithm>
#include <array>
#include <cstring>
#include <string>
#include <string_view>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include "score/assert.hpp"
namespace score::cpp
{
struct ignore_t
{
    template <class T>
    constexpr const ignore_t& operator=(T&&) const noexcept
    {
        return *this;
    }
};
inline constexpr ignore_t ignore{};
template <class... T>
constexpr void ignore_unused(T&&...) noexcept
{
}
template <class E>
constexpr std::underlying_type_t<E> to_underlying(E e) noexcept
{
    return static_cast<std::underlying_type_t<E>>(e);
}
template <class C>
constexpr decltype(auto) at(C& c, std::ptrdiff_t i)
{
    SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i >= 0 && static_cast<std::size_t>(i) < static_cast<std::size_t>(c.size()));
    return c[static_cast<std::size_t>(i)];
}
}  // namespace score::cpp
#endif
