#ifndef VERIF_SHIM_OVERLOAD_HPP
#define VERIF_SHIM_OVERLOAD_HPP
#include <utility>
#include <type_traits>
#include <functional>
namespace score::cpp
{
namespace detail
{
template <class... F>
struct overload_set : F...
{
    using F::operator()...;
};
}  // namespace detail
template <class... F>
constexpr detail::overload_set<std::decay_t<F>...> overload(F&&... f)
{
    return {std::forward<F>(f)...};
}
template <class R, class V, class... F>
constexpr decltype(auto) visit_as(V&& v, F&&... f);
}  // namespace score::cpp
#endif
