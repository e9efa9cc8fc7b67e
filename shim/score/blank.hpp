#ifndef VERIF_SHIM_BLANK_HPP
#define VERIF_SHIM_BLANK_HPP
#include <functional>
namespace score::cpp
{
struct blank
{
};
constexpr bool operator==(blank, blank) noexcept { return true; }
constexpr bool operator!=(blank, blank) noexcept { return false; }
constexpr bool operator<(blank, blank) noexcept { return false; }
constexpr bool operator>(blank, blank) noexcept { return false; }
constexpr bool operator<=(blank, blank) noexcept { return true; }
constexpr bool operator>=(blank, blank) noexcept { return true; }
}  // namespace score::cpp
template <>
struct std::hash<score::cpp::blank>
{
    std::size_t operator()(score::cpp::blank) const noexcept { return 0U; }
};
#endif
