#ifndef VERIF_SHIM_SAFE_MATH_H
#define VERIF_SHIM_SAFE_MATH_H
#include <limits>
#include <string_view>
#include <type_traits>
#include "score/assert.hpp"
#include "score/result/result.h"
namespace score::safe_math
{
enum class ErrorCode : score::result::ErrorCode
{
    kExceedsNumericLimits = 1,
    kDivideByZero,
    kImplicitTypeConversionNotAllowed
};
class ErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "safe_math error"; }
};
inline constexpr ErrorDomain kErrorDomain{};
constexpr score::result::Error MakeError(ErrorCode c, std::string_view m = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(c), kErrorDomain, m};
}
enum class ReturnMode
{
    kReturnResultWithError,
    kAbortOnError
};
namespace detail
{
template <ReturnMode M, class T>
constexpr auto ret(bool ok, T v, ErrorCode e = ErrorCode::kExceedsNumericLimits)
{
    if constexpr (M == ReturnMode::kAbortOnError)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(ok, "safe_math: result not representable");
        return v;
    }
    else
    {
        if (!ok)
        {
            return score::Result<T>{score::MakeUnexpected(e)};
        }
        return score::Result<T>{v};
    }
}
template <class R, class A, class B>
using pick = std::conditional_t<std::is_void_v<R>, std::common_type_t<A, B>, R>;
}  // namespace detail
#define VERIF_SAFE_OP(NAME, BUILTIN)                                                                         \
    template <class R = void, ReturnMode M = ReturnMode::kReturnResultWithError, class A = int, class B = int> \
    constexpr auto NAME(A a, B b) noexcept                                                                             \
    {                                                                                                        \
        using T = detail::pick<R, A, B>;                                                                     \
        T r{};                                                                                               \
        const bool ok = !BUILTIN(a, b, &r);                                                                  \
        return detail::ret<M>(ok, r);                                                                        \
    }                                                                                                        \
    template <ReturnMode M, class R = void, class A = int, class B = int>                                    \
    constexpr auto NAME(A a, B b) noexcept                                                                             \
    {                                                                                                        \
        return NAME<R, M, A, B>(a, b);                                                                       \
    }
VERIF_SAFE_OP(Add, __builtin_add_overflow)
VERIF_SAFE_OP(Subtract, __builtin_sub_overflow)
VERIF_SAFE_OP(Multiply, __builtin_mul_overflow)
#undef VERIF_SAFE_OP
template <class R, ReturnMode M = ReturnMode::kReturnResultWithError, class A>
constexpr auto Cast(A a) noexcept
{
    R r{};
    const bool ok = !__builtin_add_overflow(a, static_cast<A>(0), &r);
    return detail::ret<M>(ok, r);
}
template <class R = void, ReturnMode M = ReturnMode::kReturnResultWithError, class A = int, class B = int>
constexpr auto Divide(A a, B b) noexcept
{
    using T = detail::pick<R, A, B>;
    if (b == 0)
    {
        return detail::ret<M>(false, T{}, ErrorCode::kDivideByZero);
    }
    const __int128 q = static_cast<__int128>(a) / static_cast<__int128>(b);
    T r{};
    const bool ok = !__builtin_add_overflow(q, static_cast<__int128>(0), &r);
    return detail::ret<M>(ok, r);
}
// As the original: the result of Abs is unsigned and needs no error.
template <class A>
constexpr auto Abs(A a) noexcept
{
    using U = std::make_unsigned_t<A>;
    return a < 0 ? static_cast<U>(U{0} - static_cast<U>(a)) : static_cast<U>(a);
}
}  // namespace score::safe_math
#endif
