#ifndef VERIF_SHIM_RESULT_H
#define VERIF_SHIM_RESULT_H
#include <optional>
#include <string_view>
#include <utility>
#include "score/blank.hpp"
#include "score/expected.hpp"
#include "score/result/error.h"
namespace score
{
template <class T>
using Result = score::cpp::expected<T, result::Error>;
using Blank = score::cpp::blank;
using ResultBlank = Result<void>;
class Unexpected : public score::cpp::unexpected<result::Error>
{
  public:
    constexpr explicit Unexpected(result::Error e) : score::cpp::unexpected<result::Error>{e} {}
    template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0>
    constexpr explicit Unexpected(E code, std::string_view msg = "") : score::cpp::unexpected<result::Error>{MakeError(code, msg)}
    {
    }
};
using unexpect_t = score::cpp::unexpect_t;
inline constexpr unexpect_t unexpect{};
template <class E>
constexpr Unexpected MakeUnexpected(E code, std::string_view msg = "")
{
    return Unexpected{MakeError(code, msg)};
}
template <class T>
Result<T> MakeUnexpected(const result::Error& e)
{
    return Unexpected{e};
}
template <class T, class E, std::enable_if_t<std::is_enum_v<E>, int> = 0>
Result<T> MakeUnexpected(E code, std::string_view msg = "")
{
    return Unexpected{MakeError(code, msg)};
}
template <class T, class F>
std::optional<T> ResultToOptionalOrElse(Result<T> r, F&& f)
{
    if (!r.has_value())
    {
        std::forward<F>(f)(r.error());
        return std::nullopt;
    }
    return std::optional<T>{std::move(r).value()};
}
template <class T>
std::optional<T> ResultToOptional(Result<T> r)
{
    return r.has_value() ? std::optional<T>{std::move(r).value()} : std::nullopt;
}
}  // namespace score
#endif
