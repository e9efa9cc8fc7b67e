#ifndef VERIF_SHIM_JSON_ANY_H
#define VERIF_SHIM_JSON_ANY_H
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "score/result/result.h"
namespace score::memory
{
class StringComparisonAdaptor
{
  public:
    StringComparisonAdaptor(const char* s) : s_{s} {}
    StringComparisonAdaptor(std::string s) : s_{std::move(s)} {}
    StringComparisonAdaptor(std::string_view s) : s_{s} {}
    std::string_view GetAsStringView() const noexcept { return s_; }
    std::size_t HashValue() const noexcept { return std::hash<std::string>{}(s_); }
    friend bool operator<(const StringComparisonAdaptor& a, const StringComparisonAdaptor& b) noexcept
    {
        return a.s_ < b.s_;
    }
    friend bool operator==(const StringComparisonAdaptor& a, const StringComparisonAdaptor& b) noexcept
    {
        return a.s_ == b.s_;
    }
    friend std::ostream& operator<<(std::ostream& o, const StringComparisonAdaptor& a) { return o << a.s_; }

  private:
    std::string s_;
};
}  // namespace score::memory
namespace score::json
{
enum class Error : score::result::ErrorCode
{
    kUnknownError,
    kInvalidFilePath,
    kParsingError,
    kKeyNotFound,
    kWrongType,
    kInvalidArgument
};
class ErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "json error"; }
};
inline constexpr ErrorDomain kJsonErrorDomain{};
constexpr score::result::Error MakeError(Error c, std::string_view m = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(c), kJsonErrorDomain, m};
}
class Any;
struct Null
{
    friend bool operator==(Null, Null) noexcept { return true; }
};
using Object = std::map<score::memory::StringComparisonAdaptor, Any>;
using List = std::vector<Any>;
struct Number
{
    enum Kind
    {
        kU,
        kS,
        kD
    } kind{kU};
    std::uint64_t u{0};
    std::int64_t s{0};
    double d{0};
    template <class T>
    Result<T> as() const
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            return kind == kU ? static_cast<T>(u) : kind == kS ? static_cast<T>(s) : static_cast<T>(d);
        }
        else
        {
            T r{};
            bool ok{false};
            if (kind == kU)
            {
                ok = !__builtin_add_overflow(u, std::uint64_t{0}, &r);
            }
            else if (kind == kS)
            {
                ok = !__builtin_add_overflow(s, std::int64_t{0}, &r);
            }
            if (!ok)
            {
                return MakeUnexpected(Error::kWrongType);
            }
            return r;
        }
    }
};
class Any
{
  public:
    Any() noexcept : v_{Null{}} {}
    Any(Null) noexcept : v_{Null{}} {}
    explicit Any(bool b) noexcept : v_{b} {}
    template <class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>, int> = 0>
    explicit Any(T t) noexcept : v_{num(t)}
    {
    }
    explicit Any(std::string s) : v_{std::move(s)} {}
    explicit Any(std::string_view s) : v_{std::string{s}} {}
    explicit Any(const char* s) : v_{std::string{s}} {}
    Any(Object o);
    Any(List l);
    Any(Any&&) noexcept = default;
    Any& operator=(Any&&) noexcept = default;
    Any(const Any&) = delete;
    Any& operator=(const Any&) = delete;
    Any& operator=(std::string s)
    {
        v_ = std::move(s);
        return *this;
    }
    Any& operator=(bool b)
    {
        v_ = b;
        return *this;
    }
    template <class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>, int> = 0>
    Any& operator=(T t)
    {
        v_ = num(t);
        return *this;
    }
    Any& operator=(Object o);
    Any& operator=(List o);
    Any CloneByValue() const;
    // values for bool and numbers and string_view, references for the rest
    template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
    Result<T> As() const
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            if (const auto* b = std::get_if<bool>(&v_))
            {
                return *b;
            }
            return MakeUnexpected(Error::kWrongType);
        }
        else
        {
            if (const auto* n = std::get_if<Number>(&v_))
            {
                return n->as<T>();
            }
            return MakeUnexpected(Error::kWrongType);
        }
    }
    template <class T, std::enable_if_t<std::is_same_v<T, std::string_view>, int> = 0>
    Result<T> As() const
    {
        if (const auto* s = std::get_if<std::string>(&v_))
        {
            return std::string_view{*s};
        }
        return MakeUnexpected(Error::kWrongType);
    }
    template <class T, std::enable_if_t<std::is_same_v<T, std::string> || std::is_same_v<T, Null>, int> = 0>
    Result<std::reference_wrapper<const T>> As() const
    {
        if (const auto* s = std::get_if<T>(&v_))
        {
            return std::cref(*s);
        }
        return MakeUnexpected(Error::kWrongType);
    }
    template <class T, std::enable_if_t<std::is_same_v<T, std::string>, int> = 0>
    Result<std::reference_wrapper<T>> As()
    {
        if (auto* s = std::get_if<T>(&v_))
        {
            return std::ref(*s);
        }
        return MakeUnexpected(Error::kWrongType);
    }
    template <class T, std::enable_if_t<std::is_same_v<T, Object> || std::is_same_v<T, List>, int> = 0>
    Result<std::reference_wrapper<const T>> As() const
    {
        if (const auto* s = std::get_if<std::unique_ptr<T>>(&v_))
        {
            return std::cref(**s);
        }
        return MakeUnexpected(Error::kWrongType);
    }
    template <class T, std::enable_if_t<std::is_same_v<T, Object> || std::is_same_v<T, List>, int> = 0>
    Result<std::reference_wrapper<T>> As()
    {
        if (auto* s = std::get_if<std::unique_ptr<T>>(&v_))
        {
            return std::ref(**s);
        }
        return MakeUnexpected(Error::kWrongType);
    }
    friend bool operator==(const Any& a, const Any& b);
    void write(std::ostream& o, int indent) const;

  private:
    template <class T>
    static Number num(T t)
    {
        Number n;
        if constexpr (std::is_floating_point_v<T>)
        {
            n.kind = Number::kD;
            n.d = t;
        }
        else if (t < T{0})
        {
            n.kind = Number::kS;
            n.s = static_cast<std::int64_t>(t);
        }
        else
        {
            n.u = static_cast<std::uint64_t>(t);
        }
        return n;
    }
    std::variant<Null, bool, Number, std::string, std::unique_ptr<Object>, std::unique_ptr<List>> v_;
};
}  // namespace score::json
#endif
