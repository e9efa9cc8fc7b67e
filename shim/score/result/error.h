#ifndef VERIF_SHIM_RESULT_ERROR_H
#define VERIF_SHIM_RESULT_ERROR_H
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
namespace score::result
{
using ErrorCode = std::int32_t;
class ErrorDomain
{
  public:
    constexpr ErrorDomain() noexcept = default;
    virtual std::string_view MessageFor(const ErrorCode& code) const noexcept = 0;

  protected:
    ~ErrorDomain() noexcept = default;
    constexpr ErrorDomain(const ErrorDomain&) noexcept = default;
    constexpr ErrorDomain(ErrorDomain&&) noexcept = default;
    constexpr ErrorDomain& operator=(const ErrorDomain&) noexcept = default;
    constexpr ErrorDomain& operator=(ErrorDomain&&) noexcept = default;
};
class Error
{
  public:
    constexpr Error(const ErrorCode code, const ErrorDomain& d, std::string_view msg = "") noexcept
        : code_{code}, domain_{&d}, msg_{msg}
    {
    }
    constexpr ErrorCode operator*() const noexcept { return code_; }
    std::string_view Message() const noexcept { return domain_->MessageFor(code_); }
    std::string_view UserMessage() const noexcept { return msg_; }
    friend constexpr bool operator==(const Error& a, const Error& b) noexcept
    {
        return a.code_ == b.code_ && a.domain_ == b.domain_;
    }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
    template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0>
    friend bool operator==(const Error& a, E e) noexcept
    {
        return a == MakeError(e, "");
    }
    template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0>
    friend bool operator!=(const Error& a, E e) noexcept
    {
        return !(a == e);
    }
    template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0>
    friend bool operator==(E e, const Error& a) noexcept
    {
        return a == e;
    }
    const ErrorDomain* domain() const noexcept { return domain_; }

  private:
    ErrorCode code_;
    const ErrorDomain* domain_;
    std::string_view msg_;
};
template <class O>
O& operator<<(O& o, const Error& e)
{
    o << "Error " << std::string{e.Message()} << ": " << std::string{e.UserMessage()};
    return o;
}
}  // namespace score::result
#endif
