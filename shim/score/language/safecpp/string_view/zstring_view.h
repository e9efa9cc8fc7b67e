#ifndef VERIF_SHIM_ZSTRING_VIEW_H
#define VERIF_SHIM_ZSTRING_VIEW_H
#include <ostream>
#include <string>
#include <string_view>
#include "score/assert.hpp"
namespace score::safecpp
{
class zstring_view
{
  public:
    using size_type = std::size_t;
    using value_type = char;
    constexpr zstring_view() noexcept : v_{""} {}
    template <std::size_t N>
    constexpr zstring_view(const char (&s)[N]) noexcept : v_{s}
    {
    }
    zstring_view(const std::string& s) noexcept : v_{s.c_str(), s.size()} {}
    constexpr zstring_view(const char* s, size_type n) : v_{s, n}
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(s[n] == '\0', "zstring_view: not terminated");
    }
    static constexpr zstring_view from_cstring(const char* s) { return zstring_view{s, std::string_view{s}.size()}; }
    constexpr const char* c_str() const noexcept { return v_.data(); }
    constexpr const char* data() const noexcept { return v_.data(); }
    constexpr size_type size() const noexcept { return v_.size(); }
    constexpr size_type length() const noexcept { return v_.size(); }
    constexpr bool empty() const noexcept { return v_.empty(); }
    constexpr auto begin() const noexcept { return v_.begin(); }
    constexpr auto end() const noexcept { return v_.end(); }
    constexpr operator std::string_view() const noexcept { return v_; }
    friend constexpr bool operator==(zstring_view a, zstring_view b) noexcept { return a.v_ == b.v_; }
    friend constexpr bool operator!=(zstring_view a, zstring_view b) noexcept { return a.v_ != b.v_; }
    friend std::ostream& operator<<(std::ostream& o, zstring_view z) { return o << z.v_; }

  private:
    std::string_view v_;
};
namespace literals
{
constexpr zstring_view operator""_zsv(const char* s, std::size_t n) { return {s, n}; }
}
using literals::operator""_zsv;
}  // namespace score::safecpp
#endif
