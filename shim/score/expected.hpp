#ifndef VERIF_SHIM_EXPECTED_HPP
#define VERIF_SHIM_EXPECTED_HPP
#include <functional>
#include <ostream>
#include <type_traits>
#include <utility>
#include <variant>
#include "score/assert.hpp"
#include "score/blank.hpp"
#include "score/utility.hpp"

namespace score::cpp
{
template <class E>
class unexpected
{
  public:
    unexpected() = delete;
    template <class G = E,
              std::enable_if_t<!std::is_same_v<std::decay_t<G>, unexpected> && std::is_constructible_v<E, G>, int> = 0>
    constexpr explicit unexpected(G&& e) : e_(std::forward<G>(e))
    {
    }
    template <class... A>
    constexpr explicit unexpected(std::in_place_t, A&&... a) : e_(std::forward<A>(a)...)
    {
    }
    constexpr const E& error() const& noexcept { return e_; }
    constexpr E& error() & noexcept { return e_; }
    constexpr E&& error() && noexcept { return std::move(e_); }
    constexpr const E& value() const& noexcept { return e_; }

  private:
    E e_;
};
template <class E>
unexpected(E) -> unexpected<E>;
template <class E>
constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e)
{
    return unexpected<std::decay_t<E>>(std::forward<E>(e));
}
template <class E, class... A>
constexpr unexpected<E> make_unexpected(A&&... a)
{
    return unexpected<E>(std::in_place, std::forward<A>(a)...);
}
struct unexpect_t
{
    explicit unexpect_t() = default;
};
inline constexpr unexpect_t unexpect{};

template <class T, class E>
class expected;
namespace detail
{
template <class X>
struct is_expected : std::false_type
{
};
template <class T, class E>
struct is_expected<expected<T, E>> : std::true_type
{
};
template <class X>
struct is_unexpected : std::false_type
{
};
template <class E>
struct is_unexpected<unexpected<E>> : std::true_type
{
};
}  // namespace detail

template <class T, class E>
class expected
{
    static constexpr bool kVoid = std::is_void_v<T>;
    using Stored = std::conditional_t<kVoid,
                                      std::monostate,
                                      std::conditional_t<std::is_reference_v<T>,
                                                         std::reference_wrapper<std::remove_reference_t<T>>,
                                                         T>>;

  public:
    using value_type = T;
    using error_type = E;
    using unexpected_type = unexpected<E>;
    template <class U>
    using rebind = expected<U, E>;

    template <class S = Stored, std::enable_if_t<std::is_default_constructible_v<S>, int> = 0>
    constexpr expected() : v_(std::in_place_index<0>)
    {
    }
    expected(const expected&) = default;
    expected(expected&&) = default;
    expected& operator=(const expected&) = default;
    expected& operator=(expected&&) = default;

    template <class U = Stored,
              std::enable_if_t<!kVoid && !std::is_same_v<std::decay_t<U>, expected> &&
                                   !detail::is_unexpected<std::decay_t<U>>::value &&
                                   !std::is_same_v<std::decay_t<U>, std::in_place_t> &&
                                   !std::is_same_v<std::decay_t<U>, unexpect_t> &&
                                   !(detail::is_expected<std::decay_t<U>>::value &&
                                     !detail::is_expected<std::decay_t<Stored>>::value) &&
                                   std::is_constructible_v<Stored, U> && std::is_convertible_v<U, Stored>,
                               int> = 0>
    constexpr expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u))
    {
    }
    template <class U = Stored,
              std::enable_if_t<!kVoid && !std::is_same_v<std::decay_t<U>, expected> &&
                                   !detail::is_unexpected<std::decay_t<U>>::value &&
                                   !std::is_same_v<std::decay_t<U>, std::in_place_t> &&
                                   !std::is_same_v<std::decay_t<U>, unexpect_t> &&
                                   !detail::is_expected<std::decay_t<U>>::value &&
                                   std::is_constructible_v<Stored, U> && !std::is_convertible_v<U, Stored>,
                               int> = 0,
              class = void>
    constexpr explicit expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u))
    {
    }
    template <class G, std::enable_if_t<std::is_constructible_v<E, const G&>, int> = 0>
    constexpr expected(const unexpected<G>& g) : v_(std::in_place_index<1>, g.error())
    {
    }
    template <class G, std::enable_if_t<std::is_constructible_v<E, G>, int> = 0>
    constexpr expected(unexpected<G>&& g) : v_(std::in_place_index<1>, std::move(g).error())
    {
    }
    template <class... A>
    constexpr explicit expected(std::in_place_t, A&&... a) : v_(std::in_place_index<0>, std::forward<A>(a)...)
    {
    }
    template <class... A>
    constexpr explicit expected(unexpect_t, A&&... a) : v_(std::in_place_index<1>, std::forward<A>(a)...)
    {
    }
    template <class U,
              class G,
              std::enable_if_t<!std::is_same_v<expected<U, G>, expected> && !std::is_void_v<U> && !kVoid &&
                                   std::is_constructible_v<Stored, U&&> && !std::is_convertible_v<expected<U, G>&&, Stored> && std::is_constructible_v<E, G&&>,
                               int> = 0>
    constexpr expected(expected<U, G>&& o) : v_(o.has_value() ? Var(std::in_place_index<0>, std::move(o).value())
                                                              : Var(std::in_place_index<1>, std::move(o).error()))
    {
    }

    constexpr bool has_value() const noexcept { return v_.index() == 0; }
    constexpr explicit operator bool() const noexcept { return has_value(); }

    template <class S = Stored, std::enable_if_t<!kVoid && sizeof(S), int> = 0>
    constexpr S& value() &
    {
        check();
        return *std::get_if<0>(&v_);
    }
    template <class S = Stored, std::enable_if_t<!kVoid && sizeof(S), int> = 0>
    constexpr const S& value() const&
    {
        check();
        return *std::get_if<0>(&v_);
    }
    template <class S = Stored, std::enable_if_t<!kVoid && sizeof(S), int> = 0>
    constexpr S&& value() &&
    {
        check();
        return std::move(*std::get_if<0>(&v_));
    }
    template <bool V = kVoid, std::enable_if_t<V, int> = 0>
    constexpr void value() const
    {
        check();
    }
    template <class S = Stored>
    constexpr S& operator*() &
    {
        check();
        return *std::get_if<0>(&v_);
    }
    template <class S = Stored>
    constexpr const S& operator*() const&
    {
        check();
        return *std::get_if<0>(&v_);
    }
    template <class S = Stored>
    constexpr S&& operator*() &&
    {
        check();
        return std::move(*std::get_if<0>(&v_));
    }
    constexpr auto* operator->()
    {
        check();
        return std::get_if<0>(&v_);
    }
    constexpr const auto* operator->() const
    {
        check();
        return std::get_if<0>(&v_);
    }
    template <class U>
    constexpr Stored value_or(U&& u) const&
    {
        return has_value() ? value() : static_cast<Stored>(std::forward<U>(u));
    }
    template <class U>
    constexpr Stored value_or(U&& u) &&
    {
        return has_value() ? std::move(*this).value() : static_cast<Stored>(std::forward<U>(u));
    }
    constexpr const E& error() const&
    {
        check_err();
        return *std::get_if<1>(&v_);
    }
    constexpr E& error() &
    {
        check_err();
        return *std::get_if<1>(&v_);
    }
    constexpr E&& error() &&
    {
        check_err();
        return std::move(*std::get_if<1>(&v_));
    }
    template <class G>
    constexpr E error_or(G&& g) const
    {
        return has_value() ? static_cast<E>(std::forward<G>(g)) : error();
    }
    template <class... A>
    decltype(auto) emplace(A&&... a)
    {
        return v_.template emplace<0>(std::forward<A>(a)...);
    }
    template <class F>
    constexpr auto and_then(F&& f) &&
    {
        if constexpr (kVoid)
        {
            using R = std::decay_t<std::invoke_result_t<F>>;
            return has_value() ? R(std::invoke(std::forward<F>(f))) : R(make_unexpected(std::move(*this).error()));
        }
        else
        {
            using R = std::decay_t<std::invoke_result_t<F, Stored&&>>;
            return has_value() ? R(std::invoke(std::forward<F>(f), std::move(*this).value()))
                               : R(make_unexpected(std::move(*this).error()));
        }
    }
    template <class F>
    constexpr expected or_else(F&& f) &&
    {
        return has_value() ? std::move(*this) : expected(std::invoke(std::forward<F>(f), std::move(*this).error()));
    }
    template <class F>
    constexpr auto and_then(F&& f) const&
    {
        if constexpr (kVoid)
        {
            using R = std::decay_t<std::invoke_result_t<F>>;
            return has_value() ? std::invoke(std::forward<F>(f)) : R(make_unexpected(error()));
        }
        else
        {
            using R = std::decay_t<std::invoke_result_t<F, const Stored&>>;
            return has_value() ? std::invoke(std::forward<F>(f), value()) : R(make_unexpected(error()));
        }
    }
    template <class F>
    constexpr auto transform(F&& f) const&
    {
        if constexpr (kVoid)
        {
            using R = expected<std::invoke_result_t<F>, E>;
            return has_value() ? R(std::invoke(std::forward<F>(f))) : R(make_unexpected(error()));
        }
        else
        {
            using R = expected<std::invoke_result_t<F, const Stored&>, E>;
            return has_value() ? R(std::invoke(std::forward<F>(f), value())) : R(make_unexpected(error()));
        }
    }
    template <class F>
    constexpr expected or_else(F&& f) const&
    {
        return has_value() ? *this : expected(std::invoke(std::forward<F>(f), error()));
    }
    friend bool operator==(const expected& a, const expected& b)
    {
        if (a.has_value() != b.has_value())
        {
            return false;
        }
        if (!a.has_value())
        {
            return a.error() == b.error();
        }
        if constexpr (kVoid)
        {
            return true;
        }
        else
        {
            return *std::get_if<0>(&a.v_) == *std::get_if<0>(&b.v_);
        }
    }
    friend bool operator!=(const expected& a, const expected& b) { return !(a == b); }
    template <class U,
              std::enable_if_t<!detail::is_expected<std::decay_t<U>>::value &&
                                   !detail::is_unexpected<std::decay_t<U>>::value && !kVoid,
                               int> = 0>
    friend bool operator==(const expected& a, const U& u)
    {
        return a.has_value() && a.value() == u;
    }
    template <class U,
              std::enable_if_t<!detail::is_expected<std::decay_t<U>>::value &&
                                   !detail::is_unexpected<std::decay_t<U>>::value && !kVoid,
                               int> = 0>
    friend bool operator!=(const expected& a, const U& u)
    {
        return !(a == u);
    }
    template <class G>
    friend bool operator==(const expected& a, const unexpected<G>& u)
    {
        return !a.has_value() && a.error() == u.error();
    }
    template <class G>
    friend bool operator!=(const expected& a, const unexpected<G>& u)
    {
        return !(a == u);
    }

  private:
    using Var = std::variant<Stored, E>;
    constexpr void check() const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(has_value(), "expected::value() without a value");
    }
    constexpr void check_err() const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(!has_value(), "expected::error() with a value");
    }
    Var v_;
};
template <class E>
using expected_blank = expected<blank, E>;
}  // namespace score::cpp
#endif
