#ifndef VERIF_SHIM_CALLBACK_HPP
#define VERIF_SHIM_CALLBACK_HPP
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include "score/assert.hpp"
namespace score::cpp
{
template <class Sig, std::size_t Capacity = 32U, std::size_t Align = alignof(std::max_align_t)>
class callback;
// Move-only. The original stores in place; here the target is on the heap, so that the sanitizers see its lifetime.
template <class R, class... A, std::size_t Capacity, std::size_t Align>
class callback<R(A...), Capacity, Align>
{
    struct base
    {
        virtual ~base() = default;
        virtual R call(A... a) = 0;
    };
    template <class F>
    struct impl final : base
    {
        template <class G>
        explicit impl(G&& g) : f(std::forward<G>(g))
        {
        }
        R call(A... a) override
        {
            if constexpr (std::is_void_v<R>)
            {
                std::invoke(f, std::forward<A>(a)...);
            }
            else
            {
                return std::invoke(f, std::forward<A>(a)...);
            }
        }
        F f;
    };

  public:
    using result_type = R;
    using alignment_t = std::integral_constant<std::size_t, Align>;
    using capacity_t = std::integral_constant<std::size_t, Capacity>;
    callback() noexcept = default;
    callback(std::nullptr_t) noexcept {}
    template <class F,
              std::enable_if_t<!std::is_same_v<std::decay_t<F>, callback> &&
                                   std::is_invocable_r_v<R, std::decay_t<F>&, A...>,
                               int> = 0>
    callback(F&& f) : p_{std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f))}
    {
    }
    callback(callback&&) noexcept = default;
    callback& operator=(callback&&) noexcept = default;
    callback(const callback&) = delete;
    callback& operator=(const callback&) = delete;
    callback& operator=(std::nullptr_t) noexcept
    {
        p_.reset();
        return *this;
    }
    R operator()(A... a) const
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(p_ != nullptr, "call of an empty callback");
        return p_->call(std::forward<A>(a)...);
    }
    bool empty() const noexcept { return p_ == nullptr; }
    explicit operator bool() const noexcept { return !empty(); }
    void swap(callback& o) noexcept { p_.swap(o.p_); }
    friend bool operator==(const callback& c, std::nullptr_t) noexcept { return c.empty(); }
    friend bool operator!=(const callback& c, std::nullptr_t) noexcept { return !c.empty(); }

  private:
    std::unique_ptr<base> p_;
};
template <class Sig, std::size_t C = 32U, std::size_t Al = alignof(std::max_align_t)>
using move_only_function = callback<Sig, C, Al>;
}  // namespace score::cpp
#endif
