#ifndef VERIF_SHIM_SCOPE_H
#define VERIF_SHIM_SCOPE_H
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
namespace score::safecpp
{
namespace detail
{
// As the original: functions of one scope may run concurrently and re-enter; Expire() waits until none runs. Expiring
// from within a running function of the scope is a misuse (self-deadlock) in the original; here it trips after 20 s.
struct scope_state
{
    std::mutex m;
    std::condition_variable cv;
    bool expired{false};
    std::uint32_t running{0};
    bool enter()
    {
        std::lock_guard<std::mutex> g{m};
        if (expired)
        {
            return false;
        }
        ++running;
        return true;
    }
    void leave()
    {
        std::lock_guard<std::mutex> g{m};
        if (--running == 0U)
        {
            cv.notify_all();
        }
    }
    void expire()
    {
        std::unique_lock<std::mutex> l{m};
        expired = true;
        cv.wait(l, [this] { return running == 0U; });
    }
};
}  // namespace detail
struct DefaultScopePolicy
{
};
template <class Policy = DefaultScopePolicy>
class Scope
{
  public:
    Scope() : s_{std::make_shared<detail::scope_state>()} {}
    Scope(Scope&& o) noexcept : s_{std::move(o.s_)} {}
    Scope& operator=(Scope&& o) noexcept
    {
        if (this != &o)
        {
            Expire();
            s_ = std::move(o.s_);
        }
        return *this;
    }
    Scope(const Scope&) = delete;
    Scope& operator=(const Scope&) = delete;
    ~Scope() { Expire(); }
    void Expire() noexcept
    {
        if (s_)
        {
            s_->expire();
        }
    }
    const std::shared_ptr<detail::scope_state>& state() const noexcept { return s_; }

  private:
    std::shared_ptr<detail::scope_state> s_;
};
namespace detail
{
struct running_guard
{
    explicit running_guard(scope_state& s) : st{s} {}
    ~running_guard() { st.leave(); }
    scope_state& st;
};
template <class R>
struct scoped_result
{
    using type = std::optional<R>;
};
template <>
struct scoped_result<void>
{
    // Converts to bool and offers has_value(), like an optional<blank>.
    class type
    {
      public:
        type() noexcept = default;
        explicit type(bool b) noexcept : b_{b} {}
        bool has_value() const noexcept { return b_; }
        explicit operator bool() const noexcept { return b_; }

      private:
        bool b_{false};
    };
};
template <bool Copyable, class Sig>
class scoped_function;
template <bool Copyable, class R, class... A>
class scoped_function<Copyable, R(A...)>
{
    struct base
    {
        virtual ~base() = default;
        virtual R call(A... a) = 0;
    };
    template <class F>
    struct impl final : base
    {
        template <class G>
        explicit impl(G&& g) : f(std::forward<G>(g))
        {
        }
        R call(A... a) override { return std::invoke(f, std::forward<A>(a)...); }
        F f;
    };

  public:
    using result = typename scoped_result<R>::type;
    scoped_function() noexcept = default;
    template <class P, class F>
    scoped_function(const Scope<P>& s, F&& f)
        : st_{s.state()}, f_{std::make_shared<impl<std::decay_t<F>>>(std::forward<F>(f))}
    {
    }
    scoped_function(scoped_function&&) noexcept = default;
    scoped_function& operator=(scoped_function&&) noexcept = default;
    template <bool C = Copyable>
    scoped_function(const std::enable_if_t<C, scoped_function>& o) : st_{o.st_}, f_{o.f_}
    {
    }
    result operator()(A... a) const
    {
        if (!st_ || !st_->enter())
        {
            return result{};
        }
        running_guard g{*st_};
        if constexpr (std::is_void_v<R>)
        {
            f_->call(std::forward<A>(a)...);
            return result{true};
        }
        else
        {
            return result{f_->call(std::forward<A>(a)...)};
        }
    }
    bool empty() const noexcept { return f_ == nullptr; }

  private:
    std::shared_ptr<scope_state> st_;
    std::shared_ptr<base> f_;
};
}  // namespace detail
}  // namespace score::safecpp
#endif
