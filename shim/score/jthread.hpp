#ifndef VERIF_SHIM_JTHREAD_HPP
#define VERIF_SHIM_JTHREAD_HPP
#include <pthread.h>
#include <string>
#include <thread>
#include "score/stop_token.hpp"
namespace score::cpp
{
class jthread
{
  public:
    using id = std::thread::id;
    struct name_hint
    {
        explicit name_hint(std::string n) : value{std::move(n)} {}
        std::string value;
    };
    struct stack_size_hint
    {
        explicit stack_size_hint(std::size_t n) : value{n} {}
        std::size_t value;
    };
    jthread() noexcept : ss_{nostopstate} {}
    template <class F,
              class... A,
              std::enable_if_t<!std::is_same_v<std::decay_t<F>, jthread> && !std::is_same_v<std::decay_t<F>, name_hint> &&
                                   !std::is_same_v<std::decay_t<F>, stack_size_hint>,
                               int> = 0>
    explicit jthread(F&& f, A&&... a)
        : ss_{}, t_{launch(ss_.get_token(), std::forward<F>(f), std::forward<A>(a)...)}
    {
    }
    template <class F, class... A>
    explicit jthread(const name_hint&, F&& f, A&&... a) : jthread(std::forward<F>(f), std::forward<A>(a)...)
    {
    }
    template <class F, class... A>
    explicit jthread(const stack_size_hint&, F&& f, A&&... a) : jthread(std::forward<F>(f), std::forward<A>(a)...)
    {
    }
    template <class F, class... A>
    explicit jthread(const stack_size_hint&, const name_hint&, F&& f, A&&... a)
        : jthread(std::forward<F>(f), std::forward<A>(a)...)
    {
    }
    jthread(jthread&&) noexcept = default;
    jthread& operator=(jthread&& o) noexcept
    {
        if (&o != this)
        {
            finish();
            ss_ = std::move(o.ss_);
            t_ = std::move(o.t_);
        }
        return *this;
    }
    ~jthread() { finish(); }
    bool joinable() const noexcept { return t_.joinable(); }
    void join() { t_.join(); }
    void detach() { t_.detach(); }
    id get_id() const noexcept { return t_.get_id(); }
    std::thread::native_handle_type native_handle() { return t_.native_handle(); }
    stop_source get_stop_source() const noexcept { return ss_; }
    stop_token get_stop_token() const noexcept { return ss_.get_token(); }
    bool request_stop() noexcept { return ss_.request_stop(); }
    static unsigned hardware_concurrency() noexcept { return std::thread::hardware_concurrency(); }

  private:
    template <class F, class... A>
    static std::thread launch(stop_token tok, F&& f, A&&... a)
    {
        if constexpr (std::is_invocable_v<std::decay_t<F>, stop_token, std::decay_t<A>...>)
        {
            return std::thread(std::forward<F>(f), std::move(tok), std::forward<A>(a)...);
        }
        else
        {
            return std::thread(std::forward<F>(f), std::forward<A>(a)...);
        }
    }
    void finish()
    {
        if (t_.joinable())
        {
            ss_.request_stop();
            t_.join();
        }
    }
    stop_source ss_;
    std::thread t_;
};
}  // namespace score::cpp
#endif
