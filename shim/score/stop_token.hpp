#ifndef VERIF_SHIM_STOP_TOKEN_HPP
#define VERIF_SHIM_STOP_TOKEN_HPP
#include <algorithm>
#include <condition_variable>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <utility>
namespace score::cpp
{
class stop_token;
class stop_source;
template <class C>
class stop_callback;
namespace detail
{
struct stop_cb_base
{
    virtual ~stop_cb_base() = default;
    virtual void run() noexcept = 0;
};
struct stop_state
{
    std::mutex m;
    std::condition_variable cv;
    bool stopped{false};
    std::size_t sources{0};
    std::list<stop_cb_base*> cbs;
    stop_cb_base* running{nullptr};
    std::thread::id runner;
    bool request()
    {
        std::unique_lock<std::mutex> l{m};
        if (stopped)
        {
            return false;
        }
        stopped = true;
        runner = std::this_thread::get_id();
        while (!cbs.empty())
        {
            running = cbs.front();
            cbs.pop_front();
            l.unlock();
            running->run();
            l.lock();
            running = nullptr;
            cv.notify_all();
        }
        return true;
    }
    bool add(stop_cb_base* c)
    {
        std::lock_guard<std::mutex> l{m};
        if (stopped)
        {
            return false;
        }
        cbs.push_back(c);
        return true;
    }
    void remove(stop_cb_base* c)
    {
        std::unique_lock<std::mutex> l{m};
        auto it = std::find(cbs.begin(), cbs.end(), c);
        if (it != cbs.end())
        {
            cbs.erase(it);
            return;
        }
        if (running == c && runner != std::this_thread::get_id())
        {
            cv.wait(l, [&] { return running != c; });
        }
    }
};
}  // namespace detail
class stop_token
{
  public:
    stop_token() noexcept = default;
    bool stop_requested() const noexcept
    {
        if (!s_)
        {
            return false;
        }
        std::lock_guard<std::mutex> l{s_->m};
        return s_->stopped;
    }
    bool stop_possible() const noexcept
    {
        if (!s_)
        {
            return false;
        }
        std::lock_guard<std::mutex> l{s_->m};
        return s_->stopped || s_->sources > 0;
    }
    friend bool operator==(const stop_token& a, const stop_token& b) noexcept { return a.s_ == b.s_; }
    friend bool operator!=(const stop_token& a, const stop_token& b) noexcept { return a.s_ != b.s_; }

  private:
    friend class stop_source;
    template <class C>
    friend class stop_callback;
    explicit stop_token(std::shared_ptr<detail::stop_state> s) : s_{std::move(s)} {}
    std::shared_ptr<detail::stop_state> s_;
};
struct nostopstate_t
{
    explicit nostopstate_t() = default;
};
inline constexpr nostopstate_t nostopstate{};
class stop_source
{
  public:
    stop_source() : s_{std::make_shared<detail::stop_state>()} { s_->sources = 1; }
    explicit stop_source(nostopstate_t) noexcept {}
    stop_source(const stop_source& o) : s_{o.s_} { inc(); }
    stop_source(stop_source&& o) noexcept : s_{std::move(o.s_)} {}
    stop_source& operator=(const stop_source& o)
    {
        stop_source t{o};
        std::swap(s_, t.s_);
        return *this;
    }
    stop_source& operator=(stop_source&& o) noexcept
    {
        stop_source t{std::move(o)};
        std::swap(s_, t.s_);
        return *this;
    }
    ~stop_source()
    {
        if (s_)
        {
            std::lock_guard<std::mutex> l{s_->m};
            --s_->sources;
        }
    }
    bool request_stop() noexcept { return s_ ? s_->request() : false; }
    bool stop_requested() const noexcept { return get_token().stop_requested(); }
    bool stop_possible() const noexcept { return s_ != nullptr; }
    stop_token get_token() const noexcept { return stop_token{s_}; }

  private:
    void inc()
    {
        if (s_)
        {
            std::lock_guard<std::mutex> l{s_->m};
            ++s_->sources;
        }
    }
    std::shared_ptr<detail::stop_state> s_;
};
template <class C>
class stop_callback : private detail::stop_cb_base
{
  public:
    template <class G>
    explicit stop_callback(const stop_token& t, G&& g) : c_(std::forward<G>(g)), s_{t.s_}
    {
        if (s_ && !s_->add(this))
        {
            run();
        }
    }
    ~stop_callback() override
    {
        if (s_)
        {
            s_->remove(this);
        }
    }
    stop_callback(const stop_callback&) = delete;
    stop_callback& operator=(const stop_callback&) = delete;

  private:
    void run() noexcept override { c_(); }
    C c_;
    std::shared_ptr<detail::stop_state> s_;
};
template <class C>
stop_callback(stop_token, C) -> stop_callback<C>;
}  // namespace score::cpp
#endif
