#ifndef VERIF_SHIM_NOTIFICATION_H
#define VERIF_SHIM_NOTIFICATION_H
#include <chrono>
#include <condition_variable>
#include <mutex>
#include "score/stop_token.hpp"
namespace score::concurrency
{
class Notification
{
  public:
    void notify() noexcept
    {
        std::lock_guard<std::mutex> l{m_};
        n_ = true;
        cv_.notify_all();
    }
    void reset() noexcept
    {
        std::lock_guard<std::mutex> l{m_};
        n_ = false;
    }
    bool waitWithAbort(const score::cpp::stop_token& t)
    {
        std::unique_lock<std::mutex> l{m_};
        while (!n_ && !t.stop_requested())
        {
            cv_.wait_for(l, std::chrono::milliseconds(5));
        }
        return n_;
    }
    template <class R, class P>
    bool waitForWithAbort(std::chrono::duration<R, P> d, const score::cpp::stop_token& t)
    {
        const auto end = std::chrono::steady_clock::now() + d;
        std::unique_lock<std::mutex> l{m_};
        while (!n_ && !t.stop_requested() && std::chrono::steady_clock::now() < end)
        {
            cv_.wait_for(l, std::chrono::milliseconds(5));
        }
        return n_;
    }
    bool is_notified() const
    {
        std::lock_guard<std::mutex> l{m_};
        return n_;
    }

  private:
    mutable std::mutex m_;
    std::condition_variable cv_;
    bool n_{false};
};
}  // namespace score::concurrency
#endif
