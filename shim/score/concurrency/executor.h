#ifndef VERIF_SHIM_EXECUTOR_H
#define VERIF_SHIM_EXECUTOR_H
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include "score/expected.hpp"
#include "score/blank.hpp"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include "score/result/result.h"
#include "score/stop_token.hpp"
namespace score::concurrency
{
class Task
{
  public:
    virtual ~Task() = default;
    virtual void operator()(score::cpp::stop_token) = 0;
    virtual score::cpp::stop_source GetStopSource() const { return score::cpp::stop_source{score::cpp::nostopstate_t{}}; }
};
namespace shim
{
template <class F>
class FnTask final : public Task
{
  public:
    explicit FnTask(F f) : f_{std::move(f)} {}
    void operator()(score::cpp::stop_token t) override { f_(t); }

  private:
    F f_;
};
struct ResultState
{
    std::mutex m;
    std::condition_variable cv;
    bool done{false};
    score::cpp::stop_source src{};
};
struct SetDone
{
    explicit SetDone(std::shared_ptr<ResultState> x) : s{std::move(x)} {}
    SetDone(const SetDone&) = delete;
    SetDone& operator=(const SetDone&) = delete;
    ~SetDone()
    {
        std::lock_guard<std::mutex> l{s->m};
        s->done = true;
        s->cv.notify_all();
    }
    std::shared_ptr<ResultState> s;
};
}  // namespace shim
template <class R>
class TaskResult;
template <>
class TaskResult<void>
{
  public:
    TaskResult() = default;
    explicit TaskResult(std::shared_ptr<shim::ResultState> s) : s_{std::move(s)} {}
    bool Valid() const noexcept { return s_ != nullptr; }
    void Abort()
    {
        if (s_)
        {
            (void)s_->src.request_stop();
        }
    }
    score::Result<score::cpp::blank> Wait()
    {
        if (s_)
        {
            std::unique_lock<std::mutex> l{s_->m};
            s_->cv.wait(l, [this] { return s_->done; });
        }
        return score::Result<score::cpp::blank>{};
    }
    score::Result<score::cpp::blank> Get() { return Wait(); }

  private:
    std::shared_ptr<shim::ResultState> s_;
};
class Executor
{
  public:
    virtual ~Executor() = default;
    virtual void Enqueue(score::cpp::pmr::unique_ptr<Task> t) = 0;
    virtual bool ShutdownRequested() const noexcept { return shutdown_.load(); }
    virtual void Shutdown() noexcept = 0;
    template <class F, class... A>
    void Post(F&& f, A&&... a)
    {
        auto fn = [g = std::decay_t<F>(std::forward<F>(f)),
                   tup = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)](score::cpp::stop_token t) mutable {
            std::apply([&](auto&... x) { (void)g(t, x...); }, tup);
        };
        Enqueue(score::cpp::pmr::make_unique<shim::FnTask<decltype(fn)>>(score::cpp::pmr::get_default_resource(),
                                                                         std::move(fn)));
    }
    template <class F>
    TaskResult<void> Submit(F&& f)
    {
        auto s = std::make_shared<shim::ResultState>();
        // a task that never runs, because the executor is shut down, counts as done, too
        auto end = std::make_unique<shim::SetDone>(s);
        auto fn = [g = std::decay_t<F>(std::forward<F>(f)), s, end = std::move(end)](score::cpp::stop_token outer) mutable {
            score::cpp::stop_callback cb{outer, [s]() noexcept { (void)s->src.request_stop(); }};
            (void)g(s->src.get_token());
            end.reset();
        };
        Enqueue(score::cpp::pmr::make_unique<shim::FnTask<decltype(fn)>>(score::cpp::pmr::get_default_resource(),
                                                                         std::move(fn)));
        return TaskResult<void>{std::move(s)};
    }

  protected:
    std::atomic<bool> shutdown_{false};
    score::cpp::stop_source stop_{};
};
class SimpleTaskFactory
{
  public:
    template <class F>
    static score::cpp::pmr::unique_ptr<Task> Make(score::cpp::pmr::memory_resource* r, F f)
    {
        return score::cpp::pmr::make_unique<shim::FnTask<F>>(r, std::move(f));
    }
};
class ThreadPool : public Executor
{
  public:
    explicit ThreadPool(std::size_t n, std::string = "")
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            t_.emplace_back([this] { run(); });
        }
    }
    ~ThreadPool() override
    {
        Shutdown();
        for (auto& t : t_)
        {
            t.join();
        }
    }
    std::size_t MaxConcurrencyLevel() const noexcept { return t_.size(); }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override
    {
        std::lock_guard<std::mutex> l{m_};
        if (!shutdown_.load())
        {
            q_.push_back(std::move(t));
            cv_.notify_one();
        }
    }
    void Shutdown() noexcept override
    {
        {
            std::lock_guard<std::mutex> l{m_};
            shutdown_ = true;
        }
        (void)stop_.request_stop();
        cv_.notify_all();
    }

  private:
    void run()
    {
        for (;;)
        {
            score::cpp::pmr::unique_ptr<Task> t;
            {
                std::unique_lock<std::mutex> l{m_};
                cv_.wait(l, [this] { return shutdown_.load() || !q_.empty(); });
                if (shutdown_.load())
                {
                    return;
                }
                t = std::move(q_.front());
                q_.pop_front();
            }
            (*t)(stop_.get_token());
        }
    }
    std::mutex m_;
    std::condition_variable cv_;
    std::deque<score::cpp::pmr::unique_ptr<Task>> q_;
    std::vector<std::thread> t_;
};
class LongRunningThreadsContainer : public Executor
{
  public:
    LongRunningThreadsContainer() = default;
    ~LongRunningThreadsContainer() override { Shutdown(); }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override
    {
        std::lock_guard<std::mutex> l{m_};
        if (shutdown_.load())
        {
            return;
        }
        auto* raw = t.get();
        keep_.push_back(std::move(t));
        t_.emplace_back([raw, tok = stop_.get_token()] { (*raw)(tok); });
    }
    void Shutdown() noexcept override
    {
        shutdown_ = true;
        (void)stop_.request_stop();
        std::list<std::thread> ts;
        {
            std::lock_guard<std::mutex> l{m_};
            ts.swap(t_);
        }
        for (auto& t : ts)
        {
            if (t.get_id() == std::this_thread::get_id())
            {
                t.detach();
            }
            else if (t.joinable())
            {
                t.join();
            }
        }
    }

  private:
    std::mutex m_;
    std::list<score::cpp::pmr::unique_ptr<Task>> keep_;
    std::list<std::thread> t_;
};
}  // namespace score::concurrency
#endif
