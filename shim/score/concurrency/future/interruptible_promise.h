#ifndef VERIF_SHIM_PROMISE_H
#define VERIF_SHIM_PROMISE_H
#include <condition_variable>
#include <memory>
#include <mutex>
#include <optional>
#include "score/result/result.h"
#include "score/stop_token.hpp"
namespace score::concurrency
{
enum class FutErr : score::result::ErrorCode { kTimeout = 1, kStopped, kNoState };
class FutDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "future error"; }
};
inline constexpr FutDomain fut_domain{};
constexpr score::result::Error MakeError(FutErr c, std::string_view m = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(c), fut_domain, m};
}
namespace shim
{
template <class T>
struct FutState
{
    std::mutex m;
    std::condition_variable cv;
    std::optional<T> v;
    bool taken{false};
};
}  // namespace shim
template <class T>
class InterruptibleFuture
{
  public:
    InterruptibleFuture() = default;
    explicit InterruptibleFuture(std::shared_ptr<shim::FutState<T>> s) : s_{std::move(s)} {}
    bool Valid() const noexcept { return s_ != nullptr; }
    score::Result<T> Get(const score::cpp::stop_token& t)
    {
        if (!s_)
        {
            return score::MakeUnexpected(FutErr::kNoState);
        }
        std::unique_lock<std::mutex> l{s_->m};
        while (!s_->v && !t.stop_requested())
        {
            s_->cv.wait_for(l, std::chrono::milliseconds(5));
        }
        if (!s_->v)
        {
            return score::MakeUnexpected(FutErr::kStopped);
        }
        return std::move(*s_->v);
    }

  private:
    std::shared_ptr<shim::FutState<T>> s_;
};
template <class T>
class InterruptiblePromise
{
  public:
    InterruptiblePromise() : s_{std::make_shared<shim::FutState<T>>()} {}
    score::Result<InterruptibleFuture<T>> GetInterruptibleFuture()
    {
        if (s_->taken)
        {
            return score::MakeUnexpected(FutErr::kNoState);
        }
        s_->taken = true;
        return InterruptibleFuture<T>{s_};
    }
    score::ResultBlank SetValue(T v)
    {
        std::lock_guard<std::mutex> l{s_->m};
        s_->v = std::move(v);
        s_->cv.notify_all();
        return score::ResultBlank{};
    }

  private:
    std::shared_ptr<shim::FutState<T>> s_;
};
}  // namespace score::concurrency
#endif
