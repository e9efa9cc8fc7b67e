#ifndef VERIF_SHIM_SCOPE_EXIT_H
#define VERIF_SHIM_SCOPE_EXIT_H
#include <optional>
#include <utility>
#include "score/callback.hpp"
namespace score::utils
{
template <class F = score::cpp::callback<void()>>
class ScopeExit
{
  public:
    explicit ScopeExit(F f) : f_{std::move(f)} {}
    ScopeExit(ScopeExit&& o) noexcept : f_{std::move(o.f_)} { o.f_.reset(); }
    ScopeExit& operator=(ScopeExit&& o) noexcept
    {
        if (this != &o)
        {
            run();
            if (o.f_)
            {
                f_.emplace(std::move(*o.f_));
            }
            o.f_.reset();
        }
        return *this;
    }
    ScopeExit(const ScopeExit&) = delete;
    ScopeExit& operator=(const ScopeExit&) = delete;
    ~ScopeExit() { run(); }
    void Release() noexcept { f_.reset(); }

  private:
    void run() noexcept
    {
        if (f_)
        {
            (*f_)();
            f_.reset();
        }
    }
    std::optional<F> f_;
};
template <class F>
ScopeExit(F) -> ScopeExit<F>;
}  // namespace score::utils
#endif
