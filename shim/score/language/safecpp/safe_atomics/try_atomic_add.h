#ifndef VERIF_SHIM_TRY_ATOMIC_ADD_H
#define VERIF_SHIM_TRY_ATOMIC_ADD_H
#include <atomic>
#include "score/language/safecpp/safe_math/safe_math.h"
namespace score::safe_atomics
{
// returns the old value
template <class T>
score::Result<T> TryAtomicAdd(std::atomic<T>& a, T v, std::size_t max_retries = 1000U) noexcept
{
    T cur = a.load();
    for (std::size_t i = 0U; i < max_retries; ++i)
    {
        T r{};
        if (__builtin_add_overflow(cur, v, &r))
        {
            return score::MakeUnexpected(safe_math::ErrorCode::kExceedsNumericLimits);
        }
        if (a.compare_exchange_weak(cur, r))
        {
            return cur;
        }
    }
    return score::MakeUnexpected(safe_math::ErrorCode::kExceedsNumericLimits);
}
}  // namespace score::safe_atomics
#endif
