#ifndef VERIF_SHIM_MOSF_H
#define VERIF_SHIM_MOSF_H
#include "score/language/safecpp/scoped_function/scope.h"
namespace score::safecpp
{
template <class Sig>
class MoveOnlyScopedFunction : public detail::scoped_function<false, Sig>
{
  public:
    using detail::scoped_function<false, Sig>::scoped_function;
    MoveOnlyScopedFunction() noexcept = default;
    MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept = default;
    MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept = default;
    MoveOnlyScopedFunction(const MoveOnlyScopedFunction&) = delete;
    MoveOnlyScopedFunction& operator=(const MoveOnlyScopedFunction&) = delete;
};
}  // namespace score::safecpp
#endif
