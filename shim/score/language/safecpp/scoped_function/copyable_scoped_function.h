#ifndef VERIF_SHIM_CSF_H
#define VERIF_SHIM_CSF_H
#include "score/language/safecpp/scoped_function/scope.h"
namespace score::safecpp
{
template <class Sig>
class CopyableScopedFunction;
template <class R, class... A>
class CopyableScopedFunction<R(A...)>
{
    using impl = detail::scoped_function<true, R(A...)>;

  public:
    CopyableScopedFunction() noexcept = default;
    template <class P, class F>
    CopyableScopedFunction(const Scope<P>& s, F&& f) : f_{std::make_shared<impl>(s, std::forward<F>(f))}
    {
    }
    typename impl::result operator()(A... a) const
    {
        return f_ ? (*f_)(std::forward<A>(a)...) : typename impl::result{};
    }
    bool empty() const noexcept { return f_ == nullptr; }

  private:
    std::shared_ptr<impl> f_;
};
}  // namespace score::safecpp
#endif
