#ifndef VERIF_SHIM_MEYER_H
#define VERIF_SHIM_MEYER_H
#include <utility>
namespace score::singleton
{
template <class T>
class MeyerSingleton
{
  public:
    template <class F>
    static T& GetInstanceInitializedWithCallable(F&& f)
    {
        static T t{std::forward<F>(f)()};
        return t;
    }
    template <class... A>
    static T& GetInstance(A&&... a)
    {
        static T t{std::forward<A>(a)...};
        return t;
    }
};
}  // namespace score::singleton
#endif
