#ifndef VERIF_SHIM_SDG_H
#define VERIF_SHIM_SDG_H
#include <cstddef>
#include <new>
#include <type_traits>
namespace score::utils
{
// nifty counter
template <class T>
class StaticDestructionGuard
{
  public:
    StaticDestructionGuard() noexcept
    {
        if (count()++ == 0U)
        {
            ::new (&buf()) T();
        }
    }
    ~StaticDestructionGuard()
    {
        if (--count() == 0U)
        {
            GetStorage().~T();
        }
    }
    StaticDestructionGuard(const StaticDestructionGuard&) = delete;
    StaticDestructionGuard& operator=(const StaticDestructionGuard&) = delete;
    static T& GetStorage() noexcept { return *reinterpret_cast<T*>(&buf()); }

  private:
    static std::size_t& count() noexcept
    {
        static std::size_t n{0U};
        return n;
    }
    static std::aligned_storage_t<sizeof(T), alignof(T)>& buf() noexcept
    {
        static std::aligned_storage_t<sizeof(T), alignof(T)> b;
        return b;
    }
};
}  // namespace score::utils
#endif
