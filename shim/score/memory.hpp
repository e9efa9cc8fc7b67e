#ifndef VERIF_SHIM_MEMORY_HPP
#define VERIF_SHIM_MEMORY_HPP
#include <memory>
#include <new>
#include <utility>
#include "score/memory_resource.hpp"
#include "score/assert.hpp"
namespace score::cpp::pmr
{
template <class T>
class deleter
{
  public:
    constexpr deleter() noexcept = default;
    deleter(memory_resource* r, std::size_t s, std::size_t a) noexcept : r_{r}, s_{s}, a_{a} {}
    template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
    deleter(const deleter<U>& o) noexcept : r_{o.r_}, s_{o.s_}, a_{o.a_}, base_{o.base_}, off_{o.off_}
    {
    }
    void operator()(T* p) const
    {
        if (p == nullptr)
        {
            return;
        }
        void* raw = base_ != nullptr ? base_ : const_cast<void*>(static_cast<const void*>(p));
        p->~T();
        if (r_ != nullptr)
        {
            r_->deallocate(raw, s_, a_);
        }
    }
    void set_base(void* b) noexcept { base_ = b; }

  private:
    template <class U>
    friend class deleter;
    memory_resource* r_{nullptr};
    std::size_t s_{0U};
    std::size_t a_{0U};
    void* base_{nullptr};
    std::ptrdiff_t off_{0};
};
template <class T>
using unique_ptr = std::unique_ptr<T, deleter<T>>;
template <class T, class... A>
unique_ptr<T> make_unique(memory_resource* r, A&&... a)
{
    if (r == nullptr)
    {
        r = get_default_resource();
    }
    void* raw = r->allocate(sizeof(T), alignof(T));
    T* p = ::new (raw) T(std::forward<A>(a)...);
    deleter<T> d{r, sizeof(T), alignof(T)};
    d.set_base(raw);
    return unique_ptr<T>(p, d);
}
template <class T, class... A>
std::shared_ptr<T> make_shared(memory_resource* r, A&&... a)
{
    return std::allocate_shared<T>(polymorphic_allocator<T>(r), std::forward<A>(a)...);
}
}  // namespace score::cpp::pmr
#endif
