#ifndef VERIF_SHIM_ATOMIC_INDIRECTOR_H
#define VERIF_SHIM_ATOMIC_INDIRECTOR_H
#include <atomic>
#include <utility>
#include "verif_seam.h"
namespace score::concurrency
{
namespace detail
{
struct AtomicPoint
{
    AtomicPoint(const char* o, const volatile void* a) : op{o}, addr{const_cast<const void*>(a)}
    {
        verif::atomic_point(0, op, addr);
    }
    ~AtomicPoint() { verif::atomic_point(1, op, addr); }
    const char* op;
    const void* addr;
};
}  // namespace detail
template <class T>
class AtomicIndirectorReal
{
  public:
    static T fetch_add(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"fetch_add", &a};
        return a.fetch_add(v, o);
    }
    static T fetch_sub(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"fetch_sub", &a};
        return a.fetch_sub(v, o);
    }
    static T load(const std::atomic<T>& a, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"load", &a};
        return a.load(o);
    }
    static void store(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"store", &a};
        a.store(v, o);
    }
    static T exchange(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"exchange", &a};
        return a.exchange(v, o);
    }
    static bool compare_exchange_strong(std::atomic<T>& a, T& e, T d, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"cas", &a};
        return a.compare_exchange_strong(e, d, o);
    }
    static bool compare_exchange_strong(std::atomic<T>& a, T& e, T d, std::memory_order s, std::memory_order f) noexcept
    {
        detail::AtomicPoint p{"cas", &a};
        return a.compare_exchange_strong(e, d, s, f);
    }
    static bool compare_exchange_weak(std::atomic<T>& a, T& e, T d, std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        detail::AtomicPoint p{"cas", &a};
        return a.compare_exchange_weak(e, d, o);
    }
    static bool compare_exchange_weak(std::atomic<T>& a, T& e, T d, std::memory_order s, std::memory_order f) noexcept
    {
        detail::AtomicPoint p{"cas", &a};
        return a.compare_exchange_weak(e, d, s, f);
    }
};
template <class T>
class AtomicIndirectorMock : public AtomicIndirectorReal<T>
{
};
}  // namespace score::concurrency
#endif
