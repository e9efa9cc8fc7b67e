#ifndef VERIF_SHIM_HASH_HPP
#define VERIF_SHIM_HASH_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
namespace score::cpp
{
inline std::uint64_t hash_bytes_fnv(const void* p, std::ptrdiff_t n, std::uint64_t h = 14695981039346656037ULL) noexcept
{
    const auto* b = static_cast<const unsigned char*>(p);
    for (std::ptrdiff_t i = 0; i < n; ++i)
    {
        h = (h ^ b[i]) * 1099511628211ULL;
    }
    return h;
}
inline std::size_t hash_bytes(const void* p, std::size_t n) noexcept
{
    return static_cast<std::size_t>(hash_bytes_fnv(p, static_cast<std::ptrdiff_t>(n)));
}
}  // namespace score::cpp
#endif
