#ifndef VERIF_SHIM_OS_MMAN_H
#define VERIF_SHIM_OS_MMAN_H
#include <sys/mman.h>
#include <unistd.h>
#include <memory>
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
namespace score::os
{
class Mman : public ObjectSeam<Mman>
{
  public:
    enum class Protection : std::int32_t
    {
        kNone = PROT_NONE,
        kRead = PROT_READ,
        kWrite = PROT_WRITE,
        kExec = PROT_EXEC
    };
    enum class Map : std::int32_t
    {
        kShared = MAP_SHARED,
        kPrivate = MAP_PRIVATE,
        kFixed = MAP_FIXED
    };
    virtual ~Mman() = default;
    static Mman& instance() noexcept;
    static std::unique_ptr<Mman> Default() noexcept { return std::make_unique<Mman>(); }
    static score::cpp::pmr::unique_ptr<Mman> Default(score::cpp::pmr::memory_resource* r) noexcept
    {
        return score::cpp::pmr::make_unique<Mman>(r);
    }
    virtual score::cpp::expected<void*, Error> mmap(void* a,
                                                    const std::size_t n,
                                                    const Protection p,
                                                    const Map m,
                                                    const std::int32_t fd,
                                                    const std::int64_t off) const noexcept
    {
        if (const int e = verif::os_pre("mmap", nullptr, fd); e != 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno(e));
        }
        void* r = ::mmap(a, n, static_cast<int>(p), static_cast<int>(m), fd, off);
        if (r == MAP_FAILED)
        {
            return score::cpp::make_unexpected(Error::createFromErrno(errno));
        }
        return r;
    }
    virtual score::cpp::expected_blank<Error> munmap(void* a, const std::size_t n) const noexcept
    {
        return shim::call_blank("munmap", nullptr, -1, [&] { return ::munmap(a, n); });
    }
    virtual score::cpp::expected<std::int32_t, Error> shm_open(const char* p,
                                                               const Fcntl::Open o,
                                                               const Stat::Mode mode) const noexcept
    {
        const auto m = verif::map_shm(p);
        return shim::call<std::int32_t>("shm_open", p, -1, [&] {
            return ::open(m.c_str(), Fcntl::flags(o) | O_CLOEXEC, ModeToInteger(mode));
        });
    }
    virtual score::cpp::expected_blank<Error> shm_unlink(const char* p) const noexcept
    {
        const auto m = verif::map_shm(p);
        return shim::call_blank("shm_unlink", p, -1, [&] { return ::unlink(m.c_str()); });
    }
};
constexpr Mman::Protection operator|(Mman::Protection a, Mman::Protection b) noexcept
{
    return static_cast<Mman::Protection>(static_cast<std::int32_t>(a) | static_cast<std::int32_t>(b));
}
constexpr Mman::Protection operator&(Mman::Protection a, Mman::Protection b) noexcept
{
    return static_cast<Mman::Protection>(static_cast<std::int32_t>(a) & static_cast<std::int32_t>(b));
}
constexpr Mman::Map operator|(Mman::Map a, Mman::Map b) noexcept
{
    return static_cast<Mman::Map>(static_cast<std::int32_t>(a) | static_cast<std::int32_t>(b));
}
namespace internal
{
using MmanImpl = Mman;
}
}  // namespace score::os
#endif
