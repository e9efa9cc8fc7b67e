#ifndef VERIF_SHIM_OS_FCNTL_H
#define VERIF_SHIM_OS_FCNTL_H
#include <fcntl.h>
#include <sys/file.h>
#include <memory>
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/stat.h"
namespace score::os
{
class Fcntl : public ObjectSeam<Fcntl>
{
  public:
    enum class Open : std::uint32_t
    {
        kReadOnly = 1,
        kWriteOnly = 2,
        kReadWrite = 4,
        kCreate = 8,
        kCloseOnExec = 16,
        kNonBlocking = 32,
        kExclusive = 64,
        kTruncate = 128,
        kDirectory = 256,
        kAppend = 512,
        kSynchronized = 1024
    };
    enum class Operation : std::int32_t
    {
        kLockShared = LOCK_SH,
        kLockExclusive = LOCK_EX,
        kUnLock = LOCK_UN,
        kLockNB = LOCK_NB
    };
    virtual ~Fcntl() = default;
    static Fcntl& instance() noexcept;
    static std::unique_ptr<Fcntl> Default() noexcept { return std::make_unique<Fcntl>(); }
    static score::cpp::pmr::unique_ptr<Fcntl> Default(score::cpp::pmr::memory_resource* r) noexcept
    {
        return score::cpp::pmr::make_unique<Fcntl>(r);
    }
    static int flags(Open o) noexcept
    {
        const auto v = static_cast<std::uint32_t>(o);
        int f = 0;
        f |= (v & 4U) ? O_RDWR : ((v & 2U) ? O_WRONLY : O_RDONLY);
        f |= (v & 8U) ? O_CREAT : 0;
        f |= (v & 16U) ? O_CLOEXEC : 0;
        f |= (v & 32U) ? O_NONBLOCK : 0;
        f |= (v & 64U) ? O_EXCL : 0;
        f |= (v & 128U) ? O_TRUNC : 0;
        f |= (v & 256U) ? O_DIRECTORY : 0;
        f |= (v & 512U) ? O_APPEND : 0;
        return f;
    }
    virtual score::cpp::expected<std::int32_t, Error> open(const char* p, const Open o) const noexcept
    {
        const auto m = verif::map_path(p);
        return shim::call<std::int32_t>("open", p, -1, [&] { return ::open(m.c_str(), flags(o) | O_CLOEXEC); });
    }
    virtual score::cpp::expected<std::int32_t, Error> open(const char* p, const Open o, const Stat::Mode mode) const noexcept
    {
        const auto m = verif::map_path(p);
        return shim::call<std::int32_t>("open", p, -1, [&] {
            return ::open(m.c_str(), flags(o) | O_CLOEXEC, ModeToInteger(mode));
        });
    }
    virtual score::cpp::expected_blank<Error> flock(const std::int32_t fd, const Operation op) const noexcept
    {
        return shim::call_blank("flock", nullptr, fd, [&] { return ::flock(fd, static_cast<int>(op)); });
    }
};
constexpr Fcntl::Open operator|(Fcntl::Open a, Fcntl::Open b) noexcept
{
    return static_cast<Fcntl::Open>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b));
}
constexpr Fcntl::Open operator&(Fcntl::Open a, Fcntl::Open b) noexcept
{
    return static_cast<Fcntl::Open>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b));
}
constexpr Fcntl::Open& operator|=(Fcntl::Open& a, Fcntl::Open b) noexcept { return a = a | b; }
constexpr Fcntl::Operation operator|(Fcntl::Operation a, Fcntl::Operation b) noexcept
{
    return static_cast<Fcntl::Operation>(static_cast<std::int32_t>(a) | static_cast<std::int32_t>(b));
}
constexpr Fcntl::Operation operator&(Fcntl::Operation a, Fcntl::Operation b) noexcept
{
    return static_cast<Fcntl::Operation>(static_cast<std::int32_t>(a) & static_cast<std::int32_t>(b));
}
namespace internal
{
using FcntlImpl = Fcntl;
}
}  // namespace score::os
#endif
