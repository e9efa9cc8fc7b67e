#ifndef VERIF_SHIM_OS_STAT_H
#define VERIF_SHIM_OS_STAT_H
#include <sys/stat.h>
#include <memory>
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
namespace score::os
{
struct StatBuffer
{
    std::int64_t mtime{};
    std::int64_t st_size{};
    std::int64_t st_dev{};
    std::uint64_t st_ino{};
    std::uint32_t st_uid{};
    std::uint32_t st_gid{};
    std::uint32_t st_mode{};
    struct timespec st_mtim{};
    std::int64_t st_nlink{};
};
class Stat : public ObjectSeam<Stat>
{
  public:
    enum class Mode : std::uint32_t
    {
        kNone = 0U,
        kReadUser = S_IRUSR,
        kWriteUser = S_IWUSR,
        kExecUser = S_IXUSR,
        kReadWriteExecUser = S_IRWXU,
        kReadGroup = S_IRGRP,
        kWriteGroup = S_IWGRP,
        kExecGroup = S_IXGRP,
        kReadWriteExecGroup = S_IRWXG,
        kReadOthers = S_IROTH,
        kWriteOthers = S_IWOTH,
        kExecOthers = S_IXOTH,
        kReadWriteExecOthers = S_IRWXO
    };
    virtual ~Stat() = default;
    static Stat& instance() noexcept;
    static std::unique_ptr<Stat> Default() noexcept { return std::make_unique<Stat>(); }
    static score::cpp::pmr::unique_ptr<Stat> Default(score::cpp::pmr::memory_resource* r) noexcept
    {
        return score::cpp::pmr::make_unique<Stat>(r);
    }
    virtual score::cpp::expected_blank<Error> stat(const char* p, StatBuffer& b, bool = true) const noexcept
    {
        const auto m = verif::map_path(p);
        struct ::stat s{};
        auto r = shim::call_blank("stat", p, -1, [&] { return ::stat(m.c_str(), &s); });
        fill(r.has_value(), s, b);
        return r;
    }
    virtual score::cpp::expected_blank<Error> fstat(const std::int32_t fd, StatBuffer& b) const noexcept
    {
        struct ::stat s{};
        auto r = shim::call_blank("fstat", nullptr, fd, [&] { return ::fstat(fd, &s); });
        fill(r.has_value(), s, b);
        return r;
    }
    virtual score::cpp::expected_blank<Error> chmod(const char* p, const Mode mode) const noexcept
    {
        const auto m = verif::map_path(p);
        return shim::call_blank("chmod", p, -1, [&] { return ::chmod(m.c_str(), static_cast<mode_t>(mode)); });
    }
    virtual score::cpp::expected_blank<Error> fchmod(const std::int32_t fd, const Mode mode) const noexcept
    {
        return shim::call_blank("fchmod", nullptr, fd, [&] { return ::fchmod(fd, static_cast<mode_t>(mode)); });
    }
    virtual score::cpp::expected_blank<Error> mkdir(const char* p, const Mode mode) const noexcept
    {
        const auto m = verif::map_path(p);
        return shim::call_blank("mkdir", p, -1, [&] { return ::mkdir(m.c_str(), static_cast<mode_t>(mode)); });
    }

  private:
    static void fill(bool ok, const struct ::stat& s, StatBuffer& b)
    {
        if (ok)
        {
            b.mtime = s.st_mtime;
            b.st_mtim = s.st_mtim;
            b.st_size = s.st_size;
            b.st_dev = static_cast<std::int64_t>(s.st_dev);
            b.st_ino = s.st_ino;
            b.st_uid = s.st_uid;
            b.st_gid = s.st_gid;
            b.st_mode = s.st_mode;
            b.st_nlink = static_cast<std::int64_t>(s.st_nlink);
        }
    }
};
constexpr Stat::Mode operator|(Stat::Mode a, Stat::Mode b) noexcept
{
    return static_cast<Stat::Mode>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b));
}
constexpr Stat::Mode operator&(Stat::Mode a, Stat::Mode b) noexcept
{
    return static_cast<Stat::Mode>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b));
}
constexpr Stat::Mode& operator|=(Stat::Mode& a, Stat::Mode b) noexcept { return a = a | b; }
constexpr mode_t ModeToInteger(Stat::Mode m) noexcept { return static_cast<mode_t>(m); }
constexpr Stat::Mode IntegerToMode(mode_t m) noexcept { return static_cast<Stat::Mode>(m); }
}  // namespace score::os
#endif
