#ifndef VERIF_SHIM_OS_UNISTD_H
#define VERIF_SHIM_OS_UNISTD_H
#include <pwd.h>
#include <unistd.h>
#include <memory>
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
namespace score::os
{
class Unistd : public ObjectSeam<Unistd>
{
  public:
    virtual ~Unistd() = default;
    static Unistd& instance() noexcept;
    static std::unique_ptr<Unistd> Default() noexcept;
    static score::cpp::pmr::unique_ptr<Unistd> Default(score::cpp::pmr::memory_resource* r) noexcept
    {
        return score::cpp::pmr::make_unique<Unistd>(r);
    }
    virtual score::cpp::expected_blank<Error> close(const std::int32_t fd) const noexcept
    {
        return shim::call_blank("close", nullptr, fd, [&] { return verif::close_fd(fd); });
    }
    virtual score::cpp::expected_blank<Error> unlink(const char* p) const noexcept
    {
        const auto m = verif::map_path(p);
        return shim::call_blank("unlink", p, -1, [&] { return ::unlink(m.c_str()); });
    }
    virtual score::cpp::expected_blank<Error> access(const char* p, std::int32_t) const noexcept
    {
        const auto m = verif::map_path(p);
        return shim::call_blank("access", p, -1, [&] { return ::access(m.c_str(), F_OK); });
    }
    virtual score::cpp::expected_blank<Error> pipe(std::int32_t p[2]) const noexcept
    {
        return shim::call_blank("pipe", nullptr, -1, [&] { return ::pipe2(p, O_CLOEXEC); });
    }
    virtual score::cpp::expected<ssize_t, Error> read(const std::int32_t fd, void* b, size_t n) const noexcept
    {
        return shim::call<ssize_t>("read", nullptr, fd, [&] { return ::read(fd, b, n); });
    }
    virtual score::cpp::expected<ssize_t, Error> write(const std::int32_t fd, const void* b, size_t n) const noexcept
    {
        return shim::call<ssize_t>("write", nullptr, fd, [&] { return ::write(fd, b, n); });
    }
    virtual score::cpp::expected_blank<Error> ftruncate(const std::int32_t fd, off_t n) const noexcept
    {
        return shim::call_blank("ftruncate", nullptr, fd, [&] { return ::ftruncate(fd, n); });
    }
    virtual pid_t getpid() const noexcept { return pid_override_ != 0 ? pid_override_ : ::getpid(); }
    virtual uid_t getuid() const noexcept { return ::getuid(); }
    virtual gid_t getgid() const noexcept { return ::getgid(); }
    virtual score::cpp::expected<std::int32_t, Error> getpwnam_r(const char* name,
                                                                 struct passwd* pwd,
                                                                 char* buf,
                                                                 size_t n,
                                                                 struct passwd** result) const noexcept
    {
        const auto r = ::getpwnam_r(name, pwd, buf, n, result);
        if (r != 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno(r));
        }
        return r;
    }
    // for harnesses that let several simulated processes share one address space
    inline static thread_local pid_t pid_override_{0};
};
namespace internal
{
using UnistdImpl = Unistd;
}
}  // namespace score::os
#endif
