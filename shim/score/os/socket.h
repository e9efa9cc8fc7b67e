#ifndef VERIF_SHIM_OS_SOCKET_H
#define VERIF_SHIM_OS_SOCKET_H
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <memory>
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
namespace score::os
{
class Socket : public ObjectSeam<Socket>
{
  public:
    enum class Domain : std::int32_t
    {
        kIPv4 = AF_INET,
        kIPv6 = AF_INET6,
        kUnix = AF_UNIX
    };
    enum class MessageFlag : std::int32_t
    {
        kNone = 0,
        kPeek = MSG_PEEK,
        kWaitAll = MSG_WAITALL,
        kDontWait = MSG_DONTWAIT,
        kNoSignal = MSG_NOSIGNAL,
        kDontRoute = MSG_DONTROUTE,
        kOutOfBand = MSG_OOB
    };
    virtual ~Socket() = default;
    static Socket& instance() noexcept;
    static std::unique_ptr<Socket> Default() noexcept { return std::make_unique<Socket>(); }
    static score::cpp::pmr::unique_ptr<Socket> Default(score::cpp::pmr::memory_resource* r) noexcept
    {
        return score::cpp::pmr::make_unique<Socket>(r);
    }
    virtual score::cpp::expected<std::int32_t, Error> socket(const Domain d, const std::int32_t t, const std::int32_t p)
        const noexcept
    {
        return shim::call<std::int32_t>("socket", nullptr, -1, [&] { return verif::fresh(::socket(static_cast<int>(d), t | SOCK_CLOEXEC, p)); });
    }
    virtual score::cpp::expected_blank<Error> connect(const std::int32_t fd, const sockaddr* a, const socklen_t n)
        const noexcept
    {
        return shim::call_blank("connect", nullptr, fd, [&] { return ::connect(fd, a, n); });
    }
    virtual score::cpp::expected_blank<Error> bind(const std::int32_t fd, const sockaddr* a, const socklen_t n)
        const noexcept
    {
        return shim::call_blank("bind", nullptr, fd, [&] { return ::bind(fd, a, n); });
    }
    virtual score::cpp::expected_blank<Error> listen(const std::int32_t fd, const std::int32_t b) const noexcept
    {
        return shim::call_blank("listen", nullptr, fd, [&] { return ::listen(fd, b); });
    }
    virtual score::cpp::expected<std::int32_t, Error> accept(const std::int32_t fd, sockaddr* a, socklen_t* n)
        const noexcept
    {
        return shim::call<std::int32_t>("accept", nullptr, fd, [&] { return verif::fresh(::accept4(fd, a, n, SOCK_CLOEXEC)); });
    }
    virtual score::cpp::expected_blank<Error> setsockopt(const std::int32_t fd,
                                                         const std::int32_t l,
                                                         const std::int32_t o,
                                                         const void* v,
                                                         const socklen_t n) const noexcept
    {
        return shim::call_blank("setsockopt", nullptr, fd, [&] { return ::setsockopt(fd, l, o, v, n); });
    }
    virtual score::cpp::expected_blank<Error> getsockopt(const std::int32_t fd,
                                                         const std::int32_t l,
                                                         const std::int32_t o,
                                                         void* v,
                                                         socklen_t* n) const noexcept
    {
        return shim::call_blank("getsockopt", nullptr, fd, [&] { return ::getsockopt(fd, l, o, v, n); });
    }
    virtual score::cpp::expected<ssize_t, Error> recv(const std::int32_t fd, void* b, const size_t n, const MessageFlag f)
        const noexcept
    {
        return shim::call<ssize_t>("recv", nullptr, fd, [&] { return ::recv(fd, b, n, static_cast<int>(f)); });
    }
    virtual score::cpp::expected<ssize_t, Error> send(const std::int32_t fd, const void* b, const size_t n, const MessageFlag f)
        const noexcept
    {
        return shim::call<ssize_t>("send", nullptr, fd, [&] { return ::send(fd, b, n, static_cast<int>(f) | MSG_NOSIGNAL); });
    }
    virtual score::cpp::expected<ssize_t, Error> sendto(const std::int32_t fd,
                                                        const void* b,
                                                        const size_t n,
                                                        const MessageFlag f,
                                                        const sockaddr* a,
                                                        socklen_t l) const noexcept
    {
        return shim::call<ssize_t>(
            "sendto", nullptr, fd, [&] { return ::sendto(fd, b, n, static_cast<int>(f), a, l); });
    }
    virtual score::cpp::expected<ssize_t, Error> sendmsg(const std::int32_t fd, const msghdr* m, const MessageFlag f)
        const noexcept
    {
        return shim::call<ssize_t>("sendmsg", nullptr, fd, [&] { return ::sendmsg(fd, m, static_cast<int>(f)); });
    }
    virtual score::cpp::expected<ssize_t, Error> recvmsg(const std::int32_t fd, msghdr* m, const MessageFlag f)
        const noexcept
    {
        return shim::call<ssize_t>("recvmsg", nullptr, fd, [&] { return ::recvmsg(fd, m, static_cast<int>(f)); });
    }
    virtual score::cpp::expected_blank<Error> shutdown(const std::int32_t fd, const std::int32_t how) const noexcept
    {
        return shim::call_blank("shutdown", nullptr, fd, [&] { return ::shutdown(fd, how); });
    }
};
constexpr Socket::MessageFlag operator|(Socket::MessageFlag a, Socket::MessageFlag b) noexcept
{
    return static_cast<Socket::MessageFlag>(static_cast<std::int32_t>(a) | static_cast<std::int32_t>(b));
}
}  // namespace score::os
#endif
