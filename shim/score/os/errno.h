#ifndef VERIF_SHIM_OS_ERRNO_H
#define VERIF_SHIM_OS_ERRNO_H
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
#include "score/expected.hpp"
#include "score/utility.hpp"
#include "verif_seam.h"
namespace score::os
{
class Error
{
  public:
    enum class Code : std::int32_t
    {
        kUnexpected = 1,
        kOperationNotPermitted,
        kNoSuchFileOrDirectory,
        kNoSuchProcess,
        kCallWasInterrupted,
        kOperationWasInterruptedBySignal = kCallWasInterrupted,
        kInputOutput,
        kBadFileDescriptor,
        kResourceTemporarilyUnavailable,
        kNotEnoughSpace,
        kPermissionDenied,
        kDeviceOrResourceBusy,
        kObjectExists,
        kInvalidArgument,
        kBrokenPipe,
        kConnectionRefused,
        kOperationTimedOut,
        kNoBufferSpaceAvailable,
        kMessageTooLong,
        kWouldBlock,
        kNotSupported,
        kUnknown
    };
    static Error createFromErrno() noexcept { return Error{errno}; }
    static Error createFromErrno(std::int32_t e) noexcept { return Error{e}; }
    static Error createFromErrnoFlockSpecific(std::int32_t e) noexcept { return Error{e}; }
    static Error createUnspecifiedError() noexcept { return Error{-1}; }
    std::string ToString() const { return code_ == -1 ? "unspecified" : std::strerror(code_); }
    std::int32_t GetOsDependentErrorCode() const noexcept { return code_; }
    operator Code() const noexcept
    {
        switch (code_)
        {
            case EPERM: return Code::kOperationNotPermitted;
            case ENOENT: return Code::kNoSuchFileOrDirectory;
            case ESRCH: return Code::kNoSuchProcess;
            case EINTR: return Code::kCallWasInterrupted;
            case EIO: return Code::kInputOutput;
            case EBADF: return Code::kBadFileDescriptor;
            case EAGAIN: return Code::kResourceTemporarilyUnavailable;
            case ENOMEM: return Code::kNotEnoughSpace;
            case EACCES: return Code::kPermissionDenied;
            case EBUSY: return Code::kDeviceOrResourceBusy;
            case EEXIST: return Code::kObjectExists;
            case EINVAL: return Code::kInvalidArgument;
            case EPIPE: return Code::kBrokenPipe;
            case ECONNREFUSED: return Code::kConnectionRefused;
            case ETIMEDOUT: return Code::kOperationTimedOut;
            case ENOBUFS: return Code::kNoBufferSpaceAvailable;
            case EMSGSIZE: return Code::kMessageTooLong;
            case ENOTSUP: return Code::kNotSupported;
            default: return Code::kUnexpected;
        }
    }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.code_ == b.code_; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return a.code_ != b.code_; }
    friend bool operator==(const Error& a, Code c) noexcept { return static_cast<Code>(a) == c; }
    friend bool operator!=(const Error& a, Code c) noexcept { return static_cast<Code>(a) != c; }
    friend bool operator==(Code c, const Error& a) noexcept { return static_cast<Code>(a) == c; }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.ToString(); }

  private:
    explicit Error(std::int32_t c) noexcept : code_{c} {}
    std::int32_t code_;
};
template <class T>
using Result = score::cpp::expected<T, Error>;
namespace shim
{
template <class T, class F>
score::cpp::expected<T, Error> call(const char* op, const char* path, int fd, F&& f)
{
    if (const int e = verif::os_pre(op, path, fd); e != 0)
    {
        return score::cpp::make_unexpected(Error::createFromErrno(e));
    }
    const auto r = f();
    if (r < 0)
    {
        return score::cpp::make_unexpected(Error::createFromErrno(errno));
    }
    return static_cast<T>(r);
}
template <class F>
score::cpp::expected_blank<Error> call_blank(const char* op, const char* path, int fd, F&& f)
{
    if (const int e = verif::os_pre(op, path, fd); e != 0)
    {
        return score::cpp::make_unexpected(Error::createFromErrno(e));
    }
    if (f() < 0)
    {
        return score::cpp::make_unexpected(Error::createFromErrno(errno));
    }
    return score::cpp::blank{};
}
}  // namespace shim
}  // namespace score::os
#endif
