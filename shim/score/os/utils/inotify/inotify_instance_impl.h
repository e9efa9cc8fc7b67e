#ifndef VERIF_SHIM_INOTIFY_IMPL_H
#define VERIF_SHIM_INOTIFY_IMPL_H
#include <poll.h>
#include <sys/eventfd.h>
#include <unistd.h>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <deque>
#include "score/os/utils/inotify/inotify_instance.h"
namespace score::os
{
class InotifyInstanceImpl : public InotifyInstance
{
  public:
    InotifyInstanceImpl() noexcept
        : fd_{::inotify_init1(IN_CLOEXEC | IN_NONBLOCK)}, stop_{::eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK)}
    {
    }
    ~InotifyInstanceImpl() noexcept override
    {
        Close();
        ::close(fd_);
        ::close(stop_);
    }
    score::cpp::expected_blank<Error> IsValid() const noexcept override { return score::cpp::expected_blank<Error>{}; }
    void Close() noexcept override
    {
        closed_ = true;
        const std::uint64_t one{1};
        (void)!::write(stop_, &one, sizeof one);
    }
    score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(safecpp::zstring_view p, Inotify::EventMask m) noexcept override
    {
        if (const int e = verif::os_pre("inotify_add_watch", p.c_str()))
        {
            return score::cpp::make_unexpected(Error::createFromErrno(e));
        }
        const int wd = ::inotify_add_watch(fd_, verif::map_path(p.c_str()).c_str(), static_cast<std::uint32_t>(m));
        if (wd < 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno());
        }
        return InotifyWatchDescriptor{wd};
    }
    score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor wd) noexcept override
    {
        if (::inotify_rm_watch(fd_, wd.GetUnderlying()) != 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno());
        }
        return score::cpp::expected_blank<Error>{};
    }
    score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override
    {
        score::cpp::static_vector<InotifyEvent, max_events> out{};
        if (rest_.empty())
        {
            pollfd p[2] = {{fd_, POLLIN, 0}, {stop_, POLLIN, 0}};
            (void)::poll(p, 2, -1);
            if (closed_)
            {
                return score::cpp::make_unexpected(Error::createFromErrno(EINTR));
            }
            alignas(inotify_event) char buf[(sizeof(inotify_event) + 32U) * max_events];
            const ssize_t n = ::read(fd_, buf, sizeof buf);
            if (n < 0)
            {
                if (errno == EAGAIN)
                {
                    return out;
                }
                return score::cpp::make_unexpected(Error::createFromErrno());
            }
            for (char* c = buf; c < buf + n;)
            {
                inotify_event e{};
                std::memcpy(&e, c, sizeof e);
                rest_.emplace_back(e.wd, e.mask, e.len != 0U ? std::string{c + sizeof e} : std::string{});
                c += sizeof e + e.len;
            }
        }
        // records without a name are small: what is more than fits is given next time
        while (!rest_.empty() && out.size() < max_events)
        {
            out.push_back(rest_.front());
            rest_.pop_front();
        }
        return out;
    }

  private:
    int fd_;
    int stop_;
    std::atomic<bool> closed_{false};
    std::deque<InotifyEvent> rest_;
};
}  // namespace score::os
#endif
