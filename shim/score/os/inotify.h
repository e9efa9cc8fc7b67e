#ifndef VERIF_SHIM_OS_INOTIFY_H
#define VERIF_SHIM_OS_INOTIFY_H
#include <sys/inotify.h>
#include <functional>
#include <string>
#include <string_view>
#include "score/os/errno.h"
namespace score::os
{
class Inotify
{
  public:
    enum class EventMask : std::uint32_t
    {
        kUnknown = 0,
        kAccess = IN_ACCESS,
        kInMovedTo = IN_MOVED_TO,
        kInCreate = IN_CREATE,
        kInDelete = IN_DELETE
    };
};
constexpr Inotify::EventMask operator|(Inotify::EventMask a, Inotify::EventMask b) noexcept
{
    return static_cast<Inotify::EventMask>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b));
}
class InotifyWatchDescriptor
{
  public:
    explicit InotifyWatchDescriptor(int v) noexcept : v_{v} {}
    int GetUnderlying() const noexcept { return v_; }
    friend bool operator==(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept
    {
        return a.v_ == b.v_;
    }
    friend bool operator!=(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept
    {
        return a.v_ != b.v_;
    }

  private:
    int v_;
};
class InotifyEvent
{
  public:
    enum class ReadMask : std::uint32_t
    {
        kUnknown = 0,
        kInAccess = IN_ACCESS,
        kInMovedTo = IN_MOVED_TO,
        kInCreate = IN_CREATE,
        kInDelete = IN_DELETE,
        kInIgnored = IN_IGNORED,
        kInIsDir = IN_ISDIR,
        kInQOverflow = IN_Q_OVERFLOW
    };
    InotifyEvent(int wd, std::uint32_t m, std::string n) : wd_{wd}, m_{m}, n_{std::move(n)} {}
    InotifyWatchDescriptor GetWatchDescriptor() const noexcept { return wd_; }
    ReadMask GetMask() const noexcept { return static_cast<ReadMask>(m_); }
    std::string_view GetName() const noexcept { return n_; }

  private:
    InotifyWatchDescriptor wd_;
    std::uint32_t m_;
    std::string n_;
};
constexpr InotifyEvent::ReadMask operator&(InotifyEvent::ReadMask a, InotifyEvent::ReadMask b) noexcept
{
    return static_cast<InotifyEvent::ReadMask>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b));
}
constexpr InotifyEvent::ReadMask operator|(InotifyEvent::ReadMask a, InotifyEvent::ReadMask b) noexcept
{
    return static_cast<InotifyEvent::ReadMask>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b));
}
}  // namespace score::os
namespace std
{
template <>
struct hash<score::os::InotifyWatchDescriptor>
{
    size_t operator()(const score::os::InotifyWatchDescriptor& w) const noexcept { return hash<int>{}(w.GetUnderlying()); }
};
}  // namespace std
#endif
