#ifndef VERIF_SHIM_INOTIFY_INSTANCE_H
#define VERIF_SHIM_INOTIFY_INSTANCE_H
#include "score/expected.hpp"
#include "score/language/safecpp/string_view/zstring_view.h"
#include "score/os/inotify.h"
#include "score/os/unistd.h"
#include "score/static_vector.hpp"
#include "verif_seam.h"
namespace score::os
{
class InotifyInstance
{
  public:
    static constexpr std::size_t max_events = 10U;
    virtual ~InotifyInstance() noexcept = default;
    virtual score::cpp::expected_blank<Error> IsValid() const noexcept = 0;
    virtual void Close() noexcept = 0;
    virtual score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(safecpp::zstring_view path,
                                                                        Inotify::EventMask mask) noexcept = 0;
    virtual score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor wd) noexcept = 0;
    virtual score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept = 0;
};
}  // namespace score::os
#endif
