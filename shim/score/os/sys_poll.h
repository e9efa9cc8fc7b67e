#ifndef VERIF_SHIM_OS_POLL_H
#define VERIF_SHIM_OS_POLL_H
#include <poll.h>
#include <memory>
#include "score/memory.hpp"
#include "score/os/errno.h"
namespace score::os
{
class SysPoll
{
  public:
    virtual ~SysPoll() = default;
    static std::unique_ptr<SysPoll> Default() noexcept { return std::make_unique<SysPoll>(); }
    static score::cpp::pmr::unique_ptr<SysPoll> Default(score::cpp::pmr::memory_resource* r) noexcept
    {
        return score::cpp::pmr::make_unique<SysPoll>(r);
    }
    virtual score::cpp::expected<std::int32_t, Error> poll(struct pollfd* f, const nfds_t n, const std::int32_t t)
        const noexcept
    {
        return shim::call<std::int32_t>("poll", nullptr, -1, [&] { return ::poll(f, n, t); });
    }
};
}  // namespace score::os
#endif
