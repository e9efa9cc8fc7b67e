#ifndef VERIF_SHIM_OS_SIGNAL_H
#define VERIF_SHIM_OS_SIGNAL_H
#include <pthread.h>
#include <signal.h>
#include "score/os/errno.h"
namespace score::os
{
class Signal
{
  public:
    virtual ~Signal() = default;
    virtual score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t& s) const noexcept
    {
        return ::sigemptyset(&s);
    }
    virtual score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t& s) const noexcept
    {
        return ::sigaddset(&s, SIGTERM);
    }
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t how, const sigset_t& s, sigset_t& o)
        const noexcept
    {
        return ::pthread_sigmask(how, &s, &o);
    }
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t how, const sigset_t& s) const noexcept
    {
        return ::pthread_sigmask(how, &s, nullptr);
    }
};
class SignalImpl : public Signal
{
};
}  // namespace score::os
#endif
