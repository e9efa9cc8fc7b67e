#ifndef VERIF_SHIM_OS_ACL_H
#define VERIF_SHIM_OS_ACL_H
#include <sys/types.h>
#include <cstdint>
#include "score/os/errno.h"
namespace score::os
{
class Acl
{
  public:
    using FileDescriptor = std::int32_t;
    using UserIdentifier = uid_t;
    enum class Permission : std::uint32_t
    {
        kRead = 4,
        kWrite = 2,
        kExecute = 1
    };
};
}  // namespace score::os
#endif
