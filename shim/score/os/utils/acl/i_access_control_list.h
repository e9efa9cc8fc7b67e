#ifndef VERIF_SHIM_I_ACL_H
#define VERIF_SHIM_I_ACL_H
#include <memory>
#include <vector>
#include "score/os/acl.h"
#include "score/os/errno.h"
namespace score::os
{
class IAccessControlList
{
  public:
    using UserIdentifier = Acl::UserIdentifier;
    virtual ~IAccessControlList() = default;
    virtual score::cpp::expected_blank<Error> AllowUser(const UserIdentifier id, const Acl::Permission p) = 0;
    virtual score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const = 0;
    virtual score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission) const
        noexcept = 0;
};
}  // namespace score::os
#endif
