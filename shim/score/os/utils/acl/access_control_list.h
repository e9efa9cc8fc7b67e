#ifndef VERIF_SHIM_ACL_IMPL_H
#define VERIF_SHIM_ACL_IMPL_H
#include <sys/stat.h>
#include <map>
#include <mutex>
#include <set>
#include <utility>
#include "score/os/utils/acl/i_access_control_list.h"
namespace score::os
{
// POSIX ACLs are not available in the sandbox; grants are recorded per (device, inode).
class AccessControlList final : public IAccessControlList
{
  public:
    explicit AccessControlList(Acl::FileDescriptor fd) : fd_{fd} {}
    score::cpp::expected_blank<Error> AllowUser(const UserIdentifier id, const Acl::Permission p) override
    {
        if (const int e = verif::os_pre("acl_allow", nullptr, fd_); e != 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno(e));
        }
        std::lock_guard<std::mutex> g{mutex()};
        table()[key()].insert({static_cast<std::uint32_t>(p), id});
        return score::cpp::blank{};
    }
    score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const override
    {
        return true;
    }
    score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission p) const
        noexcept override
    {
        std::lock_guard<std::mutex> g{mutex()};
        std::vector<UserIdentifier> r;
        for (const auto& e : table()[key()])
        {
            if (e.first == static_cast<std::uint32_t>(p))
            {
                r.push_back(e.second);
            }
        }
        return r;
    }
    using Key = std::pair<std::uint64_t, std::uint64_t>;
    static std::map<Key, std::set<std::pair<std::uint32_t, uid_t>>>& table()
    {
        static std::map<Key, std::set<std::pair<std::uint32_t, uid_t>>> t;
        return t;
    }
    static std::mutex& mutex()
    {
        static std::mutex m;
        return m;
    }

  private:
    Key key() const
    {
        struct ::stat s{};
        ::fstat(fd_, &s);
        return {s.st_dev, s.st_ino};
    }
    Acl::FileDescriptor fd_;
};
}  // namespace score::os
#endif
