#ifndef VERIF_SHIM_FS_ISTD_H
#define VERIF_SHIM_FS_ISTD_H
#include "score/filesystem/error.h"
#include "score/filesystem/file_status.h"
#include "score/filesystem/path.h"
#include "score/result/result.h"
namespace score::filesystem
{
class IStandardFilesystem
{
  public:
    virtual ~IStandardFilesystem() = default;
    virtual Result<bool> Exists(const Path&) const noexcept = 0;
    virtual Result<FileStatus> Status(const Path&) const noexcept = 0;
    virtual ResultBlank Permissions(const Path&, Perms, PermOptions) const noexcept = 0;
    virtual ResultBlank CreateDirectory(const Path&) const noexcept = 0;
    virtual ResultBlank CreateDirectories(const Path&) const noexcept = 0;
    virtual ResultBlank Remove(const Path&) const noexcept = 0;
};
}  // namespace score::filesystem
#endif
