#ifndef VERIF_SHIM_FS_ERROR_H
#define VERIF_SHIM_FS_ERROR_H
#include "score/result/result.h"
namespace score::filesystem
{
enum class ErrorCode : score::result::ErrorCode
{
    kNotImplemented = 1,
    kFileOrDirectoryDoesNotExist,
    kCouldNotCreateDirectory,
    kCouldNotRemoveFileOrDirectory,
    kCouldNotRetrieveStatus,
    kCouldNotSetPermissions,
    kCouldNotOpenFileStream
};
class FsErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "filesystem error"; }
};
inline constexpr FsErrorDomain fs_error_domain{};
constexpr score::result::Error MakeError(ErrorCode c, std::string_view m = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(c), fs_error_domain, m};
}
}  // namespace score::filesystem
#endif
