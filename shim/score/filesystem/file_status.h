#ifndef VERIF_SHIM_FS_STATUS_H
#define VERIF_SHIM_FS_STATUS_H
#include "score/os/stat.h"
namespace score::filesystem
{
using Perms = score::os::Stat::Mode;
enum class PermOptions : std::uint8_t { kReplace, kAdd, kRemove };
enum class FileType : std::uint8_t
{
    kNone, kNotFound, kRegular, kDirectory, kSymlink, kBlock, kCharacter, kFifo, kSocket, kUnknown
};
class FileStatus
{
  public:
    FileStatus() = default;
    explicit FileStatus(FileType t, Perms p = Perms::kNone) noexcept : t_{t}, p_{p} {}
    FileType Type() const noexcept { return t_; }
    Perms Permissions() const noexcept { return p_; }
    void Type(FileType t) noexcept { t_ = t; }
    void Permissions(Perms p) noexcept { p_ = p; }

  private:
    FileType t_{FileType::kNone};
    Perms p_{Perms::kNone};
};
}  // namespace score::filesystem
#endif
