#ifndef VERIF_SHIM_FS_STRUCT_H
#define VERIF_SHIM_FS_STRUCT_H
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <fstream>
#include <iostream>
#include <memory>
#include <vector>
#include "score/filesystem/i_standard_filesystem.h"
#include "verif_seam.h"
namespace score::filesystem
{
namespace shim
{
inline Result<FileStatus> status(const Path& p)
{
    struct ::stat s{};
    if (verif::os_pre("fs_status", p.CStr()) != 0 || ::stat(verif::map_path(p.CStr()).c_str(), &s) != 0)
    {
        return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus);
    }
    const auto t = S_ISREG(s.st_mode)   ? FileType::kRegular
                   : S_ISDIR(s.st_mode) ? FileType::kDirectory
                   : S_ISFIFO(s.st_mode) ? FileType::kFifo
                                         : FileType::kUnknown;
    return FileStatus{t, static_cast<Perms>(s.st_mode & 07777U)};
}
}  // namespace shim
class StandardFilesystem final : public IStandardFilesystem
{
  public:
    Result<bool> Exists(const Path& p) const noexcept override
    {
        if (verif::os_pre("fs_exists", p.CStr()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus);
        }
        struct ::stat s{};
        return ::stat(verif::map_path(p.CStr()).c_str(), &s) == 0;
    }
    Result<FileStatus> Status(const Path& p) const noexcept override { return shim::status(p); }
    ResultBlank Permissions(const Path& p, Perms m, PermOptions) const noexcept override
    {
        if (verif::os_pre("fs_chmod", p.CStr()) != 0 ||
            ::chmod(verif::map_path(p.CStr()).c_str(), static_cast<mode_t>(m)) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotSetPermissions);
        }
        return Result<void>{};
    }
    ResultBlank CreateDirectory(const Path& p) const noexcept override
    {
        if (verif::os_pre("fs_mkdir", p.CStr()) != 0 || ::mkdir(verif::map_path(p.CStr()).c_str(), 0777) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
        }
        return Result<void>{};
    }
    ResultBlank CreateDirectories(const Path& p) const noexcept override
    {
        const auto s = p.Native();
        for (std::size_t i = 1; i <= s.size(); ++i)
        {
            if (i == s.size() || s[i] == '/')
            {
                const auto part = s.substr(0, i);
                if (::mkdir(verif::map_path(part.c_str()).c_str(), 0777) != 0 && errno != EEXIST)
                {
                    return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
                }
            }
        }
        return Result<void>{};
    }
    ResultBlank Remove(const Path& p) const noexcept override
    {
        if (verif::os_pre("fs_remove", p.CStr()) != 0 || ::remove(verif::map_path(p.CStr()).c_str()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotRemoveFileOrDirectory);
        }
        return Result<void>{};
    }
};
class IFilesystemUtils
{
  public:
    virtual ~IFilesystemUtils() = default;
    virtual ResultBlank CreateDirectories(const Path& p, Perms m) const noexcept
    {
        if (verif::os_pre("fs_mkdirs", p.CStr()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
        }
        const auto s = p.Native();
        for (std::size_t i = 1; i <= s.size(); ++i)
        {
            if (i == s.size() || s[i] == '/')
            {
                const auto part = verif::map_path(s.substr(0, i).c_str());
                if (::mkdir(part.c_str(), 0777) == 0)
                {
                    if (::chmod(part.c_str(), static_cast<mode_t>(m)) != 0)
                    {
                        return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
                    }
                }
                else if (errno != EEXIST)
                {
                    return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
                }
            }
        }
        return Result<void>{};
    }
};
class IFileFactory
{
  public:
    virtual ~IFileFactory() = default;
    virtual Result<std::unique_ptr<std::iostream>> Open(const Path& p, std::ios_base::openmode m) const noexcept
    {
        if (verif::os_pre("fs_open", p.CStr()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream);
        }
        auto f = std::make_unique<std::fstream>(verif::map_path(p.CStr()), m);
        if (!f->is_open())
        {
            return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream);
        }
        return std::unique_ptr<std::iostream>{std::move(f)};
    }
};
class DirectoryEntry
{
  public:
    explicit DirectoryEntry(Path p) : p_{std::move(p)} {}
    const Path& GetPath() const noexcept { return p_; }
    Result<FileStatus> Status() const noexcept { return shim::status(p_); }

  private:
    Path p_;
};
class DirectoryIterator
{
  public:
    using iterator = std::vector<DirectoryEntry>::const_iterator;
    explicit DirectoryIterator(const Path& p) : v_{std::make_shared<std::vector<DirectoryEntry>>()}
    {
        if (verif::os_pre("fs_readdir", p.CStr()) != 0)
        {
            return;
        }
        // scandir, because thread sanitizer must not see a closedir() of descriptors that are else closed unseen (verif_seam.h)
        dirent** list = nullptr;
        const int n = ::scandir(verif::map_path(p.CStr()).c_str(), &list, nullptr, nullptr);
        for (int i = 0; i < n; ++i)
        {
            const std::string name{list[i]->d_name};
            if (name != "." && name != "..")
            {
                v_->emplace_back(p / Path{name});
            }
            ::free(list[i]);
        }
        ::free(list);
    }
    iterator begin() const noexcept { return v_->cbegin(); }
    iterator end() const noexcept { return v_->cend(); }

  private:
    std::shared_ptr<std::vector<DirectoryEntry>> v_;
};
inline DirectoryIterator::iterator begin(const DirectoryIterator& d) noexcept { return d.begin(); }
inline DirectoryIterator::iterator end(const DirectoryIterator& d) noexcept { return d.end(); }
struct Filesystem
{
    std::shared_ptr<IStandardFilesystem> standard{};
    std::shared_ptr<IFilesystemUtils> utils{};
    std::shared_ptr<IFileFactory> streams{};
};
class FilesystemFactory
{
  public:
    Filesystem CreateInstance() const noexcept
    {
        return Filesystem{
            std::make_shared<StandardFilesystem>(), std::make_shared<IFilesystemUtils>(), std::make_shared<IFileFactory>()};
    }
};
}  // namespace score::filesystem
#endif
