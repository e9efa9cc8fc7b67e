#ifndef VERIF_SHIM_FS_PATH_H
#define VERIF_SHIM_FS_PATH_H
#include <ostream>
#include <string>
#include <string_view>
namespace score::filesystem
{
class Path
{
  public:
    Path() = default;
    Path(const char* s) : p_{s} {}
    Path(std::string s) : p_{std::move(s)} {}
    Path(std::string_view s) : p_{s} {}
    const std::string& Native() const& noexcept { return p_; }
    operator std::string() const { return p_; }
    const char* CStr() const noexcept { return p_.c_str(); }
    bool Empty() const noexcept { return p_.empty(); }
    bool IsAbsolute() const noexcept { return !p_.empty() && p_.front() == '/'; }
    Path Filename() const
    {
        const auto n = p_.rfind('/');
        return n == std::string::npos ? *this : Path{p_.substr(n + 1)};
    }
    Path ParentPath() const
    {
        const auto n = p_.rfind('/');
        return n == std::string::npos ? Path{} : (n == 0 ? Path{"/"} : Path{p_.substr(0, n)});
    }
    Path RelativePath() const
    {
        const auto n = p_.find_first_not_of('/');
        return n == std::string::npos ? Path{} : Path{p_.substr(n)};
    }
    Path& operator/=(const Path& o)
    {
        if (o.IsAbsolute())
        {
            p_ = o.p_;
            return *this;
        }
        if (!p_.empty() && p_.back() != '/')
        {
            p_ += '/';
        }
        p_ += o.p_;
        return *this;
    }
    friend Path operator/(const Path& a, const Path& b)
    {
        Path r{a};
        r /= b;
        return r;
    }
    friend bool operator==(const Path& a, const Path& b) noexcept { return a.p_ == b.p_; }
    friend bool operator!=(const Path& a, const Path& b) noexcept { return a.p_ != b.p_; }
    friend bool operator<(const Path& a, const Path& b) noexcept { return a.p_ < b.p_; }
    template <class O>
    friend O& operator<<(O& o, const Path& p)
    {
        o << p.p_;
        return o;
    }

  private:
    std::string p_;
};
}  // namespace score::filesystem
#endif
