#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <mutex>
#include <string>
#include "score/assert.hpp"
#include "score/mw/log/logging.h"
#include "score/os/fcntl.h"
#include "score/os/mman.h"
#include "score/os/socket.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include "verif_seam.h"
namespace score::cpp
{
namespace
{
std::atomic<assertion_handler> g_handler{nullptr};
}
void set_assertion_handler(assertion_handler h) noexcept { g_handler.store(h); }
void detail::contract_violation(const char* file, int line, const char* fn, const char* cond, const char* msg)
{
    if (auto h = g_handler.load())
    {
        h(handler_parameters{file, line, fn, cond, msg});
    }
    if (auto h = verif::g_contract_hook.load())
    {
        h(file, line, cond, msg);
    }
    std::fprintf(stderr, "VERIF-CONTRACT %s:%d %s: %s %s\n", file, line, fn, cond, msg);
    std::fflush(stderr);
    std::abort();
}
}  // namespace score::cpp
namespace score::mw::log
{
void LogStream::verif_sink()
{
    static const char* const on = std::getenv("VERIF_LOG");
    if (s_ && l_ == LogLevel::kFatal)
    {
        std::snprintf(verif::g_last_fatal, sizeof verif::g_last_fatal, "%s", s_->str().c_str());
    }
    if (s_ && on != nullptr)
    {
        static std::mutex m;
        std::lock_guard<std::mutex> g{m};
        std::fprintf(stderr, "LOG%d %d %s\n", static_cast<int>(l_), static_cast<int>(::getpid()), s_->str().c_str());
    }
}
}  // namespace score::mw::log
namespace verif
{
namespace
{
std::string& root_ref()
{
    static std::string r;
    return r;
}
}  // namespace
void set_root(const std::string& r) { root_ref() = r; }
const std::string& root() { return root_ref(); }
std::string map_path(const char* p)
{
    const std::string s{p};
    if (s.empty() || s[0] != '/')
    {
        return s;
    }
    const auto& r = root_ref();
    if (r.empty())
    {
        std::fprintf(stderr, "VERIF-HARNESS absolute path %s used without a scratch root\n", p);
        std::abort();
    }
    if (s.compare(0, r.size(), r) == 0)
    {
        return s;
    }
    return r + s;
}
std::string map_shm(const char* p)
{
    std::string s{p};
    if (!s.empty() && s[0] == '/')
    {
        s.erase(0, 1);
    }
    if (s.empty() || s.find('/') != std::string::npos)
    {
        // as shm_open: EINVAL; a path that cannot exist
        return root_ref() + "/nonexistent-shm/x";
    }
    const auto& r = root_ref();
    if (r.empty())
    {
        std::fprintf(stderr, "VERIF-HARNESS shm %s used without a scratch root\n", p);
        std::abort();
    }
    return r + "/dev/shm/" + s;
}
std::string unmap_path(const std::string& p)
{
    const auto& r = root_ref();
    return (!r.empty() && p.compare(0, r.size(), r) == 0) ? p.substr(r.size()) : p;
}
}  // namespace verif
namespace score::os
{
#define VERIF_INSTANCE(T)              \
    T& T::instance() noexcept          \
    {                                  \
        static T* t = new T();         \
        return select_instance(*t);    \
    }
VERIF_INSTANCE(Unistd)
VERIF_INSTANCE(Fcntl)
VERIF_INSTANCE(Stat)
VERIF_INSTANCE(Mman)
VERIF_INSTANCE(Socket)
std::unique_ptr<Unistd> Unistd::Default() noexcept { return std::make_unique<Unistd>(); }
}  // namespace score::os
