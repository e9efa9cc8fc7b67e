// Seams of the stand-in: every OS call and every indirected atomic of the code under test passes through here, so a
// monitor can count it, inject an error, delay it, or crash the process in front of it.
#ifndef VERIF_SEAM_H
#define VERIF_SEAM_H
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <string>
namespace verif
{
// Returns 0 to carry on, otherwise the errno the call shall fail with (without being executed).
using OsHook = int (*)(const char* op, const char* path, int fd);
inline std::atomic<OsHook> g_os_hook{nullptr};
inline int os_pre(const char* op, const char* path = nullptr, int fd = -1)
{
    OsHook h = g_os_hook.load(std::memory_order_acquire);
    return h != nullptr ? h(op, path, fd) : 0;
}
// Called before (0) and after (1) each indirected atomic operation.
using AtomicHook = void (*)(int when, const char* op, const void* addr);
inline std::atomic<AtomicHook> g_atomic_hook{nullptr};
inline void atomic_point(int when, const char* op, const void* addr)
{
    AtomicHook h = g_atomic_hook.load(std::memory_order_relaxed);
    if (h != nullptr)
    {
        h(when, op, addr);
    }
}
// Path containment: every absolute path the code under test uses is moved below this root (set by the harness).
std::string map_path(const char* p);
std::string map_shm(const char* p);
std::string unmap_path(const std::string& p);
void set_root(const std::string& root);
const std::string& root();
// contract violations of the code under test
using ContractHook = void (*)(const char* file, int line, const char* cond, const char* msg);
inline std::atomic<ContractHook> g_contract_hook{nullptr};
// With this on, every socket gets a descriptor number that was not in use recently, and a thread sanitizer does not see
// the close: code that passes a descriptor number to a system call while another thread closes it stays harmless.
inline std::atomic<bool> g_fresh_fds{false};
inline std::atomic<int> g_next_fd{100};
inline int fresh(int fd)
{
    if (fd < 0 || !g_fresh_fds.load())
    {
        return fd;
    }
    for (int i = 0; i < 1000; ++i)
    {
        const int n = g_next_fd.fetch_add(1);
        if (n > 15000)
        {
            g_next_fd.store(100);
        }
        else if (::fcntl(n, F_GETFD) < 0)
        {
            // dup3, because thread sanitizer follows it
            if (::dup3(fd, n, O_CLOEXEC) == n)
            {
                ::close(fd);
                return n;
            }
            return fd;
        }
    }
    return fd;
}
inline int close_fd(int fd)
{
    return g_fresh_fds.load() ? static_cast<int>(::syscall(SYS_close, fd)) : ::close(fd);
}
inline std::atomic<std::uint64_t> g_log_lines{0};
inline std::atomic<std::uint64_t> g_log_fatal{0};
inline thread_local char g_last_fatal[512]{};
}  // namespace verif
#endif
