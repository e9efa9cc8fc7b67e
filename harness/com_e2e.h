// Whole processes of the middleware: roles are this program started again with --role; a shared board carries what the
// monitors need to know about each other.
#ifndef COM_E2E_H
#define COM_E2E_H
#include "com_util.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <vector>
extern char** environ;
namespace e2e
{
inline std::string root() { return vh::sarg("root", ""); }
template <class T>
T* board(const std::string& path, bool create)
{
    const int fd = ::open(path.c_str(), create ? O_RDWR | O_CREAT : O_RDWR, 0666);
    VH_NEED(fd >= 0, path);
    if (create)
    {
        VH_NEED(::ftruncate(fd, static_cast<off_t>(sizeof(T))) == 0);
    }
    void* p = ::mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    VH_NEED(p != MAP_FAILED);
    ::close(fd);
    return create ? new (p) T{} : static_cast<T*>(p);
}
// In a role: everything the middleware touches lives below the directory the parent made.
inline void enter_role()
{
    verif::set_root(root());
    verif::g_fresh_fds.store(true);  // see DESIGN: a message sent while its connection is closed
}
// What a role counted goes to the parent through a file.
[[noreturn]] inline void leave_role()
{
    const std::string p = root() + "/out_" + std::to_string(::getpid());
    {
        std::ofstream f{p + "_"};
        std::lock_guard<std::mutex> l{vh::st().m};
        f << "e " << vh::st().evals.load() << "\n";
        for (auto& c : vh::st().counters)
        {
            f << "c " << c.first << " " << c.second << "\n";
        }
        for (auto h : vh::st().distinct)
        {
            f << "d " << h << "\n";
        }
    }
    ::rename((p + "_").c_str(), p.c_str());
    std::fflush(nullptr);
    ::_exit(0);
}
inline void collect(pid_t pid, const std::string& rt)
{
    const std::string p = rt + "/out_" + std::to_string(pid);
    std::ifstream f{p};
    std::string k;
    while (f >> k)
    {
        std::uint64_t v = 0;
        std::string n;
        if (k == "e" && f >> v)
        {
            vh::eval(v);
        }
        else if (k == "c" && f >> n >> v)
        {
            vh::count(n, v);
        }
        else if (k == "d" && f >> v)
        {
            vh::distinct(v);
        }
    }
    f.close();
    ::unlink(p.c_str());
}
inline pid_t start(const std::string& rt, const std::vector<std::string>& args)
{
    std::vector<std::string> a{"/proc/self/exe", "--root", rt, "--watchdog", "100000"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& s : a)
    {
        v.push_back(s.data());
    }
    v.push_back(nullptr);
    char self[4096];
    const ssize_t n = ::readlink("/proc/self/exe", self, sizeof self - 1U);
    VH_NEED(n > 0);
    self[n] = 0;
    pid_t p = 0;
    VH_NEED(::posix_spawn(&p, self, nullptr, nullptr, v.data(), environ) == 0);
    return p;
}
inline std::vector<std::pair<pid_t, bool>>& children()
{
    static std::vector<std::pair<pid_t, bool>> c;
    return c;
}
// How a role ended. True: by itself and well. False: killed as wanted. Everything else is reported.
inline bool ended(int st, bool killed, const char* what)
{
    if (killed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    {
        return false;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    {
        return true;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    {
        vh::count("ended_itself");
        return false;
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 67 || WEXITSTATUS(st) == 99))
    {
        ::_exit(WEXITSTATUS(st));
    }
    std::fprintf(stderr, "a %s ended with status %d signal %d\n", what, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    ::_exit(70);
}
// Waits for the condition; false after so many seconds.
template <class F>
bool wait_for(F f, unsigned seconds = 40, unsigned step_us = 200)
{
    const std::uint64_t end = vh::now_ns() + seconds * 1000000000ULL;
    while (!f())
    {
        if (vh::now_ns() > end)
        {
            return false;
        }
        ::usleep(step_us);
    }
    return true;
}
}  // namespace e2e
#endif
