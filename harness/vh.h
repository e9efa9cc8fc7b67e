// Common part of all monitored workloads: seeded random numbers, counters, the distinct-state set, verdicts, scratch
// directory, watchdog, and helpers to run a piece of the workload in a child process.
#ifndef VH_H
#define VH_H
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef VH_NO_SHIM
#include "verif_seam.h"
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
namespace vh
{
inline std::uint64_t mix(std::uint64_t x) noexcept
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27U)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31U);
}
inline std::uint64_t comb(std::uint64_t a, std::uint64_t b) noexcept { return mix(a * 0x100000001B3ULL ^ b); }
inline std::uint64_t hash_str(const std::string& s) noexcept
{
    std::uint64_t h = 1469598103934665603ULL;
    for (const char c : s)
    {
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    }
    return mix(h);
}
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) noexcept : s{mix(seed)} {}
    std::uint64_t next() noexcept
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t x = s;
        x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9ULL;
        x = (x ^ (x >> 27U)) * 0x94D049BB133111EBULL;
        return x ^ (x >> 31U);
    }
    // uniform in [0, n)
    std::uint64_t below(std::uint64_t n) noexcept { return n == 0 ? 0 : next() % n; }
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) noexcept { return lo + below(hi - lo + 1); }
    bool chance(unsigned percent) noexcept { return below(100) < percent; }
    template <class C>
    auto& pick(C& c) noexcept
    {
        return c[below(c.size())];
    }
};
struct State
{
    std::mutex m;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::atomic<std::uint64_t> evals{0};
    std::map<std::string, std::string> args;
    std::string scratch;
    std::atomic<bool> failed{false};
};
inline State& st()
{
    static State* s = new State;
    return *s;
}
inline std::uint64_t arg(const char* n, std::uint64_t d)
{
    auto i = st().args.find(n);
    return i == st().args.end() ? d : std::strtoull(i->second.c_str(), nullptr, 0);
}
inline std::string sarg(const char* n, const char* d)
{
    auto i = st().args.find(n);
    return i == st().args.end() ? d : i->second;
}
inline std::uint64_t seed() { return arg("seed", 1); }
inline void count(const std::string& n, std::uint64_t k = 1)
{
    std::lock_guard<std::mutex> l{st().m};
    st().counters[n] += k;
}
inline std::uint64_t counted(const std::string& n)
{
    std::lock_guard<std::mutex> l{st().m};
    return st().counters[n];
}
inline void eval(std::uint64_t k = 1) { st().evals.fetch_add(k, std::memory_order_relaxed); }
inline void distinct(std::uint64_t h)
{
    std::lock_guard<std::mutex> l{st().m};
    if (st().distinct.size() < 400000U)
    {
        st().distinct.insert(h);
    }
}
inline void sample(const std::string& s)
{
    std::lock_guard<std::mutex> l{st().m};
    if (st().samples.size() < 4U)
    {
        st().samples.push_back(s);
    }
}
// The verdict of an oracle: what it saw contradicts the property.
[[noreturn]] inline void violation(const std::string& key, const std::string& msg)
{
    if (st().failed.exchange(true))
    {
        for (;;)
        {
            ::usleep(1000000);
        }
    }
    std::string line = "VIOL key=" + key + " msg=" + msg + "\n";
    (void)!::write(2, line.data(), line.size());
    ::_exit(66);
}
// The workload could not decide (environment trouble): never folded into either verdict.
[[noreturn]] inline void inconclusive(const std::string& msg)
{
    std::string line = "INCONCLUSIVE " + msg + "\n";
    (void)!::write(2, line.data(), line.size());
    ::_exit(99);
}
template <class... A>
std::string str(const A&... a)
{
    std::ostringstream o;
    (o << ... << a);
    return o.str();
}
#define VH_CHECK(cond, key, ...)                            \
    do                                                      \
    {                                                       \
        if (!(cond))                                        \
        {                                                   \
            ::vh::violation((key), ::vh::str(__VA_ARGS__)); \
        }                                                   \
    } while (false)
#define VH_NEED(cond, ...)                                               \
    do                                                                   \
    {                                                                    \
        if (!(cond))                                                     \
        {                                                                \
            ::vh::inconclusive(::vh::str(#cond, " ", ##__VA_ARGS__));    \
        }                                                                \
    } while (false)
inline std::string esc(const std::string& s)
{
    std::string o;
    for (const char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (static_cast<unsigned char>(c) < 0x20U || static_cast<unsigned char>(c) > 0x7EU)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c));
            o += b;
        }
        else
        {
            o += c;
        }
    }
    return o;
}
inline void write_out()
{
    const char* p = ::getenv("VERIF_OUT");
    if (p == nullptr)
    {
        std::lock_guard<std::mutex> l{st().m};
        std::fprintf(stderr, "evals=%llu distinct=%zu", static_cast<unsigned long long>(st().evals.load()), st().distinct.size());
        for (auto& c : st().counters)
        {
            std::fprintf(stderr, " %s=%llu", c.first.c_str(), static_cast<unsigned long long>(c.second));
        }
        std::fprintf(stderr, "\n");
        return;
    }
    FILE* f = std::fopen(p, "w");
    if (f == nullptr)
    {
        return;
    }
    std::lock_guard<std::mutex> l{st().m};
    std::fprintf(f, "{\"evals\": %llu, \"counters\": {", static_cast<unsigned long long>(st().evals.load()));
    bool first = true;
    for (auto& c : st().counters)
    {
        std::fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(c.first).c_str(), static_cast<unsigned long long>(c.second));
        first = false;
    }
    std::fprintf(f, "}, \"samples\": [");
    first = true;
    for (auto& s : st().samples)
    {
        std::fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(s).c_str());
        first = false;
    }
    std::fprintf(f, "], \"distinct\": [");
    first = true;
    for (auto h : st().distinct)
    {
        std::fprintf(f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(h));
        first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
}
[[noreturn]] inline void finish()
{
    write_out();
    if (!st().scratch.empty())
    {
        const std::string cmd = "rm -rf -- '" + st().scratch + "'";
        (void)!::system(cmd.c_str());
    }
    std::fflush(nullptr);
    ::_exit(0);
}
// A private scratch directory below the one the runner made; everything the code under test touches lives there.
inline const std::string& scratch()
{
    if (st().scratch.empty())
    {
        const char* base = ::getenv("VERIF_SCRATCH");
        std::string t = std::string{base != nullptr ? base : "/tmp"} + "/vh_XXXXXX";
        std::vector<char> b{t.begin(), t.end()};
        b.push_back('\0');
        if (::mkdtemp(b.data()) == nullptr)
        {
            inconclusive("mkdtemp");
        }
        st().scratch = b.data();
#ifndef VH_NO_SHIM
        verif::set_root(st().scratch);
        for (const char* d : {"/dev", "/dev/shm", "/tmp", "/var", "/var/lock", "/etc"})
        {
            (void)!::mkdir((st().scratch + d).c_str(), 0777);
            (void)!::chmod((st().scratch + d).c_str(), 0777);
        }
        (void)!::chmod(st().scratch.c_str(), 0777);
#endif
    }
    return st().scratch;
}
inline void init(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k{argv[i]};
        st().args[k.substr(k.rfind('-') + 1)] = argv[i + 1];
    }
    ::signal(SIGPIPE, SIG_IGN);
    const auto limit = arg("watchdog", 120);
    std::thread{[limit] {
        // progress-free for this long: the runner treats it as inconclusive and repeats
        std::this_thread::sleep_for(std::chrono::seconds(limit));
        inconclusive("watchdog");
    }}.detach();
}
// Shared between this process and forked children.
template <class T>
T* shared()
{
    void* p = ::mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        inconclusive("mmap");
    }
    return new (p) T{};
}
struct ChildResult
{
    bool exited{false};
    int code{0};
    int sig{0};
    std::string err;
};
// Runs f in a forked child; stderr of the child is captured. The parent must be single-threaded apart from the watchdog.
inline ChildResult run_child(const std::function<void()>& f, unsigned seconds = 60)
{
    int p[2];
    if (::pipe(p) != 0)
    {
        inconclusive("pipe");
    }
    const pid_t pid = ::fork();
    if (pid < 0)
    {
        inconclusive("fork");
    }
    if (pid == 0)
    {
        ::dup2(p[1], 2);
        ::close(p[0]);
        ::close(p[1]);
        ::alarm(seconds);
        f();
        ::_exit(0);
    }
    ::close(p[1]);
    ChildResult r;
    char b[4096];
    ssize_t n = 0;
    while ((n = ::read(p[0], b, sizeof b)) > 0)
    {
        r.err.append(b, static_cast<std::size_t>(n));
    }
    ::close(p[0]);
    int s = 0;
    ::waitpid(pid, &s, 0);
    r.exited = WIFEXITED(s);
    r.code = WIFEXITED(s) ? WEXITSTATUS(s) : -1;
    r.sig = WIFSIGNALED(s) ? WTERMSIG(s) : 0;
    return r;
}
inline bool has_sanitizer_report(const std::string& e)
{
    return e.find("Sanitizer") != std::string::npos || e.find("runtime error:") != std::string::npos;
}
// Pass on a verdict made inside a child.
inline void relay(const ChildResult& r)
{
    if (r.exited && r.code == 66)
    {
        const auto k = r.err.find("VIOL key=");
        (void)!::write(2, r.err.data(), r.err.size());
        if (k != std::string::npos)
        {
            ::_exit(66);
        }
    }
    if (r.exited && r.code == 99)
    {
        inconclusive("child: " + r.err);
    }
    if (r.sig == SIGALRM)
    {
        inconclusive("child timed out");
    }
    if (!r.exited || r.code != 0)
    {
        (void)!::write(2, r.err.data(), r.err.size());
        if (has_sanitizer_report(r.err))
        {
            ::_exit(67);
        }
        violation("abort", str("child ended with code ", r.code, " signal ", r.sig));
    }
}
inline std::uint64_t now_ns()
{
    return static_cast<std::uint64_t>(
        std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count());
}
// random scheduling noise
inline void jitter(Rng& r, unsigned percent = 30)
{
    if (r.chance(percent))
    {
        switch (r.below(3))
        {
            case 0: std::this_thread::yield(); break;
            case 1:
                for (volatile int i = 0; i < static_cast<int>(r.below(400)); i = i + 1)
                {
                }
                break;
            default: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
        }
    }
}
}  // namespace vh
#endif
