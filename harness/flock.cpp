// C11: file based locking.
//  mutex    processes and threads, each with an open file description of its own, lock the same file exclusively and shared;
//           a board checks exclusion, try_lock against what the others hold, and the release by crash, by destructor.
//  signal   signals hit the waiting processes
//  file     random operations on LockFile objects against a reference model of files and owners; faults in OS calls
//  generic  FlockMutexAndLock over a monitored mutex
#include "vh.h"
#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/lock_file.h"

#include <dirent.h>
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <thread>
#include <vector>
namespace sm = score::memory::shared;
namespace
{
bool there(const std::string& p)
{
    struct stat s{};
    return ::stat(verif::map_path(p.c_str()).c_str(), &s) == 0;
}
std::size_t fds()
{
    std::size_t n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (::readdir(d) != nullptr)
    {
        ++n;
    }
    ::closedir(d);
    return n;
}
std::string new_path()
{
    static unsigned n = 0;
    return vh::str("/tmp/lk-", ::getpid(), "-", n++);
}
struct Board
{
    std::atomic<int> writers{0}, readers{0};
    std::atomic<std::uint64_t> order{0};
    std::atomic<unsigned> ready{0}, go{0}, locked{0}, refused{0}, granted{0}, signals{0}, together{0};
    long plain{0};  // protected by the lock only
};
Board* g_b;
void enter(bool exclusive)
{
    if (exclusive)
    {
        VH_CHECK(g_b->writers.fetch_add(1) == 0, "exclusion", "two exclusive owners");
        VH_CHECK(g_b->readers == 0, "exclusion", "exclusive owner beside a shared one");
        g_b->plain = g_b->plain + 1;
    }
    else
    {
        if (g_b->readers.fetch_add(1) > 0)
        {
            g_b->together++;
        }
        VH_CHECK(g_b->writers == 0, "exclusion", "shared owner beside an exclusive one");
    }
    g_b->locked++;
}
void leave(bool exclusive)
{
    if (exclusive)
    {
        VH_CHECK(g_b->writers.fetch_sub(1) == 1 && g_b->readers == 0, "exclusion", "somebody came in");
    }
    else
    {
        VH_CHECK(g_b->readers.fetch_sub(1) >= 1 && g_b->writers == 0, "exclusion", "an exclusive owner came in");
    }
}
void worker(vh::Rng& r, const std::string& path, unsigned who, int rounds, bool crash)
{
    for (int i = 0; i < rounds; ++i)
    {
        auto f = r.chance(50) ? sm::LockFile::Open(path) : sm::LockFile::CreateOrOpen(path, false);
        VH_CHECK(f.has_value(), "file:open", "cannot open an existing lock file");
        std::optional<sm::LockFile> moved;
        if (r.chance(30))
        {
            moved.emplace(std::move(*f));
        }
        sm::LockFile& file = moved.has_value() ? *moved : *f;
        const bool ex = r.chance(50);
        const auto body = [&] {
            enter(ex);
            vh::jitter(r, 60);
            g_b->order = vh::comb(g_b->order, who * 2 + ex);
            if (crash && i + 1 == rounds)
            {
                // whoever dies inside gives the lock back; the board is told just before
                leave(ex);
                ::_exit(0);
            }
            leave(ex);
        };
        const auto with = [&](auto&& m, auto tag) {
            using M = typename decltype(tag)::type;
            switch (r.below(4))
            {
                case 0:
                    m.lock();
                    body();
                    m.unlock();
                    break;
                case 1:
                    if (m.try_lock())
                    {
                        g_b->granted++;
                        body();
                        m.unlock();
                    }
                    else
                    {
                        g_b->refused++;
                    }
                    break;
                case 2:
                {
                    std::lock_guard<M> g{m};
                    body();
                    break;
                }
                default:
                {
                    sm::FlockMutexAndLock<M> l{file};
                    if (l.TryLock())
                    {
                        g_b->granted++;
                        body();
                    }
                    else
                    {
                        g_b->refused++;
                    }
                    break;
                }
            }
        };
        if (ex)
        {
            struct T
            {
                using type = sm::ExclusiveFlockMutex;
            };
            with(sm::ExclusiveFlockMutex{file}, T{});
        }
        else
        {
            struct T
            {
                using type = sm::SharedFlockMutex;
            };
            with(sm::SharedFlockMutex{file}, T{});
        }
        vh::jitter(r, 20);
    }
}
void mutex_run(vh::Rng& r, bool signals)
{
    static Board* b = vh::shared<Board>();
    new (b) Board{};
    g_b = b;
    const std::string path = new_path();
    auto owner = sm::LockFile::CreateOrOpen(path, true);
    VH_NEED(owner.has_value());
    const unsigned n = 2 + static_cast<unsigned>(r.below(4));
    const auto seed = r.next();
    std::vector<pid_t> kids;
    for (unsigned i = 0; i < n; ++i)
    {
        const bool crash = r.chance(40);
        const pid_t k = ::fork();
        VH_NEED(k >= 0);
        if (k == 0)
        {
            ::alarm(60);
            struct sigaction a{};
            a.sa_handler = [](int) { g_b->signals++; };
            ::sigaction(SIGUSR1, &a, nullptr);
            b->ready++;
            while (b->go == 0U)
            {
            }
            vh::Rng q{vh::comb(seed, i)};
            worker(q, path, i, 30, crash);
            ::_exit(0);
        }
        kids.push_back(k);
    }
    while (b->ready < n)
    {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    b->go = 1;
    std::atomic<bool> stop{false};
    if (!signals)
    {
        std::vector<std::thread> t;
        for (unsigned i = 0; i < 2; ++i)
        {
            t.emplace_back([&, i] {
                vh::Rng q{vh::comb(seed, 100 + i)};
                worker(q, path, 100 + i, 20, false);
            });
        }
        for (auto& x : t)
        {
            x.join();
        }
    }
    std::vector<bool> gone(n);
    unsigned left = n;
    while (left > 0)
    {
        for (unsigned i = 0; i < n; ++i)
        {
            if (gone[i])
            {
                continue;
            }
            int s = 0;
            if (::waitpid(kids[i], &s, WNOHANG) == kids[i])
            {
                gone[i] = true;
                --left;
                if (!WIFEXITED(s) || WEXITSTATUS(s) != 0)
                {
                    if (WIFEXITED(s) && (WEXITSTATUS(s) == 66 || WEXITSTATUS(s) == 67 || WEXITSTATUS(s) == 99))
                    {
                        ::_exit(WEXITSTATUS(s));
                    }
                    if (WIFSIGNALED(s) && WTERMSIG(s) == SIGALRM)
                    {
                        vh::violation("mutex:stuck", "somebody waits for a lock nobody holds");
                    }
                    vh::violation("mutex:abort", "a process was terminated");
                }
            }
            else if (signals)
            {
                ::kill(kids[i], SIGUSR1);
            }
        }
        std::this_thread::sleep_for(std::chrono::microseconds(signals ? 200 : 1000));
    }
    VH_CHECK(b->writers == 0 && b->readers == 0, "exclusion", "left over owners");
    owner.reset();
    VH_CHECK(!there(path), "file:unlink", "owner gone, file still there");
    vh::count("mutex_runs");
    vh::count("locked", b->locked);
    vh::count("try_refused", b->refused);
    vh::count("try_granted", b->granted);
    vh::count("shared_together", b->together);
    vh::count("signals", b->signals);
    vh::eval(b->locked * 2U);
    vh::distinct(b->order);
}
// single threaded: try_lock exactly follows what the others hold, and every release opens the lock
void exact(vh::Rng& r)
{
    const std::string path = new_path();
    auto owner = sm::LockFile::Create(path);
    VH_NEED(owner.has_value());
    struct H
    {
        std::unique_ptr<sm::LockFile> file;
        std::unique_ptr<sm::ExclusiveFlockMutex> ex;
        std::unique_ptr<sm::SharedFlockMutex> sh;
        std::unique_ptr<sm::FlockMutexAndLock<sm::ExclusiveFlockMutex>> exl;
        std::unique_ptr<sm::FlockMutexAndLock<sm::SharedFlockMutex>> shl;
        int held{0};  // 1 shared, 2 exclusive
        void drop()
        {
            ex.reset();
            sh.reset();
            exl.reset();
            shl.reset();
        }
    };
    std::vector<H> h(4);
    for (auto& x : h)
    {
        x.file = std::make_unique<sm::LockFile>(std::move(*sm::LockFile::Open(path)));
    }
    std::uint64_t tr = 0;
    for (int i = 0; i < 200; ++i)
    {
        const auto k = r.below(h.size());
        H& x = h[k];
        tr = vh::comb(tr, k);
        if (x.held != 0)
        {
            switch (r.below(3))
            {
                case 0:
                    if (x.ex)
                    {
                        x.ex->unlock();
                    }
                    else if (x.sh)
                    {
                        x.sh->unlock();
                    }
                    x.drop();
                    break;
                case 1:
                    if (x.ex || x.sh)
                    {
                        // the file description goes away
                        x.drop();
                        x.file = std::make_unique<sm::LockFile>(std::move(*sm::LockFile::Open(path)));
                    }
                    x.drop();
                    break;
                default:
                    if (x.ex || x.sh)
                    {
                        x.ex ? x.ex->unlock() : x.sh->unlock();
                    }
                    x.drop();
                    break;
            }
            x.held = 0;
            continue;
        }
        int strongest = 0;
        for (auto& y : h)
        {
            strongest = std::max(strongest, y.held);
        }
        const auto way = r.below(4);
        bool got = false;
        const bool want_ex = way % 2 == 0;
        if (way == 0)
        {
            x.ex = std::make_unique<sm::ExclusiveFlockMutex>(*x.file);
            got = x.ex->try_lock();
        }
        else if (way == 1)
        {
            x.sh = std::make_unique<sm::SharedFlockMutex>(*x.file);
            got = x.sh->try_lock();
        }
        else if (way == 2)
        {
            x.exl = std::make_unique<sm::FlockMutexAndLock<sm::ExclusiveFlockMutex>>(*x.file);
            got = x.exl->TryLock();
        }
        else
        {
            x.shl = std::make_unique<sm::FlockMutexAndLock<sm::SharedFlockMutex>>(*x.file);
            got = x.shl->TryLock();
        }
        const bool expect = want_ex ? strongest == 0 : strongest < 2;
        VH_CHECK(got == expect, got ? "try:granted" : "try:refused", want_ex ? "exclusive" : "shared", " wanted, others hold ", strongest, ", step ", i);
        vh::count(got ? "try_granted" : "try_refused");
        if (got)
        {
            x.held = want_ex ? 2 : 1;
        }
        else
        {
            x.drop();
        }
        vh::eval();
    }
    vh::distinct(tr);
    vh::count("exact_runs");
}
int g_at = -1, g_n = 0, g_err = 0;
std::string g_failed;
int fail_hook(const char* op, const char*, int)
{
    if (g_n++ == g_at)
    {
        g_failed = op;
        return g_err;
    }
    return 0;
}
void file_model(vh::Rng& r)
{
    std::vector<std::string> paths{new_path(), new_path()};
    struct L
    {
        std::optional<sm::LockFile> f;
        std::size_t path{0};
        bool owns{false};
        bool live{false};
    };
    std::vector<L> l(6);
    std::vector<bool> exist(2, false);
    const auto before = fds();
    std::uint64_t tr = 0;
    const auto dead = [&](L& x) {
        if (x.live && x.owns)
        {
            exist[x.path] = false;
        }
        x.live = false;
    };
    for (int i = 0; i < 150; ++i)
    {
        const auto a = r.below(l.size());
        auto b = r.below(l.size());
        L& x = l[a];
        const auto k = r.below(2);
        const auto op = r.below(7);
        tr = vh::comb(tr, op * 64 + a * 8 + b);
        const bool faulty = r.chance(15);
        g_n = 0;
        g_at = faulty ? static_cast<int>(r.below(2)) : -1;
        const int errs[] = {EACCES, EMFILE, ENOSPC, EPERM, EINTR};
        g_err = errs[r.below(5)];
        g_failed.clear();
        verif::g_os_hook = fail_hook;
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                const bool own = r.chance(50);
                std::optional<sm::LockFile> n = op == 0 ? sm::LockFile::Create(paths[k]) : op == 1 ? sm::LockFile::CreateOrOpen(paths[k], own) : sm::LockFile::Open(paths[k]);
                verif::g_os_hook = nullptr;
                const bool expect = op == 0 ? !exist[k] : op == 1 ? true : static_cast<bool>(exist[k]);
                if (g_failed.empty() || (g_failed != "open" && n.has_value()))
                {
                    VH_CHECK(n.has_value() == expect, "file:result", "op ", op, " exists ", exist[k], " got ", n.has_value(), " step ", i);
                }
                else
                {
                    VH_CHECK(!n.has_value() || g_failed != "open", "file:result", "success in spite of a failing open");
                    // whatever it was that failed: nothing of it may stay, apart from a file somebody else may use
                    if (op == 0 && !exist[k])
                    {
                        VH_CHECK(!there(paths[k]), "file:residue", "failed Create left a file, failing ", g_failed);
                    }
                    if (op == 1 && !n.has_value())
                    {
                        exist[k] = there(paths[k]);
                    }
                    vh::count("file_faults");
                }
                if (n.has_value())
                {
                    exist[k] = true;
                    struct stat s{};
                    VH_NEED(::stat(verif::map_path(paths[k].c_str()).c_str(), &s) == 0);
                    VH_CHECK((s.st_mode & 0777U) == 0444U, "file:mode", "mode ", std::oct, s.st_mode & 0777U);
                    // the old value goes first: its owner unlinks its file
                    const bool same = x.live && x.path == k && x.owns;
                    x.f.reset();
                    dead(x);
                    (void)same;
                    x.f.emplace(std::move(*n));
                    x.path = k;
                    x.owns = op == 0 || (op == 1 && own);
                    x.live = true;
                }
                break;
            }
            case 3:
                verif::g_os_hook = nullptr;
                x.f.reset();
                dead(x);
                break;
            case 4:
            case 5:
            {
                verif::g_os_hook = nullptr;
                L& y = l[b];
                if (y.f.has_value())
                {
                    if (x.f.has_value())
                    {
                        // assignment ends what the target had, also onto itself nothing changes
                        auto& src = *y.f;
                        *x.f = std::move(src);
                        if (a != b)
                        {
                            dead(x);
                            x.path = y.path;
                            x.owns = y.owns;
                            x.live = y.live;
                            y.live = false;
                        }
                    }
                    else
                    {
                        x.f.emplace(std::move(*y.f));
                        x.path = y.path;
                        x.owns = y.owns;
                        x.live = y.live;
                        y.live = false;
                        if (r.chance(50))
                        {
                            y.f.reset();
                        }
                    }
                }
                break;
            }
            default:
                verif::g_os_hook = nullptr;
                if (r.chance(20))
                {
                    ::unlink(verif::map_path(paths[k].c_str()).c_str());
                    exist[k] = false;
                }
                break;
        }
        std::size_t alive = 0;
        for (auto& z : l)
        {
            alive += z.live;
        }
        VH_CHECK(fds() == before + alive, "file:fd", fds() - before, " descriptors for ", alive, " files, step ", i, " op ", op, " fault ", g_failed);
        for (std::size_t p = 0; p < 2; ++p)
        {
            VH_CHECK(there(paths[p]) == exist[p], "file:exists", "file ", there(paths[p]), " model ", exist[p], " step ", i, " op ", op);
        }
        vh::eval(3);
    }
    l.clear();
    for (auto& p : paths)
    {
        ::unlink(verif::map_path(p.c_str()).c_str());
    }
    VH_CHECK(fds() == before, "file:fd", "descriptors left");
    vh::count("file_runs");
    vh::distinct(tr);
}
struct Watched
{
    static inline bool next{true};
    static inline int locks{0}, tries{0}, unlocks{0};
    explicit Watched(const sm::LockFile&) noexcept {}
    void lock() { ++locks; }
    bool try_lock()
    {
        ++tries;
        return next;
    }
    void unlock() { ++unlocks; }
};
void generic(vh::Rng& r)
{
    const std::string path = new_path();
    auto f = sm::LockFile::CreateOrOpen(path, true);
    VH_NEED(f.has_value());
    for (int i = 0; i < 40; ++i)
    {
        Watched::locks = Watched::tries = Watched::unlocks = 0;
        bool held = false;
        {
            sm::FlockMutexAndLock<Watched> l{*f};
            VH_CHECK(Watched::locks == 0 && Watched::tries == 0, "guard:eager", "locked by construction");
            const auto n = r.below(4);
            for (std::uint64_t k = 0; k < n && !held; ++k)
            {
                Watched::next = r.chance(50);
                const bool got = l.TryLock();
                VH_CHECK(got == Watched::next, "guard:result", "TryLock says ", got);
                VH_CHECK(Watched::locks == 0, "guard:blocks", "TryLock blocks");
                held = got;
            }
            VH_CHECK(Watched::unlocks == 0, "guard:early", "unlocked too early");
        }
        VH_CHECK(Watched::unlocks == (held ? 1 : 0), "guard:unlock", Watched::unlocks, " unlocks, held ", held);
        vh::eval(4);
    }
    static_assert(!std::is_copy_constructible<sm::FlockMutexAndLock<Watched>>::value, "");
    static_assert(!std::is_copy_constructible<sm::LockFile>::value, "");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::scratch();
    vh::Rng r{vh::seed()};
    const auto only = vh::sarg("mode", "");
    const auto want = [&](const char* m) { return only.empty() || only == m; };
    const auto scale = vh::arg("scale", 1);
    for (std::uint64_t i = 0; i < 8 * scale && want("mutex"); ++i)
    {
        mutex_run(r, i % 2 == 1);
    }
    for (std::uint64_t i = 0; i < 20 * scale && want("exact"); ++i)
    {
        exact(r);
    }
    for (std::uint64_t i = 0; i < 20 * scale && want("file"); ++i)
    {
        file_model(r);
        generic(r);
    }
    vh::finish();
}
