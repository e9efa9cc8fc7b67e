// C10: life cycle of named shared memory through SharedMemoryFactory.
//  perm     who may touch a region: mode bits under various umasks, access lists, allowed providers
//  race     processes that create / open / create-or-open the same path at the same time
//  threads  the same inside one process
//  crash    the process dies in front of its k-th OS call, for every k; then the path is cleaned up and reused
//  fault    the k-th OS call fails: the call gives a usable region, refuses without residue, or ends the process
//  model    random sequences over a few paths against a reference model
#include "vh.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/os/utils/acl/access_control_list.h"

#include <algorithm>
#include <array>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <vector>
namespace sm = score::memory::shared;
using F = sm::SharedMemoryFactory;
using Res = std::shared_ptr<sm::ISharedMemoryResource>;
namespace
{
std::string shm_file(const std::string& p) { return verif::map_shm(p.c_str()); }
std::string lock_file(const std::string& p) { return verif::map_path(("/tmp" + p + "_lock").c_str()); }
bool there(const std::string& f)
{
    struct stat s{};
    return ::stat(f.c_str(), &s) == 0;
}
std::set<std::string> fds()
{
    std::set<std::string> r;
    DIR* d = ::opendir("/proc/self/fd");
    const int own = ::dirfd(d);
    while (const dirent* e = ::readdir(d))
    {
        if (std::atoi(e->d_name) != own)
        {
            r.insert(e->d_name);
        }
    }
    ::closedir(d);
    return r;
}
std::string perms_of(const void* a)
{
    std::ifstream m{"/proc/self/maps"};
    std::string l;
    while (std::getline(m, l))
    {
        unsigned long b = 0, e = 0;
        char p[8]{};
        if (std::sscanf(l.c_str(), "%lx-%lx %7s", &b, &e, p) == 3 && reinterpret_cast<unsigned long>(a) >= b &&
            reinterpret_cast<unsigned long>(a) < e)
        {
            return p;
        }
    }
    return "none";
}
constexpr std::size_t kBytes = 4096;
void put(sm::ISharedMemoryResource& r, std::uint64_t gen, vh::Rng* slow = nullptr)
{
    auto* p = static_cast<unsigned char*>(r.allocate(kBytes, 16));
    for (std::size_t i = 0; i < kBytes; ++i)
    {
        p[i] = static_cast<unsigned char>(vh::comb(gen, i));
        if (slow != nullptr && i % 512 == 0)
        {
            vh::jitter(*slow, 60);
        }
    }
}
bool has(const sm::ISharedMemoryResource& r, std::uint64_t gen)
{
    const auto* p = static_cast<const unsigned char*>(r.getUsableBaseAddress());
    for (std::size_t i = 0; i < kBytes; ++i)
    {
        if (p[i] != static_cast<unsigned char>(vh::comb(gen, i)))
        {
            return false;
        }
    }
    return r.GetUserAllocatedBytes() >= kBytes;
}
std::string new_path()
{
    static unsigned n = 0;
    return vh::str("/vh-", ::getpid(), "-", n++);
}

// ---- perm
void perm(vh::Rng& r)
{
    const auto kind = r.below(3);
    const mode_t masks[] = {0, 022, 027, 077, 0177, 002};
    const mode_t mask = masks[r.below(6)];
    std::set<std::pair<std::uint32_t, std::uint32_t>> wanted;
    F::UserPermissions p = F::UserPermissionsMap{};
    if (kind == 0)
    {
        p = F::WorldReadable{};
    }
    else if (kind == 1)
    {
        p = F::WorldWritable{};
    }
    else
    {
        F::UserPermissionsMap m;
        for (const auto q : {score::os::Acl::Permission::kRead, score::os::Acl::Permission::kWrite})
        {
            for (std::uint64_t i = r.below(4); i > 0; --i)
            {
                const auto u = static_cast<std::uint32_t>(2000 + r.below(6));
                if (wanted.insert({static_cast<std::uint32_t>(q), u}).second)
                {
                    m[q].push_back(u);
                }
            }
        }
        p = m;
    }
    const std::string path = new_path();
    const bool via_open = r.chance(50);
    const auto result = vh::run_child([&] {
        ::umask(mask);
        const Res x = via_open ? F::CreateOrOpen(path, [](Res q) { put(*q, 1); }, 8192, F::AccessControl{p, {}})
                               : F::Create(path, [](Res q) { put(*q, 1); }, 8192, p);
        VH_CHECK(x != nullptr, "perm:null", "nothing created below an empty path");
        struct stat s{};
        VH_NEED(::stat(shm_file(path).c_str(), &s) == 0);
        const auto m = s.st_mode & 0777U;
        VH_CHECK((m & 0600U) == (0600U & ~(kind == 1 ? 0U : mask)), "perm:owner", "mode ", std::oct, m, " umask ", mask);
        if (kind == 1)
        {
            VH_CHECK(m == 0666, "perm:world-writable", "mode ", std::oct, m, " umask ", mask);
        }
        else if (kind == 0)
        {
            VH_CHECK((m & 0022U) == 0U, "perm:others-write", "readable region has mode ", std::oct, m);
            VH_CHECK((m & 0044U) == (0044U & ~mask), "perm:others-read", "mode ", std::oct, m, " umask ", mask);
        }
        else
        {
            VH_CHECK((m & 0077U) == 0U, "perm:private", "private region has mode ", std::oct, m);
        }
        score::os::AccessControlList acl{x->GetFileDescriptor()};
        std::set<std::pair<std::uint32_t, std::uint32_t>> got;
        for (const auto q : {score::os::Acl::Permission::kRead, score::os::Acl::Permission::kWrite, score::os::Acl::Permission::kExecute})
        {
            const auto l = acl.FindUserIdsWithPermission(q);
            VH_NEED(l.has_value());
            for (const auto u : *l)
            {
                got.insert({static_cast<std::uint32_t>(q), u});
            }
        }
        VH_CHECK(got == wanted, "perm:grants", "granted ", got.size(), " instead of ", wanted.size());
        VH_CHECK(!there(lock_file(path)), "residue:lock", "lock file left after creation");
        F::Remove(path);
        VH_CHECK(!there(shm_file(path)), "residue:shm", "region left after Remove");
    });
    vh::relay(result);
    vh::count("permissions");
    vh::eval(5);
    vh::distinct(vh::comb(vh::comb(10 + kind, mask), wanted.size()));
}
void providers(vh::Rng& r)
{
    const uid_t owner = static_cast<uid_t>(r.chance(25) ? 0 : 3001 + r.below(3));
    const uid_t user = static_cast<uid_t>(3001 + r.below(3));
    const std::string path = new_path();
    vh::relay(vh::run_child([&] {
        VH_NEED(::setuid(owner) == 0);
        ::umask(022);
        VH_NEED(F::Create(path, [](Res q) { put(*q, 7); }, 8192, F::WorldWritable{}) != nullptr);
    }));
    const auto seed = r.next();
    vh::relay(vh::run_child([&] {
        vh::Rng q{seed};
        VH_NEED(::setuid(user) == 0);
        std::vector<Res> keep;
        const auto before = fds().size();
        for (int i = 0; i < 12; ++i)
        {
            std::vector<uid_t> list;
            for (std::uint64_t k = q.below(4); k > 0; --k)
            {
                list.push_back(static_cast<uid_t>(q.chance(20) ? 0 : 3001 + q.below(4)));
            }
            const bool restricted = q.chance(75);
            std::optional<score::cpp::span<const uid_t>> a;
            if (restricted)
            {
                a = score::cpp::span<const uid_t>{list.data(), list.size()};
            }
            const bool listed = std::find(list.begin(), list.end(), owner) != list.end();
            const bool allowed = !restricted || owner == user || listed;
            if (restricted && owner == user && list.empty())
            {
                continue;  // documented both ways
            }
            Res x;
            if (q.chance(60))
            {
                x = F::Open(path, q.chance(50), a);
            }
            else
            {
                x = F::CreateOrOpen(path, [](Res) { vh::violation("provider:recreated", "initialised again"); }, 8192, F::AccessControl{F::WorldWritable{}, a});
            }
            VH_CHECK((x != nullptr) == allowed, allowed ? "provider:refused" : "provider:accepted", "owner ", owner, " user ", user, " listed ", listed, " restricted ", restricted, " call ", i, " already open ", !keep.empty());
            if (x != nullptr)
            {
                VH_CHECK(has(*x, 7), "content", "content of another process's region not seen");
                VH_CHECK(keep.empty() || keep[0] == x, "one-instance", "second resource for one path");
                if (q.chance(50))
                {
                    keep.push_back(x);
                }
            }
            if (q.chance(20))
            {
                x.reset();
                keep.clear();
            }
            x.reset();
            if (keep.empty())
            {
                VH_CHECK(fds().size() == before, "residue:fd", "descriptors ", fds().size(), " instead of ", before);
            }
            VH_CHECK(!there(lock_file(path)), "residue:lock", "lock file left");
        }
    }));
    ::unlink(shm_file(path).c_str());
    vh::count("provider_runs");
    vh::eval(24);
    vh::distinct(vh::comb(vh::comb(77, owner), user));
}

// ---- race between processes
struct Board
{
    std::atomic<unsigned> ready{0}, go{0};
    std::atomic<unsigned> inits{0}, inits_done{0};
    std::atomic<unsigned> created{0}, opened{0}, opened_null{0}, create_null{0}, made{0};
    std::atomic<unsigned> finished{0};
    std::atomic<unsigned> interleaving[8];
};
Board* g_board;
std::uint64_t g_trace = 0;
unsigned g_who = 0;
int slow_os(const char* op, const char*, int)
{
    thread_local vh::Rng r{vh::comb(vh::seed(), vh::comb(static_cast<std::uint64_t>(::getpid()), 5))};
    vh::jitter(r, 40);
    if (g_board != nullptr && op != nullptr && (std::strcmp(op, "open") == 0 || std::strcmp(op, "shm_open") == 0))
    {
        // the order in which the processes reach the file system
        const auto n = g_board->finished.fetch_add(1);
        if (n < 8)
        {
            g_board->interleaving[n] = 1 + g_who;
        }
    }
    return 0;
}
void race(vh::Rng& r)
{
    const unsigned n = 2 + static_cast<unsigned>(r.below(4));
    const std::string path = new_path();
    std::vector<unsigned> op(n);
    unsigned coo = 0, cr = 0;
    const auto style = r.below(3);
    for (auto& o : op)
    {
        o = style == 0 ? 0U : style == 1 ? 1U : static_cast<unsigned>(r.below(3));  // 0 create-or-open, 1 create, 2 open
        coo += o == 0U;
        cr += o == 1U;
    }
    static Board* b = vh::shared<Board>();
    new (b) Board{};
    g_board = b;
    const std::uint64_t gen = r.next();
    const auto seed = r.next();
    std::vector<pid_t> kids;
    for (unsigned i = 0; i < n; ++i)
    {
        const pid_t k = ::fork();
        VH_NEED(k >= 0);
        if (k == 0)
        {
            ::alarm(60);
            vh::Rng q{vh::comb(seed, i)};
            g_who = i;
            verif::g_os_hook = slow_os;
            b->ready++;
            while (b->go == 0U)
            {
            }
            vh::jitter(q, 50);
            auto init = [&](Res x) {
                b->inits++;
                put(*x, gen, &q);
                b->inits_done++;
            };
            const F::UserPermissions p = F::WorldWritable{};
            Res x = op[i] == 0U ? F::CreateOrOpen(path, init, 16384, F::AccessControl{p, {}})
                    : op[i] == 1U ? F::Create(path, init, 16384, p)
                                  : F::Open(path, true);
            if (x != nullptr)
            {
                VH_CHECK(b->inits_done == 1U, "race:early", "got a region that is not initialised yet, op ", op[i]);
                VH_CHECK(has(*x, gen), "race:content", "incomplete content, op ", op[i]);
            }
            if (op[i] == 0U)
            {
                VH_CHECK(x != nullptr, "race:create-or-open-null", "neither created nor opened with ", n, " processes");
                b->made++;
            }
            else if (op[i] == 1U)
            {
                (x != nullptr ? b->created : b->create_null)++;
            }
            else
            {
                (x != nullptr ? b->opened : b->opened_null)++;
            }
            ::_exit(0);
        }
        kids.push_back(k);
    }
    while (b->ready < n)
    {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    b->go = 1;
    for (const pid_t k : kids)
    {
        int s = 0;
        ::waitpid(k, &s, 0);
        if (WIFSIGNALED(s) && WTERMSIG(s) == SIGALRM)
        {
            vh::inconclusive("process of a race timed out");
        }
        if (!WIFEXITED(s) || WEXITSTATUS(s) != 0)
        {
            if (WIFEXITED(s) && (WEXITSTATUS(s) == 66 || WEXITSTATUS(s) == 67 || WEXITSTATUS(s) == 99))
            {
                ::_exit(WEXITSTATUS(s));
            }
            vh::violation("race:abort", "a process was terminated");
        }
    }
    VH_CHECK(b->inits <= 1U, "race:initialised-twice", b->inits.load(), " initialisations");
    VH_CHECK(b->created <= 1U, "race:created-twice", b->created.load(), " successful creations");
    if (coo > 0)
    {
        VH_CHECK(b->inits == 1U, "race:not-initialised", "no initialisation");
    }
    else if (cr == n)
    {
        VH_CHECK(b->created == 1U, "race:nobody-created", "nobody created");
    }
    VH_CHECK(!there(lock_file(path)), "residue:lock", "lock file left");
    VH_CHECK(there(shm_file(path)) == (b->inits == 1U), "race:file", "region file");
    ::unlink(shm_file(path).c_str());
    std::uint64_t h = vh::comb(n, coo * 8 + cr);
    for (auto& x : b->interleaving)
    {
        h = vh::comb(h, x.load());
    }
    g_board = nullptr;
    vh::distinct(h);
    vh::count("races");
    vh::count("race_processes", n);
    vh::count("race_refused", b->opened_null + b->create_null);
    vh::eval(4 + 2 * n);
}

// ---- threads of one process
void threads(vh::Rng& r)
{
    const std::string path = new_path();
    const unsigned n = 2 + static_cast<unsigned>(r.below(4));
    std::atomic<unsigned> inits{0}, go{0};
    std::vector<Res> got(n);
    std::vector<unsigned> op(n);
    const std::uint64_t gen = r.next();
    op[0] = 0;
    for (unsigned i = 1; i < n; ++i)
    {
        op[i] = static_cast<unsigned>(r.below(3));
    }
    std::vector<std::thread> t;
    const auto seed = r.next();
    for (unsigned i = 0; i < n; ++i)
    {
        t.emplace_back([&, i] {
            vh::Rng q{vh::comb(seed, i)};
            while (go == 0U)
            {
            }
            vh::jitter(q, 60);
            auto init = [&](Res x) {
                inits++;
                put(*x, gen, &q);
            };
            for (int k = 0; k < 3 && got[i] == nullptr; ++k)
            {
                got[i] = op[i] == 0U ? F::CreateOrOpen(path, init, 16384) : op[i] == 1U ? F::Create(path, init, 16384) : F::Open(path, true);
                if (got[i] != nullptr)
                {
                    VH_CHECK(has(*got[i], gen), "threads:content", "incomplete content");
                }
            }
        });
    }
    go = 1;
    for (auto& x : t)
    {
        x.join();
    }
    VH_CHECK(inits == 1U, "threads:inits", inits.load(), " initialisations");
    unsigned creators = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        VH_CHECK(got[i] != nullptr || op[i] != 0U, "threads:null", "create-or-open refused");
        VH_CHECK(got[i] == nullptr || got[i] == got[0], "one-instance", "two resources for one path in a process");
        creators += op[i] == 1U && got[i] != nullptr;
    }
    VH_CHECK(creators <= 1U, "threads:created-twice", creators);
    std::vector<std::thread> u;
    for (unsigned i = 0; i < n; ++i)
    {
        u.emplace_back([&, i] {
            if (i % 2 == 0)
            {
                F::Remove(path);
            }
            got[i].reset();
        });
    }
    for (auto& x : u)
    {
        x.join();
    }
    VH_CHECK(!there(shm_file(path)) && !there(lock_file(path)), "residue:files", "files left");
    vh::count("thread_runs");
    vh::eval(5);
    vh::distinct(vh::comb(n, vh::comb(op[1], 91)));
}

void make(const std::string& path, std::uint64_t gen)
{
    vh::relay(vh::run_child([&] { VH_NEED(F::Create(path, [gen](Res x) { put(*x, gen); }, 16384, F::WorldWritable{}) != nullptr); }));
}
// users of one process come and go at the same time
void churn(vh::Rng& r)
{
    const std::string path = new_path();
    make(path, 3);
    const unsigned n = 2 + static_cast<unsigned>(r.below(3));
    std::vector<std::thread> t;
    std::atomic<unsigned> go{0}, opened{0};
    const auto seed = r.next();
    for (unsigned i = 0; i < n; ++i)
    {
        t.emplace_back([&, i] {
            vh::Rng q{vh::comb(seed, i)};
            while (go == 0U)
            {
            }
            for (int k = 0; k < 60; ++k)
            {
                Res x = F::Open(path, true);
                VH_CHECK(x != nullptr, "churn:null", "existing region not opened");
                VH_CHECK(has(*x, 3), "churn:content", "content");
                opened++;
                vh::jitter(q, 30);
                x.reset();
                vh::jitter(q, 30);
            }
        });
    }
    go = 1;
    for (auto& x : t)
    {
        x.join();
    }
    ::unlink(shm_file(path).c_str());
    vh::count("churned", opened);
    vh::eval(opened * 2U);
}

// ---- crash and fault
struct Plan
{
    int at{-1};      // this call of the watched period
    int err{0};      // fails with it; 0: the process dies
    const char* op{nullptr};  // or: all calls of this kind fail
    int n{0};
    std::string last;
};
Plan g_plan;
int plan_hook(const char* op, const char*, int)
{
    const int k = g_plan.n++;
    if (g_plan.op != nullptr)
    {
        return std::strcmp(op, g_plan.op) == 0 ? g_plan.err : 0;
    }
    if (k != g_plan.at)
    {
        return 0;
    }
    if (g_plan.err == 0)
    {
        ::_exit(42);
    }
    g_plan.last = op;
    return g_plan.err;
}
Res act(unsigned op, const std::string& path, std::uint64_t gen)
{
    auto init = [gen](Res x) { put(*x, gen); };
    switch (op)
    {
        case 0: return F::Create(path, init, 16384, F::WorldWritable{});
        case 1: return F::CreateOrOpen(path, init, 16384, F::AccessControl{F::WorldWritable{}, {}});
        case 2: return F::Open(path, true);
        default: return F::Open(path, false);
    }
}
// the path is free again and works
void reuse(const std::string& path, std::uint64_t gen, const char* key)
{
    vh::relay(vh::run_child([&] {
        F::RemoveStaleArtefacts(path);
        VH_CHECK(!there(lock_file(path)) && !there(shm_file(path)), key, "stale artefacts left");
        const Res x = act(0, path, gen);
        VH_CHECK(x != nullptr, key, "cannot create after cleaning up");
        VH_CHECK(has(*x, gen), key, "content after cleaning up");
    }));
    vh::relay(vh::run_child([&] {
        const Res x = act(2, path, gen);
        VH_CHECK(x != nullptr && has(*x, gen), key, "cannot open after cleaning up");
        F::Remove(path);
        VH_CHECK(!there(lock_file(path)) && !there(shm_file(path)), key, "files left after Remove");
    }));
}
void crash(vh::Rng& r)
{
    const auto op = static_cast<unsigned>(r.below(4));
    const bool exists = op >= 2 || (op == 1 && r.chance(50));
    for (int k = 0; k < 60; ++k)
    {
        const std::string path = new_path();
        const std::uint64_t gen = r.next();
        if (exists)
        {
            make(path, gen);
        }
        const auto res = vh::run_child([&] {
            g_plan = Plan{};
            g_plan.at = k;
            verif::g_os_hook = plan_hook;
            Res x = act(op, path, gen);
            VH_CHECK(x != nullptr, "crash:null", "refused without a fault, op ", op);
            if (op < 3)
            {
                (void)x->allocate(64, 8);
            }
            x.reset();
            verif::g_os_hook = nullptr;
        });
        const bool crashed = res.exited && res.code == 42;
        if (!crashed)
        {
            vh::relay(res);
        }
        if (crashed && exists && there(shm_file(path)) && !there(lock_file(path)))
        {
            // a crashed user leaves the region intact for others
            vh::relay(vh::run_child([&] {
                const Res x = F::Open(path, false);
                VH_CHECK(x != nullptr && has(*x, gen), "crash:destroyed", "region of others damaged by a crash at call ", k);
            }));
        }
        if (crashed && exists)
        {
            VH_CHECK(there(shm_file(path)), "crash:unlinked", "a crashed user removed the region, call ", k);
        }
        reuse(path, gen + 1, "crash:reuse");
        vh::distinct(vh::comb(vh::comb(op, exists), vh::comb(k, crashed)));
        vh::eval(4);
        if (!crashed)
        {
            break;
        }
        vh::count("crash_points");
    }
}
void fault(vh::Rng& r)
{
    const auto op = static_cast<unsigned>(r.below(4));
    const bool exists = op >= 2 || r.chance(40);
    const int errs[] = {EACCES, ENOSPC, EMFILE, EINTR, ENOMEM, EIO, EEXIST, EPERM};
    const int err = errs[r.below(8)];
    static const char* ops[] = {"open", "shm_open", "chmod", "fchmod", "ftruncate", "mmap", "fstat", "stat", "unlink", "close"};
    const bool all = r.chance(30);
    const char* const kind = ops[r.below(10)];
    for (int k = 0; k < 60; ++k)
    {
        const std::string path = new_path();
        const std::uint64_t gen = r.next();
        if (exists)
        {
            make(path, gen);
        }
        const auto t0 = vh::now_ns();
        auto res = vh::run_child([&] {
            const auto before = fds().size();
            g_plan = Plan{};
            g_plan.at = k;
            g_plan.err = err;
            g_plan.op = all ? kind : nullptr;
            verif::g_os_hook = plan_hook;
            Res x = act(op, path, gen);
            verif::g_os_hook = nullptr;
            const bool fired = all || g_plan.n > k;
            if (!fired)
            {
                VH_CHECK((x != nullptr) == !(op == 0 && exists), "fault:result", "without a fault, op ", op);
            }
            if (x != nullptr)
            {
                VH_CHECK(!(op == 0 && exists), "fault:created-over", "created over an existing region, call ", k, " errno ", err);
                VH_CHECK(has(*x, gen), "fault:content", "content after a fault in call ", k, " errno ", err);
                if (op < 3)
                {
                    auto* p = static_cast<char*>(x->allocate(64, 8));
                    std::memset(p, 1, 64);
                }
            }
            else
            {
                x.reset();
                const auto after = fds().size();
                const bool close_failed = all ? std::strcmp(kind, "close") == 0 : g_plan.last == "close";
                VH_CHECK(close_failed || after <= before, "residue:fd", "refused, but ", after - before, " descriptor(s) left; op ", op, " call ", k, " errno ", err, " all ", all ? kind : "-");
            }
            ::_exit(fired ? 0 : 5);
        }, 15);
        const bool fired = !(res.exited && res.code == 5);
        if (res.sig == SIGALRM)
        {
            VH_CHECK(vh::now_ns() - t0 < 14000000000ULL, "fault:hang", "call did not end: op ", op, " call ", k, " errno ", err, " all ", all ? kind : "-");
        }
        const bool aborted = res.sig == SIGABRT;
        if (fired && !(aborted && !vh::has_sanitizer_report(res.err)))
        {
            vh::relay(res);
        }
        if (exists)
        {
            VH_CHECK(there(shm_file(path)), "fault:unlinked", "existing region removed, op ", op, " call ", k);
        }
        reuse(path, gen + 1, "fault:reuse");
        vh::count(aborted ? "fault_terminated" : "fault_survived");
        vh::distinct(vh::comb(vh::comb(op, static_cast<std::uint64_t>(err)), vh::comb(all ? vh::hash_str(kind) : static_cast<std::uint64_t>(k), aborted)));
        vh::eval(4);
        if (!fired || all)
        {
            break;
        }
        vh::count("fault_points");
    }
}
// a lock file left behind by a crashed creator: nobody waits for ever, nobody enters
void stale(vh::Rng& r)
{
    const std::string path = new_path();
    const bool exists = r.chance(50);
    if (exists)
    {
        make(path, 5);
    }
    const int fd = ::open(lock_file(path).c_str(), O_CREAT | O_EXCL | O_RDONLY, 0444);
    VH_NEED(fd >= 0);
    ::close(fd);
    const auto op = static_cast<unsigned>(r.below(4));
    const auto t0 = vh::now_ns();
    const auto res = vh::run_child([&] {
        const Res x = act(op, path, 5);
        VH_CHECK(x == nullptr, "stale:entered", "entered a path somebody else is creating, op ", op);
    }, 20);
    VH_CHECK(res.sig != SIGALRM, "stale:hang", "waited for more than ", (vh::now_ns() - t0) / 1000000000, " s");
    if (res.sig == SIGABRT && !vh::has_sanitizer_report(res.err))
    {
        VH_CHECK(op != 0, "stale:abort", "Create() terminated");
    }
    else
    {
        vh::relay(res);
    }
    VH_CHECK(there(lock_file(path)), "stale:stolen", "lock file of another process removed, op ", op);
    VH_CHECK(there(shm_file(path)) == exists, "stale:region", "op ", op);
    reuse(path, 6, "stale:reuse");
    vh::count("stale_locks");
    vh::eval(4);
}

// ---- model
void model(vh::Rng& r)
{
    const auto seed = r.next();
    vh::relay(vh::run_child([&] {
        vh::Rng q{seed};
        struct P
        {
            std::string path;
            std::optional<std::uint64_t> file;  // generation on the file system
            std::uint64_t held_gen{0};
            bool in_map{false};
            bool writable{false};
            std::vector<Res> held;
        };
        std::vector<P> ps(3);
        for (auto& p : ps)
        {
            p.path = new_path();
        }
        const auto before = fds().size();
        for (int i = 0; i < 60; ++i)
        {
            P& p = q.pick(ps);
            const std::uint64_t gen = q.next();
            bool called = false;
            auto init = [&](Res x) {
                called = true;
                put(*x, gen);
            };
            const bool live = !p.held.empty();
            switch (q.below(6))
            {
                case 0:
                case 1:
                case 2:
                {
                    if (live && !p.in_map)
                    {
                        break;  // removed, but still in use: the path must not be used in this process
                    }
                    const auto op = q.below(3);
                    const std::size_t size = 4096 + q.below(100000);
                    const bool rw = q.chance(50);
                    const Res x = op == 0 ? F::Create(p.path, init, size) : op == 1 ? F::CreateOrOpen(p.path, init, size) : F::Open(p.path, rw);
                    const bool create = !live && !p.file.has_value() && op != 2;
                    const bool expect = create || (op != 0 && (live || p.file.has_value()));
                    VH_CHECK((x != nullptr) == expect, "model:result", "op ", op, " live ", live, " file ", p.file.has_value(), " got ", x != nullptr);
                    VH_CHECK(called == create, "model:init", "op ", op, " live ", live, " file ", p.file.has_value(), " initialised ", called);
                    if (x == nullptr)
                    {
                        break;
                    }
                    if (create)
                    {
                        p.file = gen;
                    }
                    if (!live)
                    {
                        p.held_gen = *p.file;
                        p.in_map = true;
                        p.writable = op != 2 || rw;
                        const auto w = perms_of(x->getBaseAddress());
                        VH_CHECK(w == (p.writable ? "rw-s" : "r--s"), "model:mapping", "mapped ", w, " writable wanted ", p.writable);
                    }
                    else
                    {
                        VH_CHECK(x == p.held[0], "one-instance", "two resources for one path in a process");
                    }
                    if (create)
                    {
                        struct stat s{};
                        VH_NEED(::stat(shm_file(p.path).c_str(), &s) == 0);
                        const auto admin = static_cast<std::size_t>(static_cast<const char*>(x->getUsableBaseAddress()) - static_cast<const char*>(x->getBaseAddress()));
                        VH_CHECK(static_cast<std::size_t>(s.st_size) >= size + admin, "model:size", "file of ", s.st_size, " for ", size);
                    }
                    VH_CHECK(x->getPath() != nullptr && *x->getPath() == p.path, "model:path", "wrong path");
                    p.held.push_back(x);
                    break;
                }
                case 3:
                {
                    F::Remove(p.path);
                    if (live && p.in_map)
                    {
                        p.in_map = false;
                        p.file.reset();
                    }
                    break;
                }
                case 4:
                {
                    if (live)
                    {
                        p.held.erase(p.held.begin() + static_cast<long>(q.below(p.held.size())));
                        p.in_map = p.in_map && !p.held.empty();
                    }
                    break;
                }
                default:
                {
                    if (!live && q.chance(30))
                    {
                        F::RemoveStaleArtefacts(p.path);
                        p.file.reset();
                    }
                    break;
                }
            }
            std::size_t alive = 0;
            for (auto& x : ps)
            {
                VH_CHECK(there(shm_file(x.path)) == x.file.has_value(), "model:file", "step ", i, " file there ", there(shm_file(x.path)));
                VH_CHECK(!there(lock_file(x.path)), "residue:lock", "lock file left");
                for (auto& h : x.held)
                {
                    VH_CHECK(has(*h, x.held_gen), "model:content", "step ", i);
                }
                alive += !x.held.empty();
            }
            VH_CHECK(fds().size() == before + alive, "residue:fd", fds().size(), " descriptors, ", before, " before, ", alive, " regions");
        }
        for (auto& p : ps)
        {
            ::unlink(shm_file(p.path).c_str());
        }
    }));
    vh::count("model_runs");
    vh::eval(300);
    vh::distinct(seed);
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::scratch();
    vh::Rng r{vh::seed()};
    const auto only = vh::sarg("mode", "");
    const auto want = [&](const char* m) { return only.empty() || only == m; };
    const auto scale = vh::arg("scale", 1);
    for (std::uint64_t i = 0; i < 6 * scale && want("perm"); ++i)
    {
        perm(r);
        providers(r);
    }
    for (std::uint64_t i = 0; i < 60 * scale && want("race"); ++i)
    {
        race(r);
    }
    for (std::uint64_t i = 0; i < 40 * scale && want("threads"); ++i)
    {
        threads(r);
    }
    for (std::uint64_t i = 0; i < 4 * scale && want("churn"); ++i)
    {
        churn(r);
    }
    for (std::uint64_t i = 0; i < 5 * scale && want("model"); ++i)
    {
        model(r);
    }
    for (std::uint64_t i = 0; i < 2 * scale && want("crash"); ++i)
    {
        crash(r);
    }
    for (std::uint64_t i = 0; i < 3 * scale && want("fault"); ++i)
    {
        fault(r);
    }
    for (std::uint64_t i = 0; i < 1 * scale && want("stale"); ++i)
    {
        stale(r);
    }
    vh::finish();
}
