// C08: the allocator of a shared memory region and the containers on top of it.
//  alloc      concurrent allocations from several threads of several processes: aligned, inside the region, disjoint,
//             accounted for; a region that is exhausted ends the process instead of handing out foreign memory.
//  dry run    a region of exactly the size that NewDeleteDelegateMemoryResource computed takes the same construction.
//  containers Vector/Map/String behave like their std counterparts, also seen by a process that maps the region elsewhere.
#include "vh.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/map.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/new_delete_delegate_resource.h"
#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/memory/shared/string.h"
#include "score/memory/shared/vector.h"

#include <csignal>
#include <cstring>
#include <deque>
#include <map>
#include <optional>
#include <string>
#include <thread>
#include <vector>
namespace sm = score::memory::shared;
using Res = std::shared_ptr<sm::ISharedMemoryResource>;
namespace
{
std::string path()
{
    static int n = 0;
    return "/vh_alloc_" + std::to_string(::getpid()) + "_" + std::to_string(n++);
}
Res create(const std::string& p, std::size_t size, std::function<void(Res)> cb = [](Res) {})
{
    auto r = sm::SharedMemoryFactory::Create(p, [&cb](std::shared_ptr<sm::ISharedMemoryResource> m) { cb(m); }, size, sm::SharedMemoryFactory::WorldWritable{});
    VH_NEED(r != nullptr);
    return r;
}
// what allocators in shared memory use
const sm::MemoryResourceProxy* proxy(sm::ManagedMemoryResource& r)
{
    return &*sm::PolymorphicOffsetPtrAllocator<char>{r}.getMemoryResourceProxy();
}
std::uintptr_t ui(const void* p) { return reinterpret_cast<std::uintptr_t>(p); }

// ------------------------------------------------------------------------------------------------ concurrent allocation
constexpr unsigned kProc = 3, kThr = 3, kMax = 400;
struct Entry
{
    std::uint64_t off, size, align;
    std::uint64_t before, after;  // GetUserAllocatedBytes() around the call
};
struct Board
{
    std::atomic<unsigned> ready{0}, done{0}, go{0};
    std::atomic<unsigned> n[kProc * kThr]{};
    Entry e[kProc * kThr][kMax]{};
};
std::size_t pick_align(vh::Rng& r)
{
    return r.chance(70) ? (std::size_t{1} << r.below(5)) : (std::size_t{1} << r.below(13));
}
std::size_t pick_size(vh::Rng& r)
{
    switch (r.below(4))
    {
        case 0: return 1 + r.below(8);
        case 1: return 1 + r.below(64);
        case 2: return 1 + r.below(700);
        default: return std::size_t{1} << r.below(10);
    }
}
unsigned char pattern(unsigned who, unsigned i) { return static_cast<unsigned char>(who * 37U + i * 11U + 1U); }
void allocate_some(Res res, Board* b, unsigned who, unsigned count, std::uint64_t seed)
{
    vh::Rng r{seed};
    const auto base = ui(res->getBaseAddress());
    for (unsigned i = 0; i < count; ++i)
    {
        auto& e = b->e[who][i];
        e.size = pick_size(r);
        e.align = pick_align(r);
        e.before = res->GetUserAllocatedBytes();
        // half of them through the proxy, as allocators in shared memory do
        void* p = r.chance(50) ? res->allocate(e.size, e.align) : proxy(*res)->allocate(e.size, e.align);
        e.after = res->GetUserAllocatedBytes();
        e.off = ui(p) - base;
        std::memset(p, pattern(who, i), e.size);
        b->n[who].store(i + 1U);
        vh::jitter(r, 10);
    }
}
void alloc_run(vh::Rng& r)
{
    const auto p = path();
    auto* b = vh::shared<Board>();
    const unsigned procs = 1U + static_cast<unsigned>(r.below(kProc)), thr = 1U + static_cast<unsigned>(r.below(kThr));
    const unsigned count = 50U + static_cast<unsigned>(r.below(kMax - 50U));
    const std::size_t user = static_cast<std::size_t>(procs) * thr * count * 6000U;
    const auto seed = r.next();
    // the other processes are forked before the region exists here, so that they map it themselves
    std::vector<pid_t> kids;
    int err[2];
    VH_NEED(::pipe(err) == 0);
    for (unsigned q = 1; q < procs; ++q)
    {
        const auto pid = ::fork();
        VH_NEED(pid >= 0);
        if (pid == 0)
        {
            ::dup2(err[1], 2);
            ::alarm(60);
            while (b->go.load() == 0)
            {
                std::this_thread::yield();
            }
            (void)::mmap(nullptr, 4096U * (q * 7U), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            auto res = sm::SharedMemoryFactory::Open(p, true);
            VH_NEED(res != nullptr);
            b->ready.fetch_add(1);
            while (b->go.load() < 2U)
            {
                std::this_thread::yield();
            }
            std::vector<std::thread> t;
            for (unsigned k = 0; k < thr; ++k)
            {
#ifdef VH_TSAN
                // no new threads in a forked process with tsan
                allocate_some(res, b, q * thr + k, count, vh::comb(seed, q * thr + k));
#else
                t.emplace_back([=] { allocate_some(res, b, q * thr + k, count, vh::comb(seed, q * thr + k)); });
#endif
            }
            for (auto& x : t)
            {
                x.join();
            }
            b->done.fetch_add(1);
            ::_exit(0);
        }
        kids.push_back(pid);
    }
    ::close(err[1]);
    auto res = create(p, user);
    VH_CHECK(res->GetUserAllocatedBytes() == 0, "account-start", "a fresh region reports ", res->GetUserAllocatedBytes(), " allocated bytes");
    b->go.store(1);
    while (b->ready.load() + 1U < procs)
    {
        std::this_thread::yield();
    }
    b->go.store(2);
    {
        std::vector<std::thread> t;
        for (unsigned k = 0; k < thr; ++k)
        {
            t.emplace_back([=] { allocate_some(res, b, k, count, vh::comb(seed, k)); });
        }
        for (auto& x : t)
        {
            x.join();
        }
    }
    std::string text;
    char buf[4096];
    for (ssize_t n = 0; (n = ::read(err[0], buf, sizeof buf)) > 0;)
    {
        text.append(buf, static_cast<std::size_t>(n));
    }
    ::close(err[0]);
    for (auto k : kids)
    {
        int s = 0;
        ::waitpid(k, &s, 0);
        vh::ChildResult c;
        c.exited = WIFEXITED(s);
        c.code = WIFEXITED(s) ? WEXITSTATUS(s) : -1;
        c.sig = WIFSIGNALED(s) ? WTERMSIG(s) : 0;
        c.err = text;
        vh::relay(c);
    }
    // judge
    const auto base = ui(res->getBaseAddress());
    const std::uint64_t first = ui(res->getUsableBaseAddress()) - base;
    const auto used = res->GetUserAllocatedBytes();
    std::map<std::uint64_t, std::uint64_t> taken;
    std::uint64_t sum = 0, pad = 0, high = first, h = 0;
    for (unsigned w = 0; w < procs * thr; ++w)
    {
        std::uint64_t last = 0;
        VH_CHECK(b->n[w].load() == count, "alloc-lost", "only ", b->n[w].load(), " of ", count, " allocations were made");
        for (unsigned i = 0; i < count; ++i)
        {
            const auto& e = b->e[w][i];
            VH_CHECK((base + e.off) % e.align == 0, "alloc-alignment", "an allocation is not aligned to ", e.align);
            VH_CHECK(e.off >= first && e.off + e.size <= first + used, "alloc-bounds", "allocation at ", e.off, " + ", e.size, " is outside of [", first, ", ", first + used, ")");
            VH_CHECK(e.off >= last, "alloc-order", "an allocation lies before an earlier one of the same thread");
            VH_CHECK(e.after >= e.before + e.size, "account-step", "an allocation of ", e.size, " bytes moved the accounted bytes from ", e.before, " to ", e.after);
            VH_CHECK(e.off >= first + e.before && e.off + e.size <= first + e.after, "account-range", "an allocation is outside of what was accounted around it");
            last = e.off + e.size;
            auto it = taken.upper_bound(e.off);
            VH_CHECK(it == taken.end() || e.off + e.size <= it->first, "alloc-overlap", "two allocations overlap");
            VH_CHECK(it == taken.begin() || std::prev(it)->second <= e.off, "alloc-overlap", "two allocations overlap");
            taken[e.off] = e.off + e.size;
            const auto* q = reinterpret_cast<const unsigned char*>(base + e.off);
            for (std::uint64_t x = 0; x < e.size; ++x)
            {
                VH_CHECK(q[x] == pattern(w, i), "alloc-content", "an allocation was written through another one");
            }
            sum += e.size;
            pad += e.align - 1U;
            high = std::max(high, e.off + e.size);
            h = vh::comb(h, taken.size() * 31U + w);
        }
    }
    VH_CHECK(used >= sum && used <= sum + pad, "account-total", used, " bytes accounted for ", sum, " requested (+ at most ", pad, " of padding)");
    VH_CHECK(high == first + used, "account-end", "the accounted bytes do not end with the last allocation");
    // which thread got how many of the first half: the interleaving that was seen
    std::uint64_t inter = 0;
    for (unsigned w = 0; w < procs * thr; ++w)
    {
        inter = vh::comb(inter, b->e[w][count / 2U].off);
    }
    vh::distinct(inter);
    vh::count("allocations", procs * thr * count);
    vh::eval(procs * thr * count);
    res.reset();
    sm::SharedMemoryFactory::Remove(p);
    ::munmap(b, sizeof *b);
}

// --------------------------------------------------------------------------------------------------------- exhaustion
struct Last
{
    std::uint64_t off{0}, size{0}, count{0}, bytes{0}, total{0}, first{0};
};
void exhaust(vh::Rng& r)
{
    auto* last = vh::shared<Last>();
    const auto seed = r.next();
    const auto kind = r.below(4);
    auto c = vh::run_child([&] {
        vh::Rng q{seed};
        const std::size_t user = 100U + q.below(9000);
        auto res = create(path(), user);
        const auto base = ui(res->getBaseAddress());
        last->total = user;
        last->first = ui(res->getUsableBaseAddress()) - base;
        if (kind == 0)
        {
            // an exact fit is granted, one more byte is not
            (void)res->allocate(user - 8U, 1);
            (void)res->allocate(8, 1);
            last->bytes = res->GetUserAllocatedBytes();
            last->count = 1;
            (void)res->allocate(1, 1);
            ::_exit(5);
        }
        if (kind == 1)
        {
            // sizes that would wrap around
            last->count = 1;
            (void)res->allocate(std::size_t{1} + q.below(user), 1);
            constexpr std::size_t m = std::numeric_limits<std::size_t>::max();
            (void)res->allocate(q.chance(50) ? m - q.below(5000) : (m / 2) + q.below(1000), std::size_t{1} << q.below(6));
            ::_exit(5);
        }
        for (;;)
        {
            const auto sz = 1U + q.below(900);
            const auto al = pick_align(q);
            const auto before = res->GetUserAllocatedBytes();
            auto* p = res->allocate(sz, al);
            const auto off = ui(p) - base;
            VH_CHECK(off >= last->first + before && off + sz <= last->first + user, "exhaust-bounds", "allocation at ", off, " + ", sz, " leaves a region of ", user, " bytes");
            std::memset(p, 0xA5, sz);
            last->count++;
            last->bytes = res->GetUserAllocatedBytes();
        }
    });
    VH_CHECK(!vh::has_sanitizer_report(c.err), "sanitizer", "sanitizer report while exhausting a region: ", c.err.substr(0, 200));
    if (c.exited && c.code == 66)
    {
        vh::relay(c);
    }
    VH_CHECK(!(c.exited && c.code == 5), "exhaust-granted", "more memory than the region of ", last->total, " bytes has was handed out");
    VH_CHECK(c.sig == SIGABRT, "exhaust-end", "exhaustion ends with code ", c.code, " signal ", c.sig);
    VH_CHECK(last->count > 0 || kind > 1, "exhaust-early", "a fitting allocation was refused");
    VH_CHECK(kind != 0 || last->bytes == last->total, "exhaust-exact", "an exact fit was not accounted: ", last->bytes, " of ", last->total);
    vh::count("exhausted");
    vh::eval();
    ::munmap(last, sizeof *last);
}

// ------------------------------------------------------------------------------------------------------ containers
struct alignas(64) Over
{
    std::uint64_t v;
    bool operator==(const Over& o) const { return v == o.v; }
};
using SMap = sm::Map<std::uint32_t, sm::Vector<std::uint16_t>>;
struct Root
{
    sm::Vector<std::uint32_t> v;
    sm::Vector<sm::Vector<std::uint8_t>> vv;
    sm::Vector<Over> o;
    SMap m;
    sm::Map<std::uint64_t, std::uint64_t> mm;
    sm::String s;
    std::atomic<std::uint64_t> step{0};
    explicit Root(sm::ManagedMemoryResource& r) : v(r), vv(r), o(r), m(r), mm(r), s(r) {}
};
struct Model
{
    std::vector<std::uint32_t> v;
    std::vector<std::vector<std::uint8_t>> vv;
    std::vector<Over> o;
    std::map<std::uint32_t, std::vector<std::uint16_t>> m;
    std::map<std::uint64_t, std::uint64_t> mm;
    std::string s;
};
std::uint64_t digest(const Model& m)
{
    std::uint64_t h = m.v.size();
    for (auto x : m.v)
    {
        h = vh::comb(h, x);
    }
    for (const auto& x : m.vv)
    {
        h = vh::comb(h, x.size());
        for (auto y : x)
        {
            h = vh::comb(h, y);
        }
    }
    for (const auto& x : m.o)
    {
        h = vh::comb(h, x.v);
    }
    for (const auto& x : m.m)
    {
        h = vh::comb(h, x.first);
        for (auto y : x.second)
        {
            h = vh::comb(h, y);
        }
    }
    for (const auto& x : m.mm)
    {
        h = vh::comb(vh::comb(h, x.first), x.second);
    }
    return vh::comb(h, vh::hash_str(m.s));
}
template <class R>
Model read_all(const R& r)
{
    Model m;
    m.v.assign(r.v.begin(), r.v.end());
    for (const auto& x : r.vv)
    {
        m.vv.emplace_back(x.begin(), x.end());
    }
    m.o.assign(r.o.begin(), r.o.end());
    for (const auto& x : r.m)
    {
        m.m[x.first] = std::vector<std::uint16_t>(x.second.begin(), x.second.end());
    }
    for (const auto& x : r.mm)
    {
        m.mm[x.first] = x.second;
    }
    m.s = std::string(r.s.begin(), r.s.end());
    return m;
}
void step(vh::Rng& r, Root& a, Model& b, sm::ManagedMemoryResource& res)
{
    switch (r.below(20))
    {
        case 0:
        case 1:
        {
            const auto x = static_cast<std::uint32_t>(r.next());
            a.v.push_back(x);
            b.v.push_back(x);
            break;
        }
        case 2:
            if (!b.v.empty())
            {
                const auto i = static_cast<std::ptrdiff_t>(r.below(b.v.size()));
                a.v.erase(a.v.begin() + i);
                b.v.erase(b.v.begin() + i);
            }
            break;
        case 3:
        {
            const auto i = static_cast<std::ptrdiff_t>(r.below(b.v.size() + 1U));
            const auto x = static_cast<std::uint32_t>(r.next());
            a.v.insert(a.v.begin() + i, x);
            b.v.insert(b.v.begin() + i, x);
            break;
        }
        case 4:
        {
            const auto n = r.below(40);
            a.v.resize(n, 7U);
            b.v.resize(n, 7U);
            break;
        }
        case 5:
        {
            const auto n = r.below(20);
            const auto x = static_cast<std::uint8_t>(r.next());
            a.vv.emplace_back(n, x);
            b.vv.emplace_back(n, x);
            break;
        }
        case 6:
            if (!b.vv.empty())
            {
                const auto i = r.below(b.vv.size());
                a.vv[i].push_back(3);
                b.vv[i].push_back(3);
            }
            break;
        case 7:
            if (b.vv.size() > 1U)
            {
                const auto i = r.below(b.vv.size());
                std::swap(a.vv[i], a.vv[0]);
                std::swap(b.vv[i], b.vv[0]);
            }
            break;
        case 8:
            if (b.vv.size() > 6U)
            {
                a.vv.erase(a.vv.begin(), a.vv.begin() + 3);
                b.vv.erase(b.vv.begin(), b.vv.begin() + 3);
            }
            break;
        case 9:
        {
            const Over x{r.next()};
            a.o.push_back(x);
            b.o.push_back(x);
            VH_CHECK(ui(&a.o[0]) % 64U == 0, "container-alignment", "elements of an over-aligned type are not aligned");
            break;
        }
        case 10:
        case 11:
        {
            const auto k = static_cast<std::uint32_t>(r.below(30));
            const auto x = static_cast<std::uint16_t>(r.next());
            a.m[k].push_back(x);
            b.m[k].push_back(x);
            break;
        }
        case 12:
        {
            const auto k = static_cast<std::uint32_t>(r.below(30));
            VH_CHECK(a.m.erase(k) == b.m.erase(k), "map-erase", "erase() of a Map differs from a std::map");
            break;
        }
        case 13:
        case 14:
        {
            const auto k = r.below(60), x = r.next();
            VH_CHECK(a.mm.emplace(k, x).second == b.mm.emplace(k, x).second, "map-emplace", "emplace() of a Map differs from a std::map");
            break;
        }
        case 15:
        {
            const auto k = r.below(60);
            auto i = a.mm.lower_bound(k);
            auto j = b.mm.lower_bound(k);
            VH_CHECK((i == a.mm.end()) == (j == b.mm.end()), "map-lookup", "lower_bound() of a Map differs from a std::map");
            if (j != b.mm.end())
            {
                VH_CHECK(i->first == j->first && i->second == j->second, "map-lookup", "lower_bound() of a Map differs from a std::map");
                a.mm.erase(i);
                b.mm.erase(j);
            }
            break;
        }
        case 16:
        {
            const std::string t(r.below(30), static_cast<char>(r.below(256)));
            a.s.append(t.data(), t.size());
            b.s.append(t);
            break;
        }
        case 17:
        {
            const auto n = r.below(b.s.size() + 1U);
            a.s.erase(n);
            b.s.erase(n);
            break;
        }
        case 18:
        {
            // copies and moves between containers of the same resource
            sm::Vector<std::uint32_t> c{a.v, sm::PolymorphicOffsetPtrAllocator<std::uint32_t>{res}};
            c.push_back(1);
            a.v = c;
            b.v.push_back(1);
            sm::Vector<std::uint32_t> d{std::move(c)};
            d.push_back(2);
            a.v = std::move(d);
            b.v.push_back(2);
            break;
        }
        default:
        {
            // a copy on the heap
            sm::Vector<std::uint32_t> c(a.v.begin(), a.v.end());
            c.push_back(9);
            VH_CHECK(c.size() == b.v.size() + 1U && std::equal(b.v.begin(), b.v.end(), c.begin()), "heap-copy", "the copy of a Vector on the heap differs");
            sm::String t(a.s.begin(), a.s.end());
            t += "x";
            VH_CHECK(std::string(t.begin(), t.end()) == b.s + "x", "heap-copy", "the copy of a String on the heap differs");
            break;
        }
    }
}
bool same(const Model& a, const Model& b)
{
    return a.v == b.v && a.vv == b.vv && a.o == b.o && a.m == b.m && a.mm == b.mm && a.s == b.s;
}
void container_run(vh::Rng& r)
{
    struct Talk
    {
        std::atomic<int> go{0};
        std::atomic<std::uint64_t> off{0}, ask{0}, got{0}, digest{0};
    };
    auto* t = vh::shared<Talk>();
    const auto p = path();
    int err[2];
    VH_NEED(::pipe(err) == 0);
    const auto kid = ::fork();
    VH_NEED(kid >= 0);
    if (kid == 0)
    {
        ::dup2(err[1], 2);
        ::alarm(60);
        while (t->go.load() == 0)
        {
            std::this_thread::yield();
        }
        (void)::mmap(nullptr, 4096U * 333U, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        auto res = sm::SharedMemoryFactory::Open(p, false);
        VH_NEED(res != nullptr);
        const auto* root = reinterpret_cast<const Root*>(ui(res->getBaseAddress()) + t->off.load());
        std::uint64_t seen = 0;
        while (t->go.load() == 1)
        {
            const auto a = t->ask.load();
            if (a != seen)
            {
                t->digest.store(digest(read_all(*root)));
                seen = a;
                t->got.store(a);
            }
            else
            {
                std::this_thread::yield();
            }
        }
        ::_exit(0);
    }
    ::close(err[1]);
    auto res = create(p, 4000000);
    auto* root = res->construct<Root>(*res);
    t->off.store(ui(root) - ui(res->getBaseAddress()));
    t->go.store(1);
    Model m;
    std::uint64_t asked = 0;
    for (int i = 0; i < 400 && res->GetUserAllocatedBytes() < 3000000; ++i)
    {
        step(r, *root, m, *res);
        VH_CHECK(same(read_all(*root), m), "container-model", "a container in shared memory differs from its std counterpart");
        if (i % 20 == 19)
        {
            t->ask.store(++asked);
            for (int k = 0; t->got.load() != asked; ++k)
            {
                int s = 0;
                if (::waitpid(kid, &s, WNOHANG) == kid)
                {
                    char buf[2000];
                    const auto n = ::read(err[0], buf, sizeof buf);
                    (void)!::write(2, buf, n > 0 ? static_cast<std::size_t>(n) : 0U);
                    vh::violation("container-reader", "the process reading the containers ended");
                }
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
            VH_CHECK(t->digest.load() == digest(m), "container-remote", "another process sees other contents of the containers");
            vh::count("remote_reads");
            vh::distinct(digest(m));
        }
        vh::eval();
    }
    t->go.store(2);
    int s = 0;
    ::waitpid(kid, &s, 0);
    ::close(err[0]);
    vh::count("container_runs");
    res->destruct(*root);
    res.reset();
    sm::SharedMemoryFactory::Remove(p);
    ::munmap(t, sizeof *t);
}

// equality with std containers
void compare_run(vh::Rng& r)
{
    for (int k = 0; k < 300; ++k)
    {
        std::vector<std::uint8_t> a;
        for (auto n = r.below(6); n > 0; --n)
        {
            a.push_back(static_cast<std::uint8_t>(r.below(2)));
        }
        std::vector<std::uint8_t> b = a;
        switch (r.below(5))
        {
            case 0: b.push_back(static_cast<std::uint8_t>(r.below(2))); break;
            case 1:
                if (!b.empty())
                {
                    b.pop_back();
                }
                break;
            case 2:
                if (!b.empty())
                {
                    b[r.below(b.size())] ^= 1U;
                }
                break;
            default: break;
        }
        const sm::Vector<std::uint8_t> v(a.begin(), a.end());
        VH_CHECK((v == b) == (a == b), "vector-equal", "a Vector of ", a.size(), " elements compared to a std::vector of ", b.size());
        VH_CHECK((b == v) == (a == b), "vector-equal", "a std::vector of ", b.size(), " elements compared to a Vector of ", a.size());
        // strings, also with embedded zeros
        const std::string sa(a.begin(), a.end()), sb(b.begin(), b.end());
        const sm::String s(sa.begin(), sa.end());
        VH_CHECK((s == sb) == (sa == sb) && (s != sb) == (sa != sb), "string-equal", "a String of ", sa.size(), " characters compared to a std::string of ", sb.size());
        VH_CHECK((sb == s) == (sa == sb) && (sb != s) == (sa != sb), "string-equal", "a std::string of ", sb.size(), " characters compared to a String of ", sa.size());
        vh::count(a == b ? "equal" : "different");
        vh::eval();
    }
}

// ------------------------------------------------------------------------------------------------------------- dry run
template <class R>
void build(R& res, std::uint64_t seed)
{
    vh::Rng r{seed};
    auto* root = res.template construct<Root>(res);
    Model m;
    for (int i = 0; i < 120; ++i)
    {
        step(r, *root, m, res);
        if (r.chance(20))
        {
            const auto sz = pick_size(r);
            const auto al = pick_align(r);
            auto* q = res.allocate(sz, al);
            VH_CHECK(ui(q) % al == 0, "alloc-alignment", "an allocation is not aligned to ", al);
            std::memset(q, 0x77, sz);
            if (r.chance(50))
            {
                proxy(res)->deallocate(q, sz);
            }
            else if (r.chance(50))
            {
                res.deallocate(q, sz, al);
            }
        }
        if (r.chance(5))
        {
            auto* o = res.template construct<Over>(Over{4});
            VH_CHECK(ui(o) % alignof(Over) == 0, "alloc-alignment", "a constructed object is not aligned");
            if (r.chance(50))
            {
                res.destruct(*o);
            }
        }
    }
    VH_CHECK(same(read_all(*root), m), "container-model", "a container differs from its std counterpart");
    if (r.chance(50))
    {
        res.destruct(*root);
    }
}
// The upstream of a dry run: every block is given back once, with the size and alignment it was allocated with.
struct Upstream : public ::score::cpp::pmr::memory_resource
{
    std::map<void*, std::pair<std::size_t, std::size_t>> live;
    std::uint64_t total{0};
    void* do_allocate(const std::size_t b, std::size_t a) override
    {
        void* p = ::operator new(b, std::align_val_t{a});
        live[p] = {b, a};
        ++total;
        return p;
    }
    void do_deallocate(void* p, std::size_t b, std::size_t a) override
    {
        const auto i = live.find(p);
        VH_CHECK(i != live.end(), "upstream-unknown", "a block that is not allocated was given back to the heap");
        VH_CHECK(i->second.first == b && i->second.second == a, "upstream-mismatch", "a block of ", i->second.first, " bytes aligned to ", i->second.second, " was given back as ", b, " bytes aligned to ", a);
        live.erase(i);
        ::operator delete(p, std::align_val_t{a});
    }
    bool do_is_equal(const ::score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
void dry_run(vh::Rng& r)
{
    Upstream up;
    const auto seed = r.next();
    std::size_t need = 0;
    {
        static std::uint64_t id = 1000;
        sm::NewDeleteDelegateMemoryResource dry{++id, &up};
        VH_CHECK(dry.GetUserAllocatedBytes() == 0, "account-start", "a fresh dry run reports allocations");
        build(dry, seed);
        need = dry.GetUserAllocatedBytes();
    }
    VH_CHECK(up.live.empty(), "upstream-leak", up.live.size(), " of ", up.total, " blocks were not given back to the heap");
    auto c = vh::run_child([&] {
        auto res = create(path(), need);
        build(*res, seed);
        VH_CHECK(res->GetUserAllocatedBytes() == need, "dry-run-differs", "the dry run computed ", need, " bytes, ", res->GetUserAllocatedBytes(), " are used");
        ::_exit(0);
    });
    if (c.sig == SIGABRT && !vh::has_sanitizer_report(c.err))
    {
        vh::violation("dry-run-insufficient", vh::str("a region of the size that the dry run computed (", need, ") does not suffice: ", c.err.substr(0, 200)));
    }
    vh::relay(c);
    vh::count("dry_runs");
    vh::eval();
    // misuse is refused, not forwarded to the heap
    auto d = vh::run_child([&] {
        sm::NewDeleteDelegateMemoryResource dry{7};
        auto* q = dry.allocate(64, 16);
        auto* other = dry.allocate(64, 16);
        (void)other;
        if (r.chance(50))
        {
            dry.deallocate(static_cast<char*>(q) + 16, 16, 16);
        }
        else
        {
            dry.deallocate(q, 64, 16);
            dry.deallocate(q, 64, 16);
        }
        ::_exit(5);
    });
    VH_CHECK(!vh::has_sanitizer_report(d.err), "misuse-forwarded", "a bad deallocation reached the heap: ", d.err.substr(0, 200));
    VH_CHECK(d.sig == SIGABRT, "misuse-accepted", "a bad deallocation was accepted");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 6);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        compare_run(r);
        for (int k = 0; k < 4; ++k)
        {
            exhaust(r);
            dry_run(r);
        }
        container_run(r);
        alloc_run(r);
        alloc_run(r);
    }
    vh::sample("up to 3 processes with 3 threads each allocating 50..400 blocks of 1..700 bytes aligned to 1..4096; 400 container steps per run");
    vh::finish();
}
