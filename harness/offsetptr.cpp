// C07: offset pointers against raw pointers, position independence, bounds checks; address arithmetic against wide
// integers.
#include "vh.h"

#include "score/memory/data_type_size_info.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/pointer_arithmetic_util.h"

#include "verif_seam.h"

#include <sys/mman.h>

#include <cstring>
#include <limits>
#include <memory>
#include <optional>

using namespace score::memory::shared;
using I = __int128;
namespace
{
struct Contract
{
};
void contract_throw(const char*, int, const char*, const char*) { throw Contract{}; }
template <class F>
bool rejected(F&& f)
{
    try
    {
        f();
        return false;
    }
    catch (const Contract&)
    {
        return true;
    }
}

// ---------------------------------------------------------------- arithmetic
template <class S>
S pick_signed(vh::Rng& r)
{
    const S lo = std::numeric_limits<S>::min();
    const S hi = std::numeric_limits<S>::max();
    switch (r.below(5))
    {
        case 0:
            return static_cast<S>(lo + static_cast<S>(r.below(4)));
        case 1:
            return static_cast<S>(hi - static_cast<S>(r.below(4)));
        case 2:
            return static_cast<S>(static_cast<S>(r.below(7)) - 3);
        default:
            return static_cast<S>(r.next());
    }
}
template <class U>
U pick_unsigned(vh::Rng& r)
{
    switch (r.below(5))
    {
        case 0:
            return static_cast<U>(std::numeric_limits<U>::max() - r.below(4));
        case 1:
            return static_cast<U>((std::numeric_limits<U>::max() >> 1U) + r.below(5) - 2U);
        case 2:
            return static_cast<U>(r.below(5));
        default:
            return static_cast<U>(r.next());
    }
}
template <class S>
void int_run(vh::Rng& r)
{
    using U = std::make_unsigned_t<S>;
    const I lo = std::numeric_limits<S>::min();
    const I hi = std::numeric_limits<S>::max();
    for (int i = 0; i < 400; ++i)
    {
        const S s = pick_signed<S>(r);
        const U u = pick_unsigned<U>(r);
        const I a = s < 0 ? -static_cast<I>(s) : static_cast<I>(s);
        VH_CHECK(static_cast<I>(AbsoluteValue(s)) == a, "absolute-value", "|", static_cast<long long>(s), "| is ", static_cast<unsigned long long>(AbsoluteValue(s)), ", width ", sizeof(S));
        VH_CHECK(UndoSignedToUnsignedIntegerCast(static_cast<U>(s)) == s, "undo-cast", static_cast<long long>(s), " does not survive the cast and back");
        VH_CHECK(static_cast<U>(UndoSignedToUnsignedIntegerCast(u)) == u, "undo-cast", static_cast<unsigned long long>(u), " does not survive the cast back");
        for (const bool add : {true, false})
        {
            const I want = add ? static_cast<I>(s) + static_cast<I>(u) : static_cast<I>(s) - static_cast<I>(u);
            S got{};
            const bool rej = rejected([&] { got = add ? AddUnsignedToSigned(s, u) : SubtractUnsignedFromSigned(s, u); });
            const bool fits = want >= lo && want <= hi;
            VH_CHECK(rej == !fits, add ? "add-overflow" : "subtract-overflow", static_cast<long long>(s), add ? " + " : " - ", static_cast<unsigned long long>(u), rej ? " rejected although it fits" : " not rejected", ", width ", sizeof(S));
            if (fits)
            {
                VH_CHECK(static_cast<I>(got) == want, add ? "add-value" : "subtract-value", static_cast<long long>(s), add ? " + " : " - ", static_cast<unsigned long long>(u), " = ", static_cast<long long>(got));
            }
            vh::eval();
        }
    }
}
void address_run(vh::Rng& r)
{
    for (int i = 0; i < 600; ++i)
    {
        const auto p = pick_unsigned<std::uintptr_t>(r);
        const auto o = pick_unsigned<std::size_t>(r);
        const auto s = pick_signed<std::ptrdiff_t>(r);
        const I top = static_cast<I>(std::numeric_limits<std::uintptr_t>::max());
        auto one = [&](const char* name, I want, auto f) {
            std::uintptr_t got = 0;
            const bool rej = rejected([&] { got = f(); });
            const bool fits = want >= 0 && want <= top;
            VH_CHECK(rej == !fits, std::string{name} + "-limit", name, " of ", p, " with ", o, "/", s, rej ? " rejected although representable" : " accepted although not representable");
            if (fits)
            {
                VH_CHECK(static_cast<I>(got) == want, std::string{name} + "-value", name, " of ", p, " with ", o, "/", s, " is ", got);
            }
            vh::eval();
        };
        one("add-offset", static_cast<I>(p) + static_cast<I>(o), [&] { return AddOffsetToPointerAsInteger(p, o); });
        one("subtract-offset", static_cast<I>(p) - static_cast<I>(o), [&] { return SubtractOffsetFromPointerAsInteger(p, o); });
        one("add-signed-offset", static_cast<I>(p) + static_cast<I>(s), [&] { return AddSignedOffsetToPointerAsInteger(p, s); });
        auto* const raw = CastIntegerToPointer<char*>(p);
        VH_CHECK(CastPointerToInteger(raw) == p, "pointer-cast", "address ", p, " changes");
        one("add-pointer-unsigned", static_cast<I>(p) + static_cast<I>(o), [&] { return CastPointerToInteger(AddOffsetToPointer(raw, o)); });
        one("add-pointer-signed", static_cast<I>(p) + static_cast<I>(s), [&] { return CastPointerToInteger(AddOffsetToPointer(raw, s)); });

        const auto q = r.chance(50) ? pick_unsigned<std::uintptr_t>(r) : static_cast<std::uintptr_t>(p + static_cast<std::uintptr_t>(s));
        const I want = static_cast<I>(p) - static_cast<I>(q);
        std::ptrdiff_t got = 0;
        const bool rej = rejected([&] { got = SubtractPointersBytes(raw, CastIntegerToPointer<char*>(q)); });
        const bool fits = want >= std::numeric_limits<std::ptrdiff_t>::min() && want <= std::numeric_limits<std::ptrdiff_t>::max();
        VH_CHECK(rej == !fits, "pointer-difference-limit", p, " - ", q, rej ? " rejected although it fits" : " not rejected");
        if (fits)
        {
            VH_CHECK(static_cast<I>(got) == want, "pointer-difference", p, " - ", q, " = ", got);
        }
    }
}
void aligned_run(vh::Rng& r)
{
    for (int i = 0; i < 400; ++i)
    {
        const std::size_t al = r.chance(70) ? (std::size_t{1} << r.below(20)) : 1U + r.below(300);
        std::size_t sz = r.below(3) == 0 ? r.below(3) * al + r.below(3) : r.next() >> (2 + r.below(60));
        const auto got = CalculateAlignedSize(sz, al);
        VH_CHECK(got >= sz && got - sz < al && got % al == 0, "aligned-size", "size ", sz, " aligned to ", al, " gives ", got);
        std::vector<score::memory::DataTypeSizeInfo> v;
        I total = 0;
        const auto n = r.below(8);
        for (std::uint64_t k = 0; k < n; ++k)
        {
            const std::size_t a = std::size_t{1} << r.below(8);
            const std::size_t s = (r.below(300) + 1U) * a;
            v.emplace_back(s, a);
            total = (total + a - 1) / a * a + s;
        }
        VH_CHECK(static_cast<I>(CalculateAlignedSizeOfSequence(v)) == total, "sequence-size", "sequence of ", n, " takes ", CalculateAlignedSizeOfSequence(v), " instead of ", static_cast<std::uint64_t>(total));
        vh::eval();
    }
    VH_CHECK(CalculateAlignedSize(0, 8) == 0, "aligned-size", "size 0");
}
// a request that cannot be represented must not come back with a small size
void aligned_overflow(vh::Rng& r)
{
    const std::size_t al = std::size_t{2} << r.below(12);
    const std::size_t sz = std::numeric_limits<std::size_t>::max() - r.below(al - 1U);
    auto c = vh::run_child([&] {
        verif::g_contract_hook.store(nullptr);
        const auto got = CalculateAlignedSize(sz, al);
        ::_exit(got >= sz ? 0 : 3);
    });
    VH_CHECK(!vh::has_sanitizer_report(c.err), "sanitizer", "sanitizer report in a child");
    VH_CHECK(c.sig == SIGABRT || (c.exited && c.code == 0), "aligned-size-overflow", "size ", sz, " aligned to ", al, " ends with code ", c.code, " signal ", c.sig);
    auto d = vh::run_child([&] {
        verif::g_contract_hook.store(nullptr);
        std::vector<score::memory::DataTypeSizeInfo> v;
        v.emplace_back((std::numeric_limits<std::size_t>::max() / 16U) * 16U, 16U);
        v.emplace_back(16U * (1U + r.below(100)), 16U);
        (void)CalculateAlignedSizeOfSequence(v);
        ::_exit(3);
    });
    VH_CHECK(!vh::has_sanitizer_report(d.err), "sanitizer", "sanitizer report in a child");
    VH_CHECK(d.sig == SIGABRT, "sequence-size-overflow", "an overflowing sequence ends with code ", d.code, " signal ", d.sig);
    vh::count("overflow_children", 2);
    vh::eval(2);
}

// ---------------------------------------------------------------- offset pointers
class Region final : public ManagedMemoryResource
{
  public:
    Region(void* b, std::size_t n) : b_{static_cast<char*>(b)}, n_{n} {}
    MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
    void* getBaseAddress() const noexcept override { return b_; }
    void* getUsableBaseAddress() const noexcept override { return b_; }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }

  private:
    const void* getEndAddress() const noexcept override { return b_ + n_; }
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
    char* b_;
    std::size_t n_;
};
constexpr std::size_t kMapped = 16384;
constexpr std::size_t kEnd = 8192;  // end of the registered region inside the mapping
struct Arena
{
    char* m[2];
    Region r0;
    Region r1;
    int fd;
    static void* map(int fd)
    {
        void* p = ::mmap(nullptr, kMapped, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        VH_NEED(p != MAP_FAILED);
        return p;
    }
    explicit Arena(int f) : m{static_cast<char*>(map(f)), static_cast<char*>(map(f))}, r0{m[0], kEnd}, r1{m[1], kEnd}, fd{f}
    {
        VH_NEED(MemoryResourceRegistry::getInstance().insert_resource({901, &r0}));
        VH_NEED(MemoryResourceRegistry::getInstance().insert_resource({902, &r1}));
    }
    ~Arena()
    {
        MemoryResourceRegistry::getInstance().remove_resource(901);
        MemoryResourceRegistry::getInstance().remove_resource(902);
        ::munmap(m[0], kMapped);
        ::munmap(m[1], kMapped);
        ::close(fd);
    }
    // which mapping holds p: 0, 1 or -1
    int where(const void* p) const
    {
        for (int i = 0; i < 2; ++i)
        {
            if (p >= m[i] && p < m[i] + kMapped)
            {
                return i;
            }
        }
        return -1;
    }
};
struct Big
{
    std::uint64_t v[3];
    bool operator==(const Big& o) const { return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
};
template <class T>
void set(T& t, std::uint64_t v)
{
    if constexpr (std::is_same_v<T, Big>)
    {
        t = Big{{v, v + 1, v + 2}};
    }
    else
    {
        t = static_cast<T>(v);
    }
}
template <class T>
void model_run(vh::Rng& r)
{
    using P = OffsetPtr<T>;
    using A = std::uintptr_t;
    const bool checking = r.chance(70);
    const bool before = EnableOffsetPtrBoundsChecking(checking);
    Arena ar{::memfd_create("offsetptr", MFD_CLOEXEC)};
    // note: the file has to exist before it is touched
    VH_NEED(::ftruncate(ar.fd, kMapped) == 0);
    constexpr std::size_t kCells = 14;
    constexpr std::size_t kLocals = 8;
    constexpr std::size_t kData = 2048;
    // element i of the in-region array lives at kData + i * sizeof(T); the array ends exactly at the end of the region
    const std::size_t n_data = (kEnd - kData - 256) / sizeof(T);
    const std::size_t data_off = kEnd - 256 - n_data * sizeof(T);
    auto data = [&](int map, std::size_t i) { return reinterpret_cast<T*>(ar.m[map] + data_off + i * sizeof(T)); };
    std::vector<T> outside(64);
    struct Cell
    {
        std::size_t off;           // in-region cells
        std::unique_ptr<P> local;  // the others
        bool null{true};
        bool in{false};            // points into the arena: `to` is relative to its start
        std::uint64_t to{0};
        int base{0};               // for locals: which mapping `to` is relative to
        int bounds{-1};            // which mapping's bounds it carries
    };
    std::vector<Cell> c;
    for (std::size_t i = 0; i < kCells; ++i)
    {
        // cell 0 ends exactly at the region's end, cell 1 straddles it
        const std::size_t off = i == 0 ? kEnd - sizeof(P) : i == 1 ? kEnd + sizeof(P) - 8U * (1U + r.below(sizeof(P) / 8U - 1U)) : 64U + i * 40U;
        const std::size_t o = i == 1 ? off - sizeof(P) + 0U : off;
        Cell n;
        n.off = i == 1 ? (o < kEnd ? o : kEnd - 8U) : o;
        new (ar.m[0] + n.off) P{};
        c.push_back(std::move(n));
    }
    // cells 0 and 1 overlap, use one of them per run
    const bool use_straddling = r.chance(30);
    auto usable = [&](std::size_t i) { return use_straddling ? i != 0 : i != 1; };
    if (use_straddling)
    {
        new (ar.m[0] + c[1].off) P{};
    }
    else
    {
        new (ar.m[0] + c[0].off) P{};
    }
    for (std::size_t i = 0; i < kLocals; ++i)
    {
        Cell n;
        n.local = std::make_unique<P>();
        c.push_back(std::move(n));
    }
    auto pick = [&] {
        std::size_t i = r.below(c.size());
        while (!usable(i))
        {
            i = r.below(c.size());
        }
        return i;
    };
    // the pointer object of cell i, seen through the given mapping
    auto at = [&](std::size_t i, int map) -> P& { return c[i].local ? *c[i].local : *reinterpret_cast<P*>(ar.m[map] + c[i].off); };
    // address the model expects cell i to point to, seen through the given mapping
    auto expect = [&](std::size_t i, int map) -> A {
        const auto& k = c[i];
        if (k.null)
        {
            return 0;
        }
        return k.in ? reinterpret_cast<A>(ar.m[k.local ? k.base : map]) + k.to : k.to;
    };
    // true: get() has to refuse
    auto refuse = [&](std::size_t i, int map) {
        const auto& k = c[i];
        if (!checking || k.null)
        {
            return false;
        }
        const A to = expect(i, map);
        auto inside = [&](int m) {
            const A lo = reinterpret_cast<A>(ar.m[m]);
            return to >= lo && to <= lo + kEnd && to + sizeof(T) <= lo + kEnd;
        };
        if (!k.local)
        {
            return k.off + sizeof(P) > kEnd || !inside(map);
        }
        return k.bounds >= 0 && !inside(k.bounds);
    };
    auto verify = [&](std::size_t i, const char* after) {
        for (int map = 0; map < 2; ++map)
        {
            P& p = at(i, map);
            if (!c[i].local && !c[i].in && !c[i].null && map == 1)
            {
                continue;  // points to something that is not in the arena: only meaningful where it was set
            }
            const A want = expect(i, map);
            VH_CHECK(static_cast<bool>(p) == !c[i].null && !p == c[i].null && (p == nullptr) == c[i].null && (nullptr != p) == !c[i].null, "offset-ptr-null", "cell ", i, " null test after ", after);
            VH_CHECK(p == reinterpret_cast<T*>(want) && !(reinterpret_cast<T*>(want) != p), map == 0 ? "offset-ptr-target" : "offset-ptr-position", "cell ", i, " seen through mapping ", map, " points elsewhere after ", after, ", expected offset ", want - reinterpret_cast<A>(ar.m[map]));
            const bool ref = refuse(i, map);
            A got = 0;
            const bool rej = rejected([&] { got = reinterpret_cast<A>(p.get()); });
            VH_CHECK(rej == ref, ref ? "bounds-not-refused" : "bounds-refused", "cell ", i, (c[i].local ? " outside" : " inside"), " mapping ", map, " carries bounds ", c[i].bounds, " target offset ", static_cast<std::int64_t>(want - reinterpret_cast<A>(ar.m[map])), " size ", sizeof(T), ref ? " was not refused after " : " was refused after ", after);
            if (!ref)
            {
                VH_CHECK(got == want, "offset-ptr-get", "get() differs after ", after);
                if (!c[i].null)
                {
                    bool readable = false;
                    if (c[i].in)
                    {
                        readable = c[i].to + sizeof(T) <= kMapped;
                    }
                    else
                    {
                        readable = want >= reinterpret_cast<A>(outside.data()) && want + sizeof(T) <= reinterpret_cast<A>(outside.data() + outside.size());
                    }
                    if (readable)
                    {
                        T a;
                        T b;
                        std::memcpy(&a, &*p, sizeof a);
                        std::memcpy(&b, reinterpret_cast<void*>(want), sizeof b);
                        VH_CHECK(std::memcmp(&a, &b, sizeof a) == 0 && std::addressof(*p) == p.operator->() && static_cast<T*>(p) == std::addressof(p[0]), "offset-ptr-dereference", "reads another object after ", after);
                    }
                }
                vh::count(ref ? "refused" : "accepted");
            }
            else
            {
                vh::count("refused");
                VH_CHECK(rejected([&] { (void)std::addressof(*p); }) && rejected([&] { (void)p.operator->(); }) && rejected([&] { (void)static_cast<T*>(p); }) && rejected([&] { (void)std::addressof(p[0]); }), "bounds-not-refused", "dereference is not refused after ", after);
            }
            vh::eval();
        }
    };
    // model of a copy from cell s (seen through ms) to cell d (seen through md)
    auto copy_model = [&](Cell& d, int md, const Cell& s, int ms) {
        d.null = s.null;
        d.in = s.in;
        d.to = s.to;
        const int b = s.local ? s.base : ms;
        d.bounds = -1;
        if (!d.null && d.local && checking)
        {
            d.bounds = s.local ? s.bounds : ms;
        }
        if (d.local)
        {
            d.base = b;
        }
        else if (d.in && b != md && !d.null)
        {
            // a cell of one mapping that points into the other one
            d.in = false;
            d.to = reinterpret_cast<A>(ar.m[b]) + s.to;
        }
    };
    // cells whose target is expressed as a plain address are only followed through mapping 0
    auto mapping_for = [&](std::size_t i) { return c[i].local || c[i].in || c[i].null ? static_cast<int>(r.below(2)) : 0; };
    std::uint64_t shape = sizeof(T) + (checking ? 1000U : 0U);
    for (int step = 0; step < 260; ++step)
    {
        const auto what = r.below(11);
        const std::size_t i = pick();
        const std::size_t j = pick();
        Cell& d = c[i];
        shape = vh::comb(shape, what * 64U + i);
        if (what <= 1)
        {
            const int md = static_cast<int>(r.below(2));
            T* t = nullptr;
            d.bounds = -1;
            switch (r.below(4))
            {
                case 0:
                    d.null = true;
                    break;
                case 1:
                    t = &r.pick(outside);
                    d.null = false;
                    d.in = false;
                    d.to = reinterpret_cast<A>(t);
                    break;
                default:
                    t = data(md, r.chance(25) ? r.chance(50) ? 0 : n_data - 1U + r.below(3) : r.below(n_data));
                    d.null = false;
                    d.in = true;
                    d.base = md;
                    d.to = static_cast<std::uint64_t>(reinterpret_cast<char*>(t) - ar.m[md]);
                    break;
            }
            const int use = (!d.null && !d.in) ? 0 : md;
            P& p = at(i, use);
            if (r.chance(30) && t != nullptr)
            {
                p = P::pointer_to(*t);
            }
            else if (r.chance(30))
            {
                p.~P();
                new (&p) P(t);
            }
            else
            {
                p = t;
            }
            verify(i, "assignment of a raw pointer");
        }
        else if (what <= 4)
        {
            const int ms = mapping_for(j);
            int md = static_cast<int>(r.below(2));
            if (!c[j].null && ((c[j].local ? c[j].base : ms) != md || !c[j].in))
            {
                md = 0;
            }
            if (i == j && !d.local && ms != md && !c[j].null)
            {
                continue;  // the same pointer through two mappings: a copy onto itself
            }
            P& from = at(j, ms);
            P& to = at(i, md);
            const auto how = r.below(4);
            if (how == 0)
            {
                OffsetPtr<const T> via{from};
                VH_CHECK(via == from && from == via && !(via < from) && via <= from, "offset-ptr-convert", "conversion to const changes the target");
                to = from;
            }
            else if (how == 1 && i != j)
            {
                to.~P();
                new (&to) P(from);
            }
            else if (how == 2 && i != j)
            {
                P tmp{from};
                to = tmp;
            }
            else
            {
                to = from;
            }
            if (i != j)
            {
                copy_model(d, md, c[j], ms);
            }
            verify(i, "a copy");
            verify(j, "being copied");
        }
        else if (what <= 6)
        {
            if (d.null)
            {
                continue;
            }
            const int md = mapping_for(i);
            P& p = at(i, md);
            const A now = expect(i, 0);
            const std::ptrdiff_t k = r.chance(60) ? static_cast<std::ptrdiff_t>(r.below(9)) - 4 : static_cast<std::ptrdiff_t>(r.below(2 * n_data)) - static_cast<std::ptrdiff_t>(n_data);
            const std::int64_t bytes = k * static_cast<std::ptrdiff_t>(sizeof(T));
            if (d.in && (static_cast<std::int64_t>(d.to) + bytes < 0 || static_cast<std::int64_t>(d.to) + bytes > static_cast<std::int64_t>(kMapped)))
            {
                continue;
            }
            // never onto the pointer itself
            if (!d.local && d.in && std::llabs(static_cast<std::int64_t>(d.to) + bytes - static_cast<std::int64_t>(d.off)) < 64)
            {
                continue;
            }
            (void)now;
            switch (r.below(6))
            {
                case 0:
                    p += k;
                    d.to += static_cast<std::uint64_t>(bytes);
                    break;
                case 1:
                    p -= -k;
                    d.to += static_cast<std::uint64_t>(bytes);
                    break;
                case 2:
                {
                    const P q = r.chance(50) ? p + k : p - (-k);
                    const P q2 = k + p;
                    VH_CHECK(q == q2 && q == reinterpret_cast<T*>(expect(i, md) + static_cast<A>(bytes)), "offset-ptr-sum", "sum with ", k, " points elsewhere");
                    VH_CHECK(q - p == k && p - q == -k && q - reinterpret_cast<T*>(expect(i, md)) == k && reinterpret_cast<T*>(expect(i, md)) - q == -k, "offset-ptr-difference", "difference is not ", k);
                    VH_CHECK((q < p) == (k < 0) && (q > p) == (k > 0) && (q <= p) == (k <= 0) && (q >= p) == (k >= 0) && (q == p) == (k == 0) && (q != p) == (k != 0), "offset-ptr-order", "order of pointers ", k, " elements apart");
                    break;
                }
                case 3:
                {
                    const bool up = r.chance(50);
                    const std::int64_t st = up ? static_cast<std::int64_t>(sizeof(T)) : -static_cast<std::int64_t>(sizeof(T));
                    if (static_cast<std::int64_t>(d.to) + st < 0 || (!d.local && d.in && std::llabs(static_cast<std::int64_t>(d.to) + st - static_cast<std::int64_t>(d.off)) < 64))
                    {
                        break;
                    }
                    const A was = expect(i, md);
                    if (r.chance(50))
                    {
                        const P old = up ? p++ : p--;
                        VH_CHECK(old == reinterpret_cast<T*>(was), "offset-ptr-postfix", "the old value differs");
                    }
                    else
                    {
                        P& same = up ? ++p : --p;
                        VH_CHECK(&same == &p, "offset-ptr-prefix", "returns another object");
                    }
                    d.to += static_cast<std::uint64_t>(st);
                    break;
                }
                default:
                {
                    // indexing equals moving and dereferencing, with the same checks
                    const A to = expect(i, md) + static_cast<A>(bytes);
                    Cell probe;
                    const bool ref = [&] {
                        const auto keep = d.to;
                        d.to += static_cast<std::uint64_t>(bytes);
                        const bool x = refuse(i, md);
                        d.to = keep;
                        return x;
                    }();
                    A got = 0;
                    const bool rej = rejected([&] { got = reinterpret_cast<A>(std::addressof(p[k])); });
                    VH_CHECK(rej == ref, ref ? "index-not-refused" : "index-refused", "index ", k, " of cell ", i, ref ? " is not refused" : " is refused");
                    VH_CHECK(rej || got == to, "offset-ptr-index", "index ", k, " is elsewhere");
                    break;
                }
            }
            verify(i, "arithmetic");
        }
        else if (what == 7)
        {
            if (i == j)
            {
                continue;
            }
            // swap, both through mapping 0 so that every address keeps its meaning
            auto crosses = [&](const Cell& k) { return k.local && k.in && !k.null && k.base == 1; };
            if (crosses(c[i]) || crosses(c[j]))
            {
                if (!(c[i].local && c[j].local))
                {
                    continue;
                }
            }
            swap(at(i, 0), at(j, 0));
            Cell ti;
            ti.local = nullptr;
            const bool li = static_cast<bool>(c[i].local);
            const bool lj = static_cast<bool>(c[j].local);
            // value copies of the model fields
            struct V
            {
                bool null, in;
                std::uint64_t to;
                int base, bounds;
            };
            auto take = [&](const Cell& k) { return V{k.null, k.in, k.to, k.local ? k.base : 0, k.local ? k.bounds : -1}; };
            const V vi = take(c[i]);
            const V vj = take(c[j]);
            auto put = [&](Cell& k, bool local, const V& v, bool from_local) {
                k.null = v.null;
                k.in = v.in;
                k.to = v.to;
                k.base = v.base;
                k.bounds = -1;
                if (local && checking && !v.null)
                {
                    k.bounds = from_local ? v.bounds : 0;
                }
            };
            put(c[i], li, vj, lj);
            put(c[j], lj, vi, li);
            verify(i, "swap");
            verify(j, "swap");
            vh::count("swaps");
        }
        else if (what == 8)
        {
            // untyped pointers
            const int ms = mapping_for(i);
            P& p = at(i, ms);
            OffsetPtr<void> v{p};
            OffsetPtr<const void> cv{p};
            const A want = expect(i, ms);
            auto* const wp = reinterpret_cast<void*>(want);
            VH_CHECK(v == static_cast<const void*>(wp) && cv == static_cast<const void*>(wp) && v == cv, "offset-ptr-void", "conversion to void changes the target");
            Cell k;
            k.local = std::make_unique<P>();
            copy_model(k, 0, c[i], ms);
            const bool ref = checking && !k.null && k.bounds >= 0 && [&] {
                const A lo = reinterpret_cast<A>(ar.m[k.bounds]);
                return want < lo || want > lo + kEnd || want + sizeof(T) > lo + kEnd;
            }();
            A got = 0;
            VH_CHECK(rejected([&] { got = reinterpret_cast<A>(v.template get<T>()); }) == ref && (ref || got == want), "offset-ptr-void-bounds", "typed access through an untyped pointer");
            VH_CHECK(rejected([&] { got = reinterpret_cast<A>(cv.get(sizeof(T))); }) == ref && (ref || got == want), "offset-ptr-void-bounds", "sized access through an untyped pointer");
            OffsetPtr<T> back{v};
            VH_CHECK(back == p, "offset-ptr-void", "back from void changes the target");
            verify(i, "conversion");
        }
        else if (what == 9 && !d.local)
        {
            // whatever a damaged or malicious offset says, only what lies in the region is handed out
            const int md = static_cast<int>(r.below(2));
            P& p = at(i, md);
            std::int64_t keep = 0;
            std::memcpy(&keep, static_cast<void*>(&p), sizeof keep);
            const std::int64_t self = static_cast<std::int64_t>(d.off);
            std::int64_t forged = 0;
            switch (r.below(4))
            {
                case 0:
                    forged = static_cast<std::int64_t>(r.below(32)) - 16 - self;  // around the start
                    break;
                case 1:
                    forged = static_cast<std::int64_t>(kEnd) - self - static_cast<std::int64_t>(sizeof(T)) + static_cast<std::int64_t>(r.below(48)) - 24;  // around the end
                    break;
                case 2:
                    forged = static_cast<std::int64_t>(r.next() >> 22U) * (r.chance(50) ? 1 : -1) / 1024;
                    break;
                default:
                    forged = ar.m[1 - md] - ar.m[md] + static_cast<std::int64_t>(r.below(kEnd)) - self;  // the other mapping
                    break;
            }
            std::memcpy(static_cast<void*>(&p), &forged, sizeof forged);
            const std::int64_t rel = self + forged;
            const bool null = forged == 1;
            const bool ref = checking && !null && (rel < 0 || rel > static_cast<std::int64_t>(kEnd) || rel + static_cast<std::int64_t>(sizeof(T)) > static_cast<std::int64_t>(kEnd) || d.off + sizeof(P) > kEnd);
            A got = 0;
            const bool rej = rejected([&] { got = reinterpret_cast<A>(p.get()); });
            VH_CHECK(rej == ref, ref ? "forged-not-refused" : "forged-refused", "forged offset ", forged, " at ", d.off, " target ", rel, " size ", sizeof(T), ref ? " is not refused" : " is refused");
            if (!ref && !null)
            {
                VH_CHECK(got == reinterpret_cast<A>(ar.m[md]) + static_cast<A>(rel), "forged-target", "offset ", forged, " leads elsewhere");
            }
            if (checking && !null)
            {
                // a copy taken out of the region does not lose the check
                P copy{p};
                const bool ref2 = rel < 0 || rel > static_cast<std::int64_t>(kEnd) || rel + static_cast<std::int64_t>(sizeof(T)) > static_cast<std::int64_t>(kEnd);
                P copy2;
                copy2 = copy;
                const OffsetPtr<const T> copy3{copy2};
                VH_CHECK(rejected([&] { (void)copy.get(); }) == ref2 && rejected([&] { (void)copy2.get(); }) == ref2 && rejected([&] { (void)copy3.operator->(); }) == ref2, "forged-copy", "a copy of the forged offset ", forged, ref2 ? " escapes the check" : " is refused");
            }
            std::memcpy(static_cast<void*>(&p), &keep, sizeof keep);
            vh::count(ref ? "forged_refused" : "forged_accepted");
            vh::eval();
        }
        else if (what == 10)
        {
            set(*data(static_cast<int>(r.below(2)), r.below(n_data)), r.next());
            verify(i, "a change of the data");
            verify(j, "a change of the data");
        }
    }
    vh::distinct(shape);
    vh::count("model_runs");
    EnableOffsetPtrBoundsChecking(before);
}
// ---- hierarchy conversions
struct B1
{
    std::uint64_t a{1};
};
struct B2
{
    std::uint64_t b{2};
};
struct D : B1, B2
{
    std::uint64_t c{3};
};
void hierarchy_run()
{
    D d;
    OffsetPtr<D> p{&d};
    OffsetPtr<B1> p1{p};
    OffsetPtr<B2> p2{p};
    OffsetPtr<const B2> p3{p};
    VH_CHECK(p1.get() == &d && p2.get() == static_cast<B2*>(&d) && p3.get() == static_cast<const B2*>(&d) && p2->b == 2 && p1->a == 1, "offset-ptr-base", "conversion to a base");
    OffsetPtr<D> n;
    OffsetPtr<B2> n2{n};
    p2 = n;
    VH_CHECK(!n2 && !p2 && n2.get() == nullptr, "offset-ptr-base-null", "conversion of null to a base");
    VH_CHECK(rejected([&] { (void)*n; }) && rejected([&] { (void)n[0]; }), "null-dereference", "dereferencing null is not refused");
    vh::eval(6);
}
// offsets that leave the address space end the process, they never lead anywhere
void extreme(vh::Rng& r)
{
    auto c = vh::run_child([&] {
        verif::g_contract_hook.store(nullptr);
        EnableOffsetPtrBoundsChecking(true);
        Arena ar{[] {
            const int fd = ::memfd_create("offsetptr", MFD_CLOEXEC);
            VH_NEED(::ftruncate(fd, kMapped) == 0);
            return fd;
        }()};
        auto* p = new (ar.m[0] + 64) OffsetPtr<Big>{};
        const std::int64_t f = r.chance(50) ? std::numeric_limits<std::int64_t>::min() + static_cast<std::int64_t>(r.below(100)) : -static_cast<std::int64_t>(reinterpret_cast<std::uintptr_t>(p)) - 1 - static_cast<std::int64_t>(r.below(100));
        std::memcpy(static_cast<void*>(p), &f, sizeof f);
        (void)p->get();
        ::_exit(3);
    });
    VH_CHECK(!vh::has_sanitizer_report(c.err), "sanitizer", "sanitizer report in a child");
    VH_CHECK(c.sig == SIGABRT, "extreme-offset", "an offset that leaves the address space ends with code ", c.code, " signal ", c.sig);
    vh::count("extreme_children");
    vh::eval();
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::Rng r{vh::seed()};
    verif::g_contract_hook.store(&contract_throw);
    for (int i = 0; i < 2; ++i)
    {
        aligned_overflow(r);
        extreme(r);
    }
    const auto n = vh::arg("n", 25);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        int_run<std::int8_t>(r);
        int_run<std::int16_t>(r);
        int_run<std::int32_t>(r);
        int_run<std::int64_t>(r);
        address_run(r);
        aligned_run(r);
        model_run<std::uint32_t>(r);
        model_run<std::uint8_t>(r);
        model_run<Big>(r);
    }
    hierarchy_run();
    vh::sample("random assign/copy/convert/move/swap/index histories over pointers inside and outside a region that is mapped twice, plus forged offsets");
    vh::finish();
}
