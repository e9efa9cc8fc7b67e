// C09: lookup of memory regions.
//  map       one writer, many lock-free readers: every lookup equals the result for one version of the map that was current
//            at some time during the lookup, and versions never go backwards for a reader.
//  registry  model comparison, also with concurrent users that own different identifiers.
//  real      resources of shared memory objects are known exactly as long as they live.
#include "vh.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_region_map.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/memory/shared/vector.h"

#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <vector>
namespace sm = score::memory::shared;
namespace
{
using Regions = std::map<std::uintptr_t, std::uintptr_t>;
using Hit = std::optional<std::pair<std::uintptr_t, std::uintptr_t>>;
Hit model_lookup(const Regions& m, std::uintptr_t p)
{
    for (const auto& x : m)
    {
        // the end address belongs to a region unless another one starts there
        if (p >= x.first && p <= x.second && (p != x.second || m.count(p) == 0 || x.first == p))
        {
            return x;
        }
    }
    return {};
}
Hit conv(const std::optional<sm::MemoryRegionBounds>& b)
{
    if (!b.has_value())
    {
        return {};
    }
    return std::make_pair(b->GetStartAddress(), b->GetEndAddress());
}
std::atomic<unsigned> g_noise{0};
void noise(int, const char*, const void*)
{
    thread_local vh::Rng r{vh::comb(vh::seed(), g_noise.fetch_add(1))};
    vh::jitter(r, 8);
}
constexpr unsigned kMaxV = 3000;
struct Log
{
    std::vector<Regions> v;
    std::atomic<unsigned> begun{0}, done{0};
};
void map_run(vh::Rng& r)
{
    sm::MemoryRegionMap map;
    Log log;
    const unsigned versions = 200U + static_cast<unsigned>(r.below(kMaxV - 200U));
    // the history is fixed before: which region is added or removed by which step
    log.v.resize(versions + 1U);
    struct Step
    {
        int kind;
        std::uintptr_t a, b;
    };
    std::vector<Step> steps(versions + 1U);
    const unsigned cells = 2U + static_cast<unsigned>(r.below(8));
    const bool bursts = r.chance(50), alternate = r.chance(30);
    for (unsigned k = 1; k <= versions; ++k)
    {
        log.v[k] = log.v[k - 1U];
        const auto base = 0x10000U + 0x1000U * r.below(cells);
        auto i = log.v[k].find(base);
        if (r.below(100) == 0)
        {
            log.v[k].clear();
            steps[k] = {2, 0, 0};
        }
        else if (i != log.v[k].end())
        {
            log.v[k].erase(i);
            steps[k] = {1, base, 0};
        }
        else
        {
            // adjacent regions touch each other; sizes change from time to time
            const std::uintptr_t e = base + (alternate ? (k % 2U ? 0x1000U : 0x800U) : (r.chance(50) ? 0x1000U : 1U + r.below(0x1000U)));
            log.v[k][base] = e;
            steps[k] = {0, base, e};
        }
    }
    const unsigned readers = 1U + static_cast<unsigned>(r.below(5));
    std::atomic<bool> stop{false};
    std::atomic<unsigned> up{0};
    std::vector<std::thread> t;
    const auto seed = r.next();
    for (unsigned n = 0; n < readers; ++n)
    {
        t.emplace_back([&, n] {
            vh::Rng q{vh::comb(seed, n)};
            up.fetch_add(1);
            unsigned low = 0;
            std::uint64_t ambiguous = 0, many = 0, lookups = 0, h = 0;
            do
            {
                const auto c = 0x10000U + 0x1000U * q.below(cells + 1U);
                const std::uintptr_t p = q.chance(30) ? c : (q.chance(30) ? c - 1U : (q.chance(20) ? c + 0x800U : c + q.below(0x1001U)));
                const bool size = q.chance(10);
                const unsigned lo = std::max(low, log.done.load());
                Hit got;
                std::size_t sz = 0;
                if (size)
                {
                    sz = map.GetSize();
                }
                else
                {
                    got = conv(map.GetBoundsFromAddress(p));
                }
                const unsigned hi = log.begun.load();
                unsigned match = hi + 1U;
                for (unsigned k = lo; k <= hi; ++k)
                {
                    if (size ? log.v[k].size() == sz : model_lookup(log.v[k], p) == got)
                    {
                        match = k;
                        break;
                    }
                }
                VH_CHECK(match <= hi, "lookup-version", "a lookup of ", p, " gives ", size ? "a size" : (got ? "a region" : "nothing"), " that none of the versions ", lo, " to ", hi, " of the map has");
                many += hi > lo ? 1U : 0U;
                ambiguous += hi > lo + 3U ? 1U : 0U;
                h = vh::comb(h, (hi - lo) * 64U + (match - lo));
                low = match;
                ++lookups;
            } while (!stop.load());
            vh::count("lookups", lookups);
            vh::count("lookups_during_change", many);
            vh::count("lookups_over_many_changes", ambiguous);
            vh::eval(lookups);
            vh::distinct(h);
        });
    }
    while (up.load() < readers)
    {
        std::this_thread::yield();
    }
    for (unsigned k = 1; k <= versions; ++k)
    {
        log.begun.store(k);
        switch (steps[k].kind)
        {
            case 0: VH_CHECK(map.UpdateKnownRegion(steps[k].a, steps[k].b), "insert-refused", "a region was refused although it overlaps no other"); break;
            case 1: map.RemoveKnownRegion(steps[k].a); break;
            default: map.ClearKnownRegions(); break;
        }
        log.done.store(k);
        if (!bursts || k % 16U == 0)
        {
            vh::jitter(r, 40);
        }
    }
    stop.store(true);
    for (auto& x : t)
    {
        x.join();
    }
    VH_CHECK(map.GetSize() == log.v[versions].size(), "map-size", "the map has another size than the model in the end");
    for (unsigned c = 0; c <= cells; ++c)
    {
        for (std::uintptr_t p : {0x10000U + c * 0x1000U, 0x10000U + c * 0x1000U + 0x7ffU, 0x10000U + c * 0x1000U - 1U})
        {
            VH_CHECK(conv(map.GetBoundsFromAddress(p)) == model_lookup(log.v[versions], p), "lookup-final", "the lookup of an address differs from the model in the end");
        }
    }
    vh::count("versions", versions);
}
// overlapping regions are refused and leave no trace
void map_overlap(vh::Rng& r)
{
    sm::MemoryRegionMap map;
    Regions m;
    for (int k = 0; k < 300; ++k)
    {
        const std::uintptr_t a = 0x1000U + r.below(200), e = a + 1U + r.below(40);
        if (r.chance(40) && !m.empty())
        {
            auto i = m.begin();
            std::advance(i, static_cast<std::ptrdiff_t>(r.below(m.size())));
            map.RemoveKnownRegion(i->first);
            m.erase(i);
        }
        else if (m.count(a) == 0)
        {
            bool overlap = false;
            for (const auto& x : m)
            {
                overlap = overlap || (a < x.second && x.first < e);
            }
            VH_CHECK(map.UpdateKnownRegion(a, e) == !overlap, "overlap", "the region [", a, ", ", e, ") was ", overlap ? "accepted" : "refused");
            if (!overlap)
            {
                m[a] = e;
            }
            vh::count(overlap ? "overlaps" : "fits");
        }
        VH_CHECK(map.GetSize() == m.size(), "map-size", "the map holds ", map.GetSize(), " regions instead of ", m.size());
        for (int i = 0; i < 10; ++i)
        {
            const std::uintptr_t p = 0xff0U + r.below(280);
            VH_CHECK(conv(map.GetBoundsFromAddress(p)) == model_lookup(m, p), "lookup-model", "the lookup of ", p, " differs from the model");
        }
        vh::eval();
    }
}

// --------------------------------------------------------------------------------------------------------- registry
class Fake : public sm::ManagedMemoryResource
{
  public:
    Fake(std::uintptr_t a, std::uintptr_t b, bool bypass, std::uint64_t id) : a_{a}, b_{b}, bypass_{bypass}, proxy_{id} {}
    void* getBaseAddress() const noexcept override { return reinterpret_cast<void*>(a_); }
    void* getUsableBaseAddress() const noexcept override { return reinterpret_cast<void*>(a_); }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
    bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return bypass_; }
    std::uintptr_t a_, b_;
    bool bypass_;
    mutable std::atomic<unsigned> allocations{0}, frees{0};
    sm::MemoryResourceProxy proxy_;

  private:
    const void* getEndAddress() const noexcept override { return reinterpret_cast<const void*>(b_); }
    const sm::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return &proxy_; }
    void* do_allocate(const std::size_t, std::size_t) override
    {
        return reinterpret_cast<void*>(a_ + 16U * allocations.fetch_add(1));
    }
    void do_deallocate(void*, std::size_t, std::size_t) override { frees.fetch_add(1); }
    bool do_is_equal(const ::score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
void registry_run(vh::Rng& r)
{
    auto& reg = sm::MemoryResourceRegistry::getInstance();
    std::map<std::uint64_t, std::unique_ptr<Fake>> known;
    // the proxies of these resources are not inside of their regions
    (void)sm::MemoryResourceProxy::EnableBoundsChecking(false);
    for (int k = 0; k < 400; ++k)
    {
        const auto id = 1U + r.below(12);
        switch (r.below(8))
        {
            case 0:
            case 1:
            case 2:
            {
                const std::uintptr_t a = 0x100000U + 0x1000U * id + r.below(0x800U);
                auto f = std::make_unique<Fake>(a, a + 1U + r.below(0x7ffU), r.chance(20), id);
                const bool fresh = known.count(id) == 0;
                VH_CHECK(reg.insert_resource({id, f.get()}) == fresh, "registry-insert", "inserting a ", fresh ? "new" : "known", " identifier");
                if (fresh)
                {
                    known[id] = std::move(f);
                }
                break;
            }
            case 3:
            case 4:
                reg.remove_resource(id);
                known.erase(id);
                break;
            case 5:
                if (r.chance(10))
                {
                    reg.clear();
                    known.clear();
                }
                break;
            default:
            {
                auto i = known.find(id);
                VH_CHECK(reg.at(id) == (i == known.end() ? nullptr : i->second.get()), "registry-at", "at() of identifier ", id, " differs from the model");
                const auto b = reg.GetBoundsFromIdentifier(id);
                VH_CHECK(b.has_value() == (i != known.end()), "registry-bounds", "bounds of identifier ", id);
                if (b.has_value())
                {
                    VH_CHECK(b->GetStartAddress() == i->second->a_ && b->GetEndAddress() == i->second->b_, "registry-bounds", "wrong bounds of identifier ", id);
                    // allocation by proxy reaches this very resource
                    sm::PolymorphicOffsetPtrAllocator<char> al{*i->second};
                    const auto before = i->second->allocations.load();
                    auto* p = static_cast<char*>(al.getMemoryResourceProxy()->allocate(1, 1));
                    VH_CHECK(reinterpret_cast<std::uintptr_t>(p) == i->second->a_ + 16U * before, "proxy-resource", "an allocation by proxy went to another resource");
                    al.getMemoryResourceProxy()->deallocate(p, 1);
                    VH_CHECK(i->second->frees.load() == i->second->allocations.load(), "proxy-resource", "a deallocation by proxy went to another resource");
                }
                const std::uintptr_t p = 0x100000U + r.below(0x1000U * 14U);
                Hit want;
                for (const auto& x : known)
                {
                    if (!x.second->bypass_ && p >= x.second->a_ && p <= x.second->b_)
                    {
                        want = std::make_pair(x.second->a_, x.second->b_);
                    }
                }
                VH_CHECK(conv(reg.GetBoundsFromAddress(reinterpret_cast<void*>(p))) == want && conv(reg.GetBoundsFromAddressAsInteger(p)) == want, "registry-address", "lookup of an address differs from the model");
            }
        }
        vh::eval();
    }
    (void)sm::MemoryResourceProxy::EnableBoundsChecking(true);
    reg.clear();
    VH_CHECK(reg.at(1) == nullptr && !reg.GetBoundsFromAddress(reinterpret_cast<void*>(0x101000U)).has_value(), "registry-clear", "something is known after clear()");
    vh::count("registry_runs");
}
void registry_stress(vh::Rng& r)
{
    auto& reg = sm::MemoryResourceRegistry::getInstance();
    constexpr unsigned kT = 4;
    // owners publish what they have: an identifier is "in" as long as state is odd
    std::vector<std::unique_ptr<Fake>> res;
    std::array<std::atomic<unsigned>, kT> state{};
    for (unsigned i = 0; i < kT; ++i)
    {
        res.push_back(std::make_unique<Fake>(0x200000U + 0x1000U * i, 0x200000U + 0x1000U * i + 0xfffU, false, 100U + i));
    }
    std::vector<std::thread> t;
    const auto seed = r.next();
    for (unsigned n = 0; n < kT; ++n)
    {
        t.emplace_back([&, n] {
            vh::Rng q{vh::comb(seed, n)};
            for (int k = 0; k < 150; ++k)
            {
                VH_CHECK(reg.insert_resource({100U + n, res[n].get()}), "registry-insert", "inserting a new identifier fails");
                state[n].fetch_add(1);
                for (int i = 0; i < 6; ++i)
                {
                    VH_CHECK(reg.at(100U + n) == res[n].get(), "registry-own", "a registered resource is not found");
                    const auto b = conv(reg.GetBoundsFromAddressAsInteger(res[n]->a_ + q.below(0x1000U)));
                    VH_CHECK(b && b->first == res[n]->a_ && b->second == res[n]->b_, "registry-own", "the region of a registered resource is not found");
                    // somebody else's
                    const auto o = static_cast<unsigned>(q.below(kT));
                    const auto s1 = state[o].load();
                    auto* p = reg.at(100U + o);
                    const auto c = conv(reg.GetBoundsFromAddressAsInteger(res[o]->a_));
                    const auto s2 = state[o].load();
                    VH_CHECK(p == nullptr || p == res[o].get(), "registry-other", "at() gives a foreign resource");
                    VH_CHECK(!c || (c->first == res[o]->a_ && c->second == res[o]->b_), "registry-other", "the lookup of an address gives a foreign region");
                    if (s1 == s2 && s1 % 2U == 1U)
                    {
                        VH_CHECK(p != nullptr && c, "registry-other", "a resource that was registered all the time is not found");
                        vh::count("stable_lookups");
                    }
                    vh::eval();
                }
                state[n].fetch_add(1);
                reg.remove_resource(100U + n);
                VH_CHECK(reg.at(100U + n) == nullptr && !conv(reg.GetBoundsFromAddressAsInteger(res[n]->a_)), "registry-removed", "a removed resource is still found");
            }
        });
    }
    for (auto& x : t)
    {
        x.join();
    }
}

// ------------------------------------------------------------------------------------------------- real shared memory
void real_run(vh::Rng& r)
{
    using F = sm::SharedMemoryFactory;
    auto& reg = sm::MemoryResourceRegistry::getInstance();
    struct Obj
    {
        std::shared_ptr<sm::ISharedMemoryResource> res;
        std::string path;
        bool removed{false};
        std::uintptr_t base{0};
    };
    std::vector<Obj> live;
    std::set<std::string> files;
    auto path = [&] { return "/vh_reg_" + std::to_string(r.below(6)); };
    auto named = [&](const std::string& p) -> Obj* {
        for (auto& o : live)
        {
            if (o.path == p && !o.removed)
            {
                return &o;
            }
        }
        return nullptr;
    };
    auto any = [&](const std::string& p) {
        for (auto& o : live)
        {
            if (o.path == p)
            {
                return true;
            }
        }
        return false;
    };
    for (int k = 0; k < 150; ++k)
    {
        const auto p = path();
        switch (r.below(6))
        {
            case 0:
            case 1:
            {
                if (any(p) && named(p) == nullptr)
                {
                    break;  // the same path must not be created again as long as the removed one lives
                }
                const auto size = 100U + r.below(5000);
                auto s = F::Create(p, [](std::shared_ptr<sm::ISharedMemoryResource>) {}, size, F::WorldReadable{});
                VH_CHECK((s != nullptr) == (files.count(p) == 0 && named(p) == nullptr), "create", "creating ", p, s ? " succeeds" : " fails");
                if (s)
                {
                    files.insert(p);
                    live.push_back({s, p, false, reinterpret_cast<std::uintptr_t>(s->getBaseAddress())});
                }
                break;
            }
            case 2:
            {
                // this fails if the object was unlinked, also while a removed one of this name is still in use
                if (any(p) && named(p) == nullptr && files.count(p) != 0)
                {
                    break;
                }
                auto* o = named(p);
                auto s = F::Open(p, true);
                VH_CHECK((s != nullptr) == (files.count(p) != 0 || o != nullptr), "open", "opening ", p, s ? " succeeds" : " fails");
                if (o != nullptr)
                {
                    VH_CHECK(s == o->res, "open-same", "opening an open object gives another resource");
                }
                else if (s)
                {
                    live.push_back({s, p, false, reinterpret_cast<std::uintptr_t>(s->getBaseAddress())});
                }
                else if (any(p))
                {
                    vh::count("failed_opens_beside_user");
                }
                break;
            }
            case 3:
                if (!live.empty())
                {
                    const auto i = r.below(live.size());
                    const auto base = live[i].base;
                    live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
                    const auto b = conv(reg.GetBoundsFromAddressAsInteger(base));
                    VH_CHECK(!b || b->first != base, "unmapped-known", "an unmapped region is still known");
                }
                break;
            case 4:
                if (auto* o = named(p))
                {
                    F::Remove(p);
                    o->removed = true;
                    files.erase(p);
                }
                break;
            default: break;
        }
        for (auto& o : live)
        {
            const auto b = conv(reg.GetBoundsFromAddressAsInteger(o.base + r.below(64)));
            VH_CHECK(b && b->first == o.base, "mapped-unknown", "the region of a resource that is in use is not known any more (", o.removed ? "removed" : "named", ")");
            sm::Vector<int> v{*o.res};
            if (o.res->GetUserAllocatedBytes() < 50U)
            {
                v.push_back(1);
                VH_CHECK(v[0] == 1, "mapped-alloc", "allocation by proxy");
            }
        }
        vh::eval();
    }
    live.clear();
    for (const auto& f : files)
    {
        F::RemoveStaleArtefacts(f);
    }
    vh::count("real_runs");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 3);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        verif::g_atomic_hook.store(&noise);
        for (int k = 0; k < 3; ++k)
        {
            map_run(r);
        }
        registry_stress(r);
        verif::g_atomic_hook.store(nullptr);
        map_overlap(r);
        registry_run(r);
        real_run(r);
    }
    vh::sample("histories of 200..3000 versions over 2..10 regions with 1..5 readers; registries of 12 identifiers; 6 shared memory objects created, opened, removed and dropped at random");
    vh::finish();
}
