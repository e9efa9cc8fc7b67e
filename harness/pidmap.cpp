// C16: which process an application id belongs to.
//  codec    a mapping entry's word against its definition
//  model    registrations compared with a map
//  race     threads and processes registering their applications at once
//  crash    a process that dies while it registers, started again
//  sync     one mutex per service instance, created once
#include "vh.h"
#include "verif_seam.h"
#include "score/memory/shared/polymorphic_offset_ptr_allocator.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.h"
#include "score/mw/com/impl/bindings/lola/rollback_synchronization.h"
#include "score/mw/com/impl/bindings/lola/skeleton_instance_identifier.h"

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <vector>
namespace lo = score::mw::com::impl::lola;
namespace sm = score::memory::shared;
using Entry = lo::ApplicationIdPidMappingEntry;
using St = Entry::MappingEntryStatus;
using Mapping = lo::ApplicationIdPidMapping<sm::PolymorphicOffsetPtrAllocator<Entry>>;
namespace
{
std::uint32_t any_id(vh::Rng& r)
{
    switch (r.below(5))
    {
        case 0: return static_cast<std::uint32_t>(r.below(4));
        case 1: return 0xFFFFFFFFU - static_cast<std::uint32_t>(r.below(4));
        case 2: return 1U << r.below(32);
        default: return static_cast<std::uint32_t>(r.next());
    }
}
void codec(vh::Rng& r, unsigned n)
{
    const St all[] = {St::kUnused, St::kUsed, St::kUpdating, St::kInvalid};
    Entry fresh{};
    VH_CHECK(fresh.GetStatusAndApplicationIdAtomic().first == St::kUnused, "codec", "a new entry is in use");
    std::map<Entry::key_type, std::pair<St, std::uint32_t>> seen;
    Entry e{};
    for (unsigned i = 0; i < n; ++i)
    {
        const St s = all[r.below(4)];
        const std::uint32_t id = any_id(r);
        const auto key = Entry::CreateKey(s, id);
        const auto ins = seen.emplace(key, std::make_pair(s, id));
        VH_CHECK(ins.first->second == std::make_pair(s, id), "codec", "one word for two different entries, application ", id);
        e.SetStatusAndApplicationIdAtomic(s, id);
        VH_CHECK(e.key_application_id_status_.load() == key, "codec", "an entry set to a status and application does not hold their word");
        const auto back = e.GetStatusAndApplicationIdAtomic();
        VH_CHECK(back.first == s && back.second == id, "codec", "application ", id, " status ", static_cast<int>(s), " reads back as ", back.second, " status ", static_cast<int>(back.first));
        Entry f{};
        f.key_application_id_status_.store(key);
        const auto b2 = f.GetStatusAndApplicationIdAtomic();
        VH_CHECK(b2.first == s && b2.second == id, "codec", "word does not decode");
        vh::distinct(key);
        vh::eval();
    }
    VH_CHECK(Entry::CreateKey(St::kUnused, 0U) == 0U, "codec", "zeroed memory is no unused entry");
}
struct Region
{
    std::shared_ptr<sm::ISharedMemoryResource> res;
    Mapping* map{};
    explicit Region(std::uint16_t n)
    {
        static int k = 0;
        const std::string p = "/vh_pidmap_" + std::to_string(::getpid()) + "_" + std::to_string(k++);
        res = sm::SharedMemoryFactory::Create(p, [&](std::shared_ptr<sm::ISharedMemoryResource> m) { map = m->construct<Mapping>(n, *m); }, 65536U,
                                              sm::SharedMemoryFactory::WorldWritable{});
        VH_NEED(res != nullptr);
        sm::SharedMemoryFactory::Remove(p);
    }
};
void model_run(vh::Rng& r)
{
    const std::uint16_t cap = static_cast<std::uint16_t>(r.chance(30) ? 50 : 1 + r.below(8));
    Region reg{cap};
    std::map<std::uint32_t, pid_t> m;
    std::vector<std::uint32_t> ids;
    for (unsigned i = 0; i < cap + 4U; ++i)
    {
        ids.push_back(any_id(r));
    }
    std::uint64_t h = cap;
    for (int i = 0; i < 300; ++i)
    {
        const std::uint32_t id = r.pick(ids);
        const pid_t pid = static_cast<pid_t>(1 + r.below(r.chance(50) ? 5 : 4000000));
        const auto got = reg.map->RegisterPid(id, pid);
        const auto it = m.find(id);
        if (it != m.end())
        {
            VH_CHECK(got.has_value() && got.value() == it->second, "previous", "application ", id, " registered as ", it->second, " before, now told ", got.value_or(-1));
            it->second = pid;
            vh::count("again");
        }
        else if (m.size() < cap)
        {
            VH_CHECK(got.has_value() && got.value() == pid, "first", "first registration of application ", id, " as ", pid, " returns ", got.value_or(-1));
            m.emplace(id, pid);
        }
        else
        {
            VH_CHECK(!got.has_value(), "full", "application ", id, " registered although all ", cap, " places are taken");
            vh::count("full");
        }
        h = vh::comb(h, static_cast<std::uint64_t>(got.value_or(-1)));
        vh::eval();
    }
    vh::distinct(h);
    vh::count("model_runs");
}
struct Board
{
    std::atomic<unsigned> ready, got, refused;
};
void registrant(Mapping& map, Board& b, std::uint32_t id, std::uint64_t seed, bool last_word, bool must)
{
    vh::Rng r{seed};
    b.ready.fetch_sub(1);
    while (b.ready.load(std::memory_order_relaxed) != 0U)
    {
    }
    pid_t mine = static_cast<pid_t>(1000000U + id * 1000U);
    const auto first = map.RegisterPid(id, mine);
    if (!first.has_value())
    {
        VH_CHECK(!must, "race", "application ", id, " is refused although there is room for everybody");
        b.refused.fetch_add(1);
        return;
    }
    VH_CHECK(first.value() == mine, "race", "first registration of ", id, " returns ", first.value());
    b.got.fetch_add(1);
    for (int i = 0; i < 50; ++i)
    {
        const pid_t next = mine + 1;
        const auto prev = map.RegisterPid(id, next);
        VH_CHECK(prev.has_value() && prev.value() == mine, "race", "application ", id, " registered as ", mine, " is told ", prev.value_or(-1));
        mine = next;
        vh::eval();
    }
    (void)last_word;
}
void race_run(vh::Rng& r, bool procs)
{
    const unsigned n = static_cast<unsigned>(2U + r.below(6));
    const std::uint16_t cap = static_cast<std::uint16_t>(1U + r.below(n + 3U));
    Region reg{cap};
    auto* b = vh::shared<Board>();
    b->ready.store(n);
    std::vector<std::uint64_t> seeds;
    std::set<std::uint32_t> used;
    std::vector<std::uint32_t> ids;
    while (ids.size() < n)
    {
        const std::uint32_t id = static_cast<std::uint32_t>(r.below(1000));
        if (used.insert(id).second)
        {
            ids.push_back(id);
            seeds.push_back(r.next());
        }
    }
    if (procs)
    {
        std::vector<pid_t> kids;
        for (unsigned i = 0; i < n; ++i)
        {
            const pid_t p = ::fork();
            VH_NEED(p >= 0);
            if (p == 0)
            {
                registrant(*reg.map, *b, ids[i], seeds[i], true, cap >= n);
                ::_exit(0);
            }
            kids.push_back(p);
        }
        for (auto p : kids)
        {
            int s = 0;
            ::waitpid(p, &s, 0);
            if (WIFEXITED(s) && (WEXITSTATUS(s) == 66 || WEXITSTATUS(s) == 67))
            {
                ::_exit(WEXITSTATUS(s));
            }
            VH_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "abort", "a registering process ended with ", s);
        }
    }
    else
    {
        std::vector<std::thread> t;
        for (unsigned i = 0; i < n; ++i)
        {
            t.emplace_back([&, i]() { registrant(*reg.map, *b, ids[i], seeds[i], true, cap >= n); });
        }
        for (auto& x : t)
        {
            x.join();
        }
    }
    VH_CHECK(b->got.load() == std::min<unsigned>(n, cap), "race", n, " applications, ", cap, " places, ", b->got.load(), " registered");
    unsigned rest = 0;
    for (unsigned i = 0; i < cap + 2U; ++i)
    {
        rest += reg.map->RegisterPid(5000U + i, 1).has_value() ? 1U : 0U;
    }
    VH_CHECK(rest == cap - b->got.load(), "race", "after ", b->got.load(), " registrations ", rest, " of ", cap, " places are left");
    vh::distinct(vh::comb(n * 100U + cap, b->refused.load()));
    vh::count(procs ? "race_process_runs" : "race_thread_runs");
    vh::count("refused", b->refused.load());
    ::munmap(b, sizeof *b);
}
unsigned g_die_at = 0, g_point = 0;
void die(int, const char*, const void*)
{
    if (++g_point == g_die_at)
    {
        ::_exit(5);
    }
}
void crash_run(vh::Rng& r)
{
    const std::uint16_t cap = static_cast<std::uint16_t>(1U + r.below(6));
    Region reg{cap};
    std::map<std::uint32_t, pid_t> m;
    const unsigned others = static_cast<unsigned>(r.below(cap));
    for (unsigned i = 0; i < others; ++i)
    {
        VH_CHECK(reg.map->RegisterPid(100U + i, static_cast<pid_t>(10U + i)).has_value(), "first", "no room");
        m[100U + i] = static_cast<pid_t>(10U + i);
    }
    const std::uint32_t id = static_cast<std::uint32_t>(r.below(3));
    std::set<pid_t> possible;  // what the application may have been registered as, 0: not at all
    possible.insert(0);
    const unsigned lives = static_cast<unsigned>(1U + r.below(4));
    for (unsigned life = 0; life < lives; ++life)
    {
        g_point = 0;
        g_die_at = static_cast<unsigned>(1U + r.below(4U * cap + 8U));
        const pid_t pid = static_cast<pid_t>(2000U + life);
        const auto c = vh::run_child([&]() {
            verif::g_atomic_hook.store(&die);
            const auto got = reg.map->RegisterPid(id, pid);
            VH_CHECK(got.has_value(), "crash", "an application which died while registering is refused");
            VH_CHECK(got.value() == pid || possible.count(got.value()) != 0U, "crash", "told about a predecessor ", got.value(), " which never was");
        });
        if (c.code != 5)
        {
            vh::relay(c);
        }
        VH_CHECK(c.exited && (c.code == 0 || c.code == 5), "abort", "the registering process ended with code ", c.code, " signal ", c.sig);
        possible.insert(pid);
        vh::count(c.code == 5 ? "deaths" : "ends");
        vh::distinct(vh::comb(vh::comb(cap, others), vh::comb(g_die_at, life)));
    }
    const auto got = reg.map->RegisterPid(id, 3000);
    VH_CHECK(got.has_value() && (got.value() == 3000 || (got.value() != 0 && possible.count(got.value()) != 0U)), "crash", "after ", lives, " deaths told ", got.value_or(-1));
    const auto again = reg.map->RegisterPid(id, 3001);
    VH_CHECK(again.has_value() && again.value() == 3000, "crash", "registered as 3000 but told ", again.value_or(-1));
    for (auto& o : m)
    {
        const auto g = reg.map->RegisterPid(o.first, 1);
        VH_CHECK(g.has_value() && g.value() == o.second, "crash", "somebody else's registration ", o.second, " became ", g.value_or(-1));
    }
    unsigned rest = 0;
    for (unsigned i = 0; i < cap + 2U; ++i)
    {
        rest += reg.map->RegisterPid(5000U + i, 1).has_value() ? 1U : 0U;
    }
    VH_CHECK(rest + others + 1U == cap, "crash", rest, " places left of ", cap, " with ", others + 1U, " applications");
    vh::count("crash_runs");
    vh::eval();
}
void sync_run(vh::Rng& r)
{
    const unsigned threads = static_cast<unsigned>(2U + r.below(4)), ids = static_cast<unsigned>(1U + r.below(40));
    lo::RollbackSynchronization sync;
    std::vector<std::atomic<unsigned>> created(ids);
    std::vector<std::atomic<std::mutex*>> first(ids);
    std::vector<int> guarded(ids, 0);
    std::atomic<unsigned> go{threads};
    std::vector<std::thread> t;
    std::vector<std::uint64_t> seeds;
    for (unsigned i = 0; i < threads; ++i)
    {
        seeds.push_back(r.next());
    }
    for (unsigned k = 0; k < threads; ++k)
    {
        t.emplace_back([&, k]() {
            vh::Rng tr{seeds[k]};
            go.fetch_sub(1);
            while (go.load(std::memory_order_relaxed) != 0U)
            {
            }
            for (unsigned i = 0; i < 3U * ids; ++i)
            {
                const unsigned id = static_cast<unsigned>(i < ids ? i : tr.below(ids));
                auto [mu, existed] = sync.GetMutex({static_cast<std::uint16_t>(id % 5U), static_cast<std::uint16_t>(id / 5U)});
                if (!existed)
                {
                    created[id].fetch_add(1, std::memory_order_relaxed);
                }
                std::mutex* none = nullptr;
                if (!first[id].compare_exchange_strong(none, &mu, std::memory_order_relaxed))
                {
                    VH_CHECK(none == &mu, "sync", "two mutexes for one service instance");
                }
                const std::lock_guard<std::mutex> l{mu};
                ++guarded[id];
                vh::eval();
            }
        });
    }
    for (auto& x : t)
    {
        x.join();
    }
    std::set<std::mutex*> all;
    for (unsigned i = 0; i < ids; ++i)
    {
        VH_CHECK(created[i].load() == 1U, "sync", "the mutex of a service instance is created ", created[i].load(), " times");
        VH_CHECK(all.insert(first[i].load()).second, "sync", "one mutex for two service instances");
    }
    vh::distinct(vh::comb(threads, ids));
    vh::count("sync_runs");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed() * 0x9E3779B97F4A7C15ULL + 0xC16U};
    const unsigned scale = static_cast<unsigned>(vh::arg("scale", 8));
    const std::string only = vh::sarg("only", "");
    auto want = [&](const char* n) { return only.empty() || only == n; };
    if (want("codec"))
    {
        codec(r, 500U * scale);
    }
    for (unsigned i = 0; want("model") && i < 6U * scale; ++i)
    {
        model_run(r);
    }
    for (unsigned i = 0; want("crash") && i < 4U * scale; ++i)
    {
        crash_run(r);
    }
    for (unsigned i = 0; want("race") && i < 6U * scale; ++i)
    {
        race_run(r, i % 2U == 0U);
    }
    for (unsigned i = 0; want("sync") && i < 2U * scale; ++i)
    {
        sync_run(r);
    }
    vh::finish();
    return 0;
}
