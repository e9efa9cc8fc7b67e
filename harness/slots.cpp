// C12: the slots of an event in shared memory.
//  codec     EventSlotStatus against its definition
//  model     one thread, random operations on provider and consumers, compared with an exact model
//  threads   a provider and consumers of both quality levels at once: a slot in use is never overwritten, order, completeness
//  procs     the same with the consumers in processes of their own
//  crash     provider killed anywhere: what it leaves behind is usable for the next provider
#include "vh.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/sample_allocatee_ptr.h"
#include "score/mw/com/impl/bindings/lola/sample_ptr.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_set.h"

#include <algorithm>
#include <deque>
#include <memory>
#include <optional>
#include <thread>
#include <vector>
namespace lo = score::mw::com::impl::lola;
namespace sm = score::memory::shared;
using Status = lo::EventSlotStatus;
using Ts = Status::EventTimeStamp;
using Slot = lo::SlotIndexType;
using Provider = lo::ProviderEventDataControlLocalView<>;
using Consumer = lo::ConsumerEventDataControlLocalView<>;
using Composite = lo::EventDataControlComposite<>;
namespace
{
// ---------------------------------------------------------------------------------------------------------------- codec
void codec(vh::Rng& r, unsigned n)
{
    auto any = [&r]() -> std::uint32_t {
        switch (r.below(5))
        {
            case 0: return static_cast<std::uint32_t>(r.below(4));
            case 1: return 0xFFFFFFFFU - static_cast<std::uint32_t>(r.below(4));
            case 2: return 1U << r.below(32);
            default: return static_cast<std::uint32_t>(r.next());
        }
    };
    for (unsigned i = 0; i < n; ++i)
    {
        const std::uint32_t ts = any(), rc = any();
        Status s{ts, rc};
        const bool special_ts = ts == 0U;
        VH_CHECK(s.GetTimeStamp() == ts && s.GetReferenceCount() == rc, "codec", "status of (", ts, ",", rc, ") reads back as (", s.GetTimeStamp(), ",", s.GetReferenceCount(), ")");
        Status copy{static_cast<Status::value_type>(static_cast<const Status&>(s))};
        VH_CHECK(copy.GetTimeStamp() == ts && copy.GetReferenceCount() == rc, "codec", "value of a status does not make the same status");
        VH_CHECK(!(s.IsInWriting() && s.IsInvalid()), "codec", "status both in writing and invalid");
        if (!special_ts)
        {
            VH_CHECK(!s.IsInvalid() && !s.IsInWriting(), "codec", "a published slot (", ts, ",", rc, ") reads as in writing or invalid");
            VH_CHECK(s.IsUsed() == (rc != 0U), "codec", "IsUsed of (", ts, ",", rc, ") is ", s.IsUsed());
        }
        const std::uint32_t lo_ = any(), hi = any();
        const bool between = !s.IsInvalid() && !s.IsInWriting() && ts > lo_ && ts < hi;
        VH_CHECK(s.IsTimeStampBetween(lo_, hi) == between, "codec", "IsTimeStampBetween(", lo_, ",", hi, ") of ", ts, " is ", !between);
        Status t = s;
        const std::uint32_t ts2 = any(), rc2 = any();
        t.SetReferenceCount(rc2);
        VH_CHECK(t.GetTimeStamp() == ts && t.GetReferenceCount() == rc2, "codec", "setting the reference count ", rc2, " of (", ts, ",", rc, ") gives (", t.GetTimeStamp(), ",", t.GetReferenceCount(), ")");
        t.SetTimeStamp(ts2);
        VH_CHECK(t.GetTimeStamp() == ts2, "codec", "setting the time stamp ", ts2, " gives ", t.GetTimeStamp());
        Status w = s;
        w.MarkInWriting();
        VH_CHECK(w.IsInWriting() && !w.IsInvalid() && w.IsUsed() && !w.IsTimeStampBetween(0U, Status::TIMESTAMP_MAX), "codec", "a slot marked in writing does not read so");
        w.MarkInvalid();
        VH_CHECK(w.IsInvalid() && !w.IsInWriting() && !w.IsUsed() && !w.IsTimeStampBetween(0U, Status::TIMESTAMP_MAX), "codec", "a slot marked invalid does not read so");
        VH_CHECK(Status{}.IsInvalid(), "codec", "a fresh status is not invalid");
        // reference counting is done on the raw value
        if (rc < 0xFFFFFFFEU && ts != 0U)
        {
            Status u{static_cast<Status::value_type>(static_cast<const Status&>(s)) + 1U};
            VH_CHECK(u.GetTimeStamp() == ts && u.GetReferenceCount() == rc + 1U, "codec", "adding one to the value does not add one reference");
        }
        vh::eval();
    }
    vh::count("codec", n);
}
// ---------------------------------------------------------------------------------------------------------------- setup
struct Region
{
    std::shared_ptr<sm::ISharedMemoryResource> res;
    lo::EventControl* qm{};
    lo::EventControl* b{};
    Region(Slot slots, std::uint8_t subs, bool with_b)
    {
        static int n = 0;
        const std::string p = "/vh_slots_" + std::to_string(::getpid()) + "_" + std::to_string(n++);
        res = sm::SharedMemoryFactory::Create(p, [&](std::shared_ptr<sm::ISharedMemoryResource> m) {
            qm = m->construct<lo::EventControl>(slots, subs, true, *m);
            if (with_b)
            {
                b = m->construct<lo::EventControl>(slots, subs, true, *m);
            }
        }, 65536U + static_cast<std::size_t>(slots) * 64U * (subs + 2U), sm::SharedMemoryFactory::WorldWritable{});
        VH_NEED(res != nullptr);
        sm::SharedMemoryFactory::Remove(p);
    }
};
struct View
{
    Consumer view;
    lo::TransactionLogRegistrationGuard guard;
    View(lo::EventControl& c, lo::TransactionLogId id) : view{c.data_control}, guard{std::move(c.transaction_log_set_.RegisterProxyElement(id, view)).value()} {}
};
using Ptr = lo::SamplePtr<std::uint64_t>;
using Alloc = lo::SampleAllocateePtr<std::uint64_t>;
// ---------------------------------------------------------------------------------------------------------------- model
struct MSlot
{
    enum
    {
        invalid,
        writing,
        ready
    } st{invalid};
    Ts ts{0};
    unsigned rc{0};
    bool free() const { return st == invalid || (st == ready && rc == 0U); }
};
struct MConsumer
{
    std::unique_ptr<View> v;
    std::unique_ptr<lo::SlotCollector> col;
    bool b;
    Ts last{0};
    std::size_t max;
    struct Held
    {
        Slot s;
        Ts ts;
        Ptr p;
    };
    std::vector<Held> held;
};
void model_run(vh::Rng& r)
{
    const Slot slots = static_cast<Slot>(1U + r.below(r.chance(20) ? 40 : 7));
    const unsigned ncons = static_cast<unsigned>(r.below(5));
    const bool with_b = r.chance(50);
    const bool misbehave = with_b && r.chance(50);
    Region reg{slots, static_cast<std::uint8_t>(ncons + 1U), with_b};
    Provider pq{reg.qm->data_control};
    std::optional<Provider> pb;
    if (with_b)
    {
        pb.emplace(reg.b->data_control);
    }
    std::unique_ptr<Composite> comp = std::make_unique<Composite>(pq, with_b ? &*pb : nullptr);
    View* const svb = nullptr;
    (void)svb;
    std::vector<std::uint64_t> storage(slots);
    std::vector<MSlot> q(slots), bb(slots);
    bool disconnected = false;
    bool tampered = false;  // what is in the QM control is no longer what the provider put there
    Ts ts = r.chance(80) ? 0U : static_cast<Ts>(r.next() >> 36U);
    std::vector<MConsumer> cons;
    Consumer dummy{reg.qm->data_control};
    for (unsigned i = 0; i < ncons; ++i)
    {
        MConsumer c;
        c.b = with_b && r.chance(50);
        c.v = std::make_unique<View>(c.b ? *reg.b : *reg.qm, 10U + i);
        c.max = 1U + r.below(slots + 1U);
        c.col = std::make_unique<lo::SlotCollector>(c.v->view, c.max);
        cons.push_back(std::move(c));
    }
    struct InFlight
    {
        Slot s;
        Alloc p;
        bool qm;
    };
    std::vector<InFlight> fly;
    std::uint64_t h = vh::comb(slots, ncons);
    auto& main = with_b ? bb : q;
    auto& pmain = with_b ? *pb : pq;
    auto same = [](const Status& s, const MSlot& m) {
        switch (m.st)
        {
            case MSlot::invalid: return s.IsInvalid();
            case MSlot::writing: return s.IsInWriting();
            default: return !s.IsInvalid() && !s.IsInWriting() && s.GetTimeStamp() == m.ts && s.GetReferenceCount() == m.rc;
        }
    };
    auto compare = [&](const char* after) {
        for (Slot s = 0; s < slots; ++s)
        {
            if (!tampered)
            {
                VH_CHECK(same(pq[s], q[s]), "state", "after ", after, " slot ", s, " (QM) is (", pq[s].GetTimeStamp(), ",", pq[s].GetReferenceCount(), ") instead of (", q[s].ts, ",", q[s].rc, ") state ", static_cast<int>(q[s].st));
            }
            if (with_b)
            {
                VH_CHECK(same((*pb)[s], bb[s]), "state", "after ", after, " slot ", s, " (B) is (", (*pb)[s].GetTimeStamp(), ",", (*pb)[s].GetReferenceCount(), ") instead of (", bb[s].ts, ",", bb[s].rc, ") state ", static_cast<int>(bb[s].st));
            }
        }
        Ts latest = 0;
        for (auto& m : main)
        {
            latest = m.st == MSlot::ready ? std::max(latest, m.ts) : latest;
        }
        VH_CHECK(comp->GetLatestTimestamp() == latest, "latest", "latest time stamp ", comp->GetLatestTimestamp(), " instead of ", latest);
        vh::eval();
    };
    const unsigned ops = 30U + static_cast<unsigned>(r.below(120));
    for (unsigned op = 0; op < ops; ++op)
    {
        const auto kind = r.below(100);
        h = vh::comb(h, kind / 4U);
        if (kind < 34)
        {
            // allocate
            bool joint = false, any = false;
            Ts oldest_joint = 0xFFFFFFFFU, oldest = 0xFFFFFFFFU;
            for (Slot s = 0; s < slots; ++s)
            {
                const Ts t = main[s].st == MSlot::ready ? main[s].ts : 0U;
                if (main[s].free())
                {
                    any = true;
                    oldest = std::min(oldest, t);
                    if (!with_b || q[s].free())
                    {
                        joint = true;
                        oldest_joint = std::min(oldest_joint, t);
                    }
                }
            }
            const auto got = comp->AllocateNextSlot();
            if (!with_b)
            {
                VH_CHECK(!got.qm_misbehaved, "disconnect", "QM reported as misbehaving without ASIL-B");
            }
            else if (!tampered)
            {
                const bool expect = disconnected || !joint;
                VH_CHECK(got.qm_misbehaved == expect && comp->IsQmControlDisconnected() == expect, "disconnect", "QM consumers ", got.qm_misbehaved ? "" : "not ", "disconnected, a slot free for both existed: ", joint);
                disconnected = expect;
            }
            else
            {
                VH_CHECK(got.qm_misbehaved == comp->IsQmControlDisconnected() && (got.qm_misbehaved || !disconnected), "disconnect", "QM disconnect state is inconsistent");
                disconnected = got.qm_misbehaved;
            }
            VH_CHECK(got.allocated_slot_index.has_value() == any, "allocate", "allocation ", got.allocated_slot_index.has_value() ? "succeeded" : "failed", " though a free slot ", any ? "existed" : "did not exist");
            if (any)
            {
                const Slot s = *got.allocated_slot_index;
                VH_CHECK(s < slots && main[s].free(), "allocate", "slot ", s, " was allocated while in use");
                const Ts t = main[s].st == MSlot::ready ? main[s].ts : 0U;
                const bool qm_too = !with_b || !disconnected;
                if (!tampered)
                {
                    VH_CHECK(!qm_too || q[s].free(), "allocate", "slot ", s, " was allocated while in use by QM");
                    VH_CHECK(t == (qm_too ? oldest_joint : oldest), "oldest", "slot of time stamp ", t, " was taken instead of the oldest ", qm_too ? oldest_joint : oldest);
                }
                main[s].st = MSlot::writing;
                if (qm_too)
                {
                    q[s].st = MSlot::writing;
                }
                storage[s] = 0;
                fly.push_back({s, Alloc{&storage[s], *comp, dummy, s}, qm_too});
                vh::count("allocated");
            }
            else
            {
                vh::count("exhausted");
            }
            compare("allocate");
        }
        else if (kind < 60 && !fly.empty())
        {
            // publish, or give up, one of those in work
            const auto i = r.below(fly.size());
            InFlight f = std::move(fly[i]);
            fly.erase(fly.begin() + static_cast<long>(i));
            VH_CHECK(f.p.get() == &storage[f.s] && f.p.GetReferencedSlot() == f.s, "allocatee", "moved sample pointer lost its sample");
            if (r.chance(75))
            {
                ++ts;
                storage[f.s] = ts;
                comp->EventReady(f.s, ts);
                main[f.s] = {MSlot::ready, ts, 0U};
                if (with_b && !disconnected)
                {
                    q[f.s] = {MSlot::ready, ts, 0U};
                }
                VH_CHECK(comp->GetEventSlotTimestamp(f.s) == ts, "latest", "time stamp of a slot just published is wrong");
                {
                    Alloc gone{std::move(f.p)};  // a published sample stays published when its pointer goes
                }
                compare("publish");
                vh::count("published");
            }
            else
            {
                switch (r.below(3))
                {
                    case 0: f.p = nullptr; break;
                    case 1: f.p.reset(); break;
                    default:
                    {
                        Alloc other{};
                        swap(other, f.p);
                        break;
                    }
                }
                main[f.s] = {};
                if (with_b && !disconnected)
                {
                    q[f.s] = {};
                }
                compare("discard");
                vh::count("discarded");
            }
        }
        else if (kind < 85 && !cons.empty())
        {
            auto& c = cons[r.below(cons.size())];
            if (!c.b && tampered)
            {
                continue;
            }
            auto& m = c.b ? bb : q;
            std::vector<std::pair<Ts, Slot>> news;
            for (Slot s = 0; s < slots; ++s)
            {
                if (m[s].st == MSlot::ready && m[s].ts > c.last)
                {
                    news.push_back({m[s].ts, s});
                }
            }
            std::sort(news.begin(), news.end());
            VH_CHECK(c.col->GetNumNewSamplesAvailable() == news.size(), "count", "number of new samples is ", c.col->GetNumNewSamplesAvailable(), " instead of ", news.size());
            const std::size_t want = r.below(slots + 2U);
            const std::size_t n = std::min({want, c.max, news.size()});
            auto got = c.col->GetNewSamplesSlotIndices(want);
            std::vector<Slot> v{got.begin, got.end};
            VH_CHECK(v.size() == n, "collect", "got ", v.size(), " samples instead of ", n, " (asked ", want, ", limit ", c.max, ", new ", news.size(), ")");
            for (std::size_t i = 0; i < n; ++i)
            {
                const auto& e = news[news.size() - n + i];
                VH_CHECK(v[i] == e.second, "collect", "sample ", i, " of ", n, " is slot ", v[i], " (", pmain[v[i]].GetTimeStamp(), ") instead of ", e.second, " (", e.first, ")");
                ++m[v[i]].rc;
                c.held.push_back({v[i], e.first, Ptr{&storage[v[i]], c.v->view, v[i]}});
            }
            if (n != 0U)
            {
                c.last = news.back().first;
            }
            compare("collect");
            vh::count("collected", n);
        }
        else if (kind < 95 && !cons.empty())
        {
            auto& c = cons[r.below(cons.size())];
            if (c.held.empty() || (!c.b && tampered))
            {
                continue;
            }
            const auto i = r.below(c.held.size());
            auto x = std::move(c.held[i]);
            c.held.erase(c.held.begin() + static_cast<long>(i));
            if (!with_b || !disconnected || c.b)
            {
                VH_CHECK(x.p.get() == &storage[x.s] && *x.p == x.ts, "payload", "sample of time stamp ", x.ts, " reads ", *x.p);
            }
            switch (r.below(4))
            {
                case 0: x.p = nullptr; break;
                case 1: x.p = Ptr{}; break;
                case 2:
                {
                    Ptr y{std::move(x.p)};
                    Ptr z;
                    z = std::move(y);
                    break;
                }
                default: { Ptr y{std::move(x.p)}; }
            }
            --(c.b ? bb : q)[x.s].rc;
            compare("release");
            vh::count("released");
        }
        else if (kind < 97)
        {
            // the provider starts again: nothing stays in writing, all else is kept
            for (auto& f : fly)
            {
                (void)f;
            }
            pq.RemoveAllocationsForWriting();
            if (with_b)
            {
                pb->RemoveAllocationsForWriting();
            }
            for (auto& s : q)
            {
                s = s.st == MSlot::writing ? MSlot{} : s;
            }
            for (auto& s : bb)
            {
                s = s.st == MSlot::writing ? MSlot{} : s;
            }
            fly.clear();
            compare("restart");
            vh::count("restarts");
        }
        else if (misbehave)
        {
            // a QM process writes rubbish into its control: ASIL-B must not notice
            tampered = true;
            for (auto& s : reg.qm->data_control.state_slots_)
            {
                switch (r.below(6))
                {
                    case 0: s.store(static_cast<Status::value_type>(static_cast<const Status&>(Status{static_cast<Ts>(r.below(50)), 0U}))); break;
                    case 1: s.store(r.next()); break;
                    case 2: s.store(0U); break;
                    case 3: s.store(s.load() ^ (std::uint64_t{1} << r.below(64))); break;
                    default: break;
                }
            }
            for (auto& c : cons)
            {
                if (!c.b)
                {
                    for (auto& hh : c.held)
                    {
                        (void)new Ptr{std::move(hh.p)};
                    }
                    c.held.clear();
                }
            }
            compare("tampering");
            vh::count("tampered");
        }
    }
    fly.clear();
    for (auto& c : cons)
    {
        if (c.b || !tampered)
        {
            c.held.clear();
        }
    }
    for (Slot s = 0; s < slots; ++s)
    {
        VH_CHECK(pmain[s].IsInvalid() || (tampered && !with_b) || pmain[s].GetReferenceCount() == 0U, "leak", "slot ", s, " keeps ", pmain[s].GetReferenceCount(), " references after all samples were released");
    }
    if (tampered)
    {
        for (auto& c : cons)
        {
            if (!c.b)
            {
                (void)c.v.release();
            }
        }
    }
    else
    {
        for (auto& c : cons)
        {
            auto& log = (c.b ? reg.b : reg.qm)->transaction_log_set_.GetTransactionLog(c.v->guard.GetTransactionLogIndex());
            VH_CHECK(!lo::TransactionLogLocalView{log}.ContainsTransactions(), "leak", "transaction log not empty after all samples were released");
        }
    }
    vh::distinct(h);
    vh::count("model_runs");
}
// -------------------------------------------------------------------------------------------------------------- threads
#ifdef VH_TSAN
constexpr bool vh_tsan = true;  // a forked child cannot start threads
#else
constexpr bool vh_tsan = false;
#endif
constexpr unsigned kWords = 6U;
struct Shared
{
    std::uint64_t payload[64][kWords];
    std::uint64_t stamp[64];
    std::atomic<int> held[64];
    std::atomic<std::uint32_t> published;
    std::atomic<bool> stop;
    std::atomic<unsigned> ready;
    std::atomic<std::uint64_t> delivered, released, handed;
};
std::uint64_t word(Ts ts, unsigned i) { return vh::comb(ts, i); }
thread_local vh::Rng* t_rng = nullptr;
void delay(int, const char*, const void*)
{
    if (t_rng != nullptr)
    {
        vh::jitter(*t_rng, 3);
    }
}
std::optional<Slot> publish(Composite& comp, Shared& sh, Ts& ts, vh::Rng& r, bool must, bool qm_must)
{
    const auto a = comp.AllocateNextSlot();
    VH_CHECK(!a.qm_misbehaved || !qm_must, "disconnect", "QM consumers were disconnected though they behaved");
    if (!a.allocated_slot_index.has_value())
    {
        VH_CHECK(!must, "allocate", "no slot could be allocated though there are more slots than references");
        return {};
    }
    const Slot s = *a.allocated_slot_index;
    VH_CHECK(sh.held[s].load(std::memory_order_relaxed) == 0, "overwrite", "slot ", s, " was allocated for writing while ", sh.held[s].load(std::memory_order_relaxed), " consumers hold it");
    if (r.chance(10))
    {
        sh.payload[s][r.below(kWords)] = r.next();
        comp.Discard(s);
        vh::count("discarded_concurrently");
        return {};
    }
    ++ts;
    for (unsigned i = 0; i < kWords; ++i)
    {
        sh.payload[s][i] = word(ts, i);
    }
    sh.stamp[s] = ts;
    VH_CHECK(sh.held[s].load(std::memory_order_relaxed) == 0, "overwrite", "slot ", s, " was given out while in writing");
    comp.EventReady(s, ts);
    sh.published.store(ts, std::memory_order_relaxed);
    return s;
}
std::string dump(lo::TransactionLog& log)
{
    std::string o;
    for (std::size_t i = 0; i < log.reference_count_slots_.size(); ++i)
    {
        auto& s = log.reference_count_slots_.at(i);
        o += vh::str(" ", i, ":", s.GetTransactionBegin(), s.GetTransactionEnd());
    }
    return o;
}
void consume(lo::EventControl& ctl, Shared& sh, unsigned id, std::size_t max, std::uint64_t seed, std::uint64_t* hash, bool releaser)
{
    vh::Rng r{seed};
    t_rng = &r;
    View v{ctl, id};
    lo::SlotCollector col{v.view, max};
    struct Held
    {
        Slot s;
        Ts ts;
        Ptr p;
    };
    std::deque<Held> held;
    Ts last = 0;
    std::uint64_t h = id;
    auto check = [&](const Held& x) {
        for (unsigned i = 0; i < kWords; ++i)
        {
            VH_CHECK(sh.payload[x.s][i] == word(x.ts, i), "overwrite", "sample ", x.ts, " in slot ", x.s, " changed while it was held");
        }
        const auto st = v.view[x.s];
        VH_CHECK(st.GetTimeStamp() == x.ts && !st.IsInWriting() && st.GetReferenceCount() >= 1U && st.GetReferenceCount() <= 64U, "overwrite", "slot ", x.s, " of the held sample ", x.ts, " is now (", st.GetTimeStamp(), ",", st.GetReferenceCount(), ")");
    };
    // samples may be released by another thread than the one that received them
    std::mutex m;
    std::deque<Held> handed;
    std::atomic<bool> end{false};
    const bool direct = r.chance(30);
    const bool with_releaser = releaser && r.chance(60);
    std::thread rel;
    std::atomic<std::size_t> outside{0};
    if (with_releaser)
    {
        const auto rs = r.next();
        rel = std::thread{[&, rs] {
            vh::Rng rr{rs};
            t_rng = &rr;
            for (;;)
            {
                std::optional<Held> x;
                const bool last_look = end.load();
                {
                    std::lock_guard<std::mutex> l{m};
                    if (!handed.empty())
                    {
                        x.emplace(std::move(handed.front()));
                        handed.pop_front();
                    }
                }
                if (x.has_value())
                {
                    check(*x);
                    sh.held[x->s].fetch_sub(1, std::memory_order_relaxed);
                    x.reset();
                    outside.fetch_sub(1);
                    sh.released.fetch_add(1);
                    sh.handed.fetch_add(1);
                }
                else if (last_look)
                {
                    break;
                }
                else
                {
                    vh::jitter(rr, 80);
                }
            }
        }};
    }
    auto drop = [&](std::size_t i) {
        if (with_releaser && r.chance(50))
        {
            outside.fetch_add(1);
            std::lock_guard<std::mutex> l{m};
            handed.push_back(std::move(held[i]));
            held.erase(held.begin() + static_cast<long>(i));
            return;
        }
        check(held[i]);
        sh.held[held[i].s].fetch_sub(1, std::memory_order_relaxed);
        held.erase(held.begin() + static_cast<long>(i));
        sh.released.fetch_add(1);
    };
    sh.ready.fetch_add(1);
    std::size_t polls = 0;
    for (bool final = false;;)
    {
        if (sh.stop.load())
        {
            final = true;
            while (!held.empty())
            {
                drop(0);
            }
            while (outside.load() != 0U)
            {
                ::usleep(50);
            }
        }
        const auto upto = sh.published.load(std::memory_order_relaxed);
        const auto room = max - held.size() - outside.load();
        const auto n_new = col.GetNumNewSamplesAvailable();
        VH_CHECK(n_new <= v.view.GetMaxSampleSlots(), "count", "more new samples (", n_new, ") than slots");
        ++polls;
        Ts newest = last;
        if (direct)
        {
            // one sample at a time, found out about from its data alone
            std::optional<Slot> s;
            if (room != 0U)
            {
                s = v.view.ReferenceNextEvent(last);
            }
            if (s.has_value())
            {
                const auto ts = static_cast<Ts>(sh.stamp[*s]);
                VH_CHECK(ts > newest, "order", "sample ", ts, " was delivered after sample ", newest);
                newest = ts;
                sh.held[*s].fetch_add(1, std::memory_order_relaxed);
                for (unsigned i = 0; i < kWords; ++i)
                {
                    VH_CHECK(sh.payload[*s][i] == word(ts, i), "overwrite", "sample ", ts, " in slot ", *s, " is torn");
                }
                held.push_back({*s, ts, Ptr{&sh.payload[*s][0], v.view, *s}});
                h = vh::comb(h, ts);
                sh.delivered.fetch_add(1);
            }
        }
        auto got = direct ? lo::SlotCollector::SlotIndices{} : col.GetNewSamplesSlotIndices(room);
        for (auto i = got.begin; i != got.end; ++i)
        {
            const Slot s = *i;
            const Ts ts = v.view[s].GetTimeStamp();
            VH_CHECK(ts > newest, "order", "sample ", ts, " was delivered after sample ", newest);
            newest = ts;
            sh.held[s].fetch_add(1, std::memory_order_relaxed);
            held.push_back({s, ts, Ptr{&sh.payload[s][0], v.view, s}});
            check(held.back());
            h = vh::comb(h, ts);
            sh.delivered.fetch_add(1);
        }
        if (room != 0U)
        {
            VH_CHECK(newest >= upto || newest > last, "lost", "no new sample was delivered though sample ", upto, " was published and the newest delivered is ", last);
        }
        if (final)
        {
            VH_CHECK(newest == sh.published.load(), "lost", "last sample published is ", sh.published.load(), ", last delivered ", newest);
        }
        last = newest;
        if (final)
        {
            while (!held.empty())
            {
                drop(0);
            }
            if (with_releaser)
            {
                end.store(true);
                rel.join();
            }
            break;
        }
        while (!held.empty() && r.chance(60))
        {
            drop(r.below(held.size()));
        }
        if (held.size() + outside.load() >= max && !held.empty())
        {
            drop(r.below(held.size()));
        }
        vh::jitter(r, 10);
    }
    auto& log = ctl.transaction_log_set_.GetTransactionLog(v.guard.GetTransactionLogIndex());
    VH_CHECK(!lo::TransactionLogLocalView{log}.ContainsTransactions(), "leak", "transaction log not empty after all samples were released", dump(log), " subscription ", log.subscribe_transactions_.GetTransactionBegin(), log.subscribe_transactions_.GetTransactionEnd(), with_releaser ? " releaser" : "");
    *hash = h;
    t_rng = nullptr;
}
void concurrent_run(vh::Rng& r, bool procs)
{
    const bool with_b = r.chance(50);
    const unsigned n = 1U + static_cast<unsigned>(r.below(4));
    std::vector<std::size_t> max(n);
    std::size_t total = 0;
    for (auto& m : max)
    {
        m = 1U + r.below(4);
        total += m;
    }
    const Slot slots = static_cast<Slot>(total + 3U);
    Region reg{slots, static_cast<std::uint8_t>(n), with_b};
    auto* sh = vh::shared<Shared>();
    Provider pq{reg.qm->data_control};
    std::optional<Provider> pb;
    if (with_b)
    {
        pb.emplace(reg.b->data_control);
    }
    Composite comp{pq, with_b ? &*pb : nullptr};
    std::vector<bool> on_b(n);
    for (unsigned i = 0; i < n; ++i)
    {
        on_b[i] = with_b && r.chance(50);
    }
    const auto seed = r.next();
    std::uint64_t hash[8]{};
    auto body = [&](unsigned i) { consume(on_b[i] ? *reg.b : *reg.qm, *sh, 100U + i, max[i], vh::comb(seed, i), &hash[i], !procs || !vh_tsan); };
    auto produce = [&](vh::Rng& pr, unsigned rounds) {
        t_rng = &pr;
        while (sh->ready.load() < n)
        {
            ::usleep(100);
        }
        Ts ts = 0;
        for (unsigned i = 0; i < rounds; ++i)
        {
            (void)publish(comp, *sh, ts, pr, true, true);
            vh::jitter(pr, 15);
            vh::eval();
        }
        t_rng = nullptr;
        sh->stop.store(true);
    };
    vh::Rng pr{vh::comb(seed, 77)};
    const unsigned rounds = 150U + static_cast<unsigned>(r.below(250));
    if (!procs)
    {
        std::vector<std::thread> th;
        for (unsigned i = 0; i < n; ++i)
        {
            th.emplace_back(body, i);
        }
        produce(pr, rounds);
        for (auto& t : th)
        {
            t.join();
        }
        for (unsigned i = 0; i < n; ++i)
        {
            vh::distinct(hash[i]);
        }
        vh::count("thread_runs");
    }
    else
    {
        std::vector<pid_t> kids;
        for (unsigned i = 0; i < n; ++i)
        {
            const pid_t p = ::fork();
            VH_NEED(p >= 0);
            if (p == 0)
            {
                body(i);
                ::_exit(0);
            }
            kids.push_back(p);
        }
        produce(pr, rounds);
        for (auto p : kids)
        {
            int s = 0;
            ::waitpid(p, &s, 0);
            if (WIFEXITED(s) && (WEXITSTATUS(s) == 66 || WEXITSTATUS(s) == 67))
            {
                ::_exit(WEXITSTATUS(s));
            }
            VH_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "abort", "a consumer process ended with ", s);
        }
        vh::distinct(vh::comb(sh->delivered.load(), sh->released.load()));
        vh::count("process_runs");
    }
    vh::count("delivered", sh->delivered.load());
    vh::count("released_elsewhere", sh->handed.load());
    VH_CHECK(sh->delivered.load() == sh->released.load(), "leak", "delivered and released differ");
    for (Slot s = 0; s < slots; ++s)
    {
        VH_CHECK(pq[s].IsInvalid() || pq[s].GetReferenceCount() == 0U, "leak", "slot ", s, " keeps ", pq[s].GetReferenceCount(), " references");
        VH_CHECK(!with_b || (*pb)[s].IsInvalid() || (*pb)[s].GetReferenceCount() == 0U, "leak", "slot ", s, " (B) keeps references");
    }
    ::munmap(sh, sizeof *sh);
}
// ---------------------------------------------------------------------------------------------------------------- crash
unsigned g_die_at = 0;
unsigned g_point = 0;
void die(int, const char*, const void*)
{
    if (++g_point == g_die_at)
    {
        ::_exit(0);
    }
}
void crash_run(vh::Rng& r)
{
    const bool with_b = r.chance(80);
    const unsigned holders = static_cast<unsigned>(r.below(3));
    const Slot slots = static_cast<Slot>(holders + 2U + r.below(4));
    Region reg{slots, 4U, with_b};
    auto* sh = vh::shared<Shared>();
    std::vector<std::unique_ptr<View>> views;
    std::vector<Ptr> held;
    std::vector<std::pair<Slot, Ts>> held_at;
    Ts ts = 0;
    for (unsigned life = 0; life < 4U; ++life)
    {
        const bool by_signal = r.chance(60);
        g_point = 0;
        g_die_at = by_signal ? 0U : 1U + static_cast<unsigned>(r.below(60));
        const auto seed = r.next();
        const pid_t p = ::fork();
        VH_NEED(p >= 0);
        if (p == 0)
        {
            vh::Rng cr{seed};
            Provider pq{reg.qm->data_control};
            std::optional<Provider> pb;
            if (with_b)
            {
                pb.emplace(reg.b->data_control);
            }
            Composite comp{pq, with_b ? &*pb : nullptr};
            sh->ready.store(1);
            verif::g_atomic_hook.store(&die);
            Ts t = ts;
            for (unsigned i = 0; i < 100000000U; ++i)
            {
                (void)publish(comp, *sh, t, cr, true, true);
            }
            ::_exit(0);
        }
        if (by_signal)
        {
            while (sh->ready.load() == 0U && ::waitpid(p, nullptr, WNOHANG) == 0)
            {
            }
            for (volatile unsigned i = 0; i < r.below(60000); i = i + 1)
            {
            }
            ::kill(p, SIGKILL);
        }
        int st = 0;
        if (::waitpid(p, &st, 0) == p)
        {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 67))
            {
                ::_exit(WEXITSTATUS(st));
            }
            VH_CHECK((WIFEXITED(st) && WEXITSTATUS(st) == 0) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL), "abort", "provider ", life, " after a crash of the one before ended with ", st);
        }
        sh->ready.store(0);
        vh::count(by_signal ? "kills" : "crash_points");
        // the next provider
        Provider pq{reg.qm->data_control};
        std::optional<Provider> pb;
        std::vector<Status> before;
        pq.RemoveAllocationsForWriting();
        if (with_b)
        {
            pb.emplace(reg.b->data_control);
            pb->RemoveAllocationsForWriting();
        }
        for (Slot s = 0; s < slots; ++s)
        {
            VH_CHECK(!pq[s].IsInWriting() && (!with_b || !(*pb)[s].IsInWriting()), "restart", "slot ", s, " is still in writing after the clean-up");
        }
        for (auto& x : held_at)
        {
            const auto s = (with_b ? *pb : pq)[x.first];
            VH_CHECK(s.GetTimeStamp() == x.second && s.GetReferenceCount() == 1U, "overwrite", "sample ", x.second, " held over the crash was overwritten");
            VH_CHECK(sh->payload[x.first][0] == word(x.second, 0U), "overwrite", "data of sample ", x.second, " held over the crash was overwritten");
        }
        Composite comp{pq, with_b ? &*pb : nullptr};
        ts = comp.GetLatestTimestamp();
        const auto first = ts;
        vh::count(vh::str("states_", with_b));
        std::uint64_t h = slots;
        for (Slot s = 0; s < slots; ++s)
        {
            h = vh::comb(h, vh::comb((pq[s].IsInvalid() ? 0U : first + 1U - pq[s].GetTimeStamp()), with_b ? ((*pb)[s].IsInvalid() ? 0U : first + 1U - (*pb)[s].GetTimeStamp()) : 7U));
            if (with_b && pq[s].GetTimeStamp() != (*pb)[s].GetTimeStamp())
            {
                vh::count("left_apart");
            }
        }
        vh::distinct(h);
        vh::Rng pr{r.next()};
        std::optional<Slot> last;
        for (unsigned i = 0; i < 3U * slots; ++i)
        {
            const auto s = publish(comp, *sh, ts, pr, true, true);
            last = s.has_value() ? s : last;
            vh::eval();
        }
        if (last.has_value() && ts != first)
        {
            // seen by consumers of either level
            for (auto* c : {reg.qm, with_b ? reg.b : reg.qm})
            {
                View v{*c, 5U};
                lo::SlotCollector col{v.view, 1U};
                auto g = col.GetNewSamplesSlotIndices(1U);
                VH_CHECK(g.begin != g.end && v.view[*g.begin].GetTimeStamp() == ts, "restart", "the newest sample of the restarted provider is not delivered");
                v.view.DereferenceEvent(*g.begin);
            }
        }
        if (held.size() < holders)
        {
            auto v = std::make_unique<View>(with_b ? *reg.b : *reg.qm, 20U + static_cast<unsigned>(held.size()));
            lo::SlotCollector col{v->view, 1U};
            auto g = col.GetNewSamplesSlotIndices(1U);
            if (g.begin != g.end)
            {
                const auto t = v->view[*g.begin].GetTimeStamp();
                bool fresh = true;
                for (auto& x : held_at)
                {
                    fresh = fresh && x.first != *g.begin;
                }
                if (fresh)
                {
                    held_at.push_back({*g.begin, t});
                    held.push_back(Ptr{&sh->payload[*g.begin][0], v->view, *g.begin});
                    views.push_back(std::move(v));
                }
                else
                {
                    v->view.DereferenceEvent(*g.begin);
                }
            }
        }
    }
    held.clear();
    views.clear();
    ::munmap(sh, sizeof *sh);
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::comb(vh::seed(), 12)};
    const auto scale = static_cast<unsigned>(vh::arg("scale", 1));
    const auto only = vh::sarg("only", "");
    codec(r, 3000U * scale);
    for (unsigned i = 0; only.empty() && i < 60U * scale; ++i)
    {
        model_run(r);
    }
    verif::g_atomic_hook.store(&delay);
    for (unsigned i = 0; only != "procs" && i < 10U * scale; ++i)
    {
        concurrent_run(r, false);
    }
    for (unsigned i = 0; only != "threads" && i < 4U * scale; ++i)
    {
        concurrent_run(r, true);
    }
    verif::g_atomic_hook.store(nullptr);
    for (unsigned i = 0; only.empty() && i < 12U * scale; ++i)
    {
        crash_run(r);
    }
    vh::finish();
}
