// C15: what a consumer process leaves behind when it dies is given back by its successor, exactly.
//  slot     TransactionLogSlot and TransactionLogLocalView against their definition
//  model    a set of logs, random owners, transactions broken off anywhere, rollbacks, compared with an exact model
//  claim    logs claimed at once by threads and processes: one owner each
//  crash    consumer processes that end anywhere beside consumers and a provider which go on
#include "com_stub.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/subscription_state_machine.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_local_view.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_set.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_slot.h"
#include "score/mw/com/impl/com_error.h"

#include <algorithm>
#include <csignal>
#include <memory>
#include <optional>
#include <thread>
#include <vector>
namespace im = score::mw::com::impl;
namespace lo = score::mw::com::impl::lola;
namespace sm = score::memory::shared;
using Consumer = lo::ConsumerEventDataControlLocalView<>;
using Provider = lo::ProviderEventDataControlLocalView<>;
using Slot = lo::SlotIndexType;
using Id = lo::TransactionLogId;
namespace
{
struct Region
{
    std::shared_ptr<sm::ISharedMemoryResource> res;
    lo::ServiceDataControl* ctl{};
    std::vector<lo::EventControl*> ev;
    Region(unsigned events, Slot slots, std::uint8_t subs, bool enforce)
    {
        static int n = 0;
        const std::string p = "/vh_txlog_" + std::to_string(::getpid()) + "_" + std::to_string(n++);
        res = sm::SharedMemoryFactory::Create(p, [&](std::shared_ptr<sm::ISharedMemoryResource> m) {
            ctl = m->construct<lo::ServiceDataControl>(static_cast<std::size_t>(events), *m);
            for (unsigned e = 0; e < events; ++e)
            {
                const auto r = ctl->event_controls_.emplace(std::piecewise_construct,
                    std::forward_as_tuple(lo::ElementFqId{1, static_cast<std::uint16_t>(e + 1U), 1, im::ServiceElementType::EVENT}),
                    std::forward_as_tuple(slots, subs, enforce, *m));
                VH_NEED(r.second);
            }
        }, 65536U + static_cast<std::size_t>(events) * slots * 64U * (subs + 2U), sm::SharedMemoryFactory::WorldWritable{});
        VH_NEED(res != nullptr);
        sm::SharedMemoryFactory::Remove(p);
        for (unsigned e = 0; e < events; ++e)
        {
            const auto it = ctl->event_controls_.find(lo::ElementFqId{1, static_cast<std::uint16_t>(e + 1U), 1, im::ServiceElementType::EVENT});
            VH_NEED(it != ctl->event_controls_.end());
            ev.push_back(&it->second);
        }
    }
};
struct Broken
{
};
void throwing(const char*, int, const char*, const char*) { throw Broken{}; }
// The log with this index, or nullptr when nobody owns it
lo::TransactionLog* log_at(lo::TransactionLogSet& s, lo::TransactionLogIndex i)
{
    const auto old = verif::g_contract_hook.exchange(&throwing);
    lo::TransactionLog* l = nullptr;
    try
    {
        l = &s.GetTransactionLog(i);
    }
    catch (const Broken&)
    {
    }
    verif::g_contract_hook.store(old);
    return l;
}
// ---------------------------------------------------------------------------------------------------------------- slot
void slot_run(vh::Rng& r)
{
    lo::TransactionLogSlot s{};
    bool b = false, e = false;
    VH_CHECK(!s.GetTransactionBegin() && !s.GetTransactionEnd(), "slot", "a new log slot records a transaction");
    for (int i = 0; i < 40; ++i)
    {
        const bool v = r.chance(50);
        if (r.chance(50))
        {
            s.SetTransactionBegin(v);
            b = v;
        }
        else
        {
            s.SetTransactionEnd(v);
            e = v;
        }
        VH_CHECK(s.GetTransactionBegin() == b && s.GetTransactionEnd() == e, "slot", "flags (", b, ",", e, ") read back as (", s.GetTransactionBegin(), ",", s.GetTransactionEnd(), ")");
        if (r.chance(30))
        {
            lo::TransactionLogSlot c{s};
            VH_CHECK(c.GetTransactionBegin() == b && c.GetTransactionEnd() == e, "slot", "a copy differs");
            c.SetTransactionBegin(!b);
            c.SetTransactionEnd(!e);
            VH_CHECK(s.GetTransactionBegin() == b && s.GetTransactionEnd() == e, "slot", "changing a copy changes the original");
            lo::TransactionLogSlot a{};
            a = s;
            VH_CHECK(a.GetTransactionBegin() == b && a.GetTransactionEnd() == e, "slot", "an assigned slot differs");
        }
        vh::eval();
    }
}
// ---------------------------------------------------------------------------------------------------------------- model
enum Tx : std::uint8_t
{
    none,
    begun,   // begin without end
    done,    // both
    ending   // end without begin
};
Tx tx_of(const lo::TransactionLogSlot& s)
{
    return s.GetTransactionBegin() ? (s.GetTransactionEnd() ? done : begun) : (s.GetTransactionEnd() ? ending : none);
}
struct MLog
{
    bool active{false};
    bool live{false};
    bool marked{false};
    Id id{0};
    Tx sub{none};
    std::uint16_t count{0};
    std::vector<Tx> slot;
    bool partial() const
    {
        return sub == begun || sub == ending || std::any_of(slot.begin(), slot.end(), [](Tx t) { return t == begun || t == ending; });
    }
};
struct Owner
{
    Consumer view;
    std::optional<lo::TransactionLogRegistrationGuard> guard;
    explicit Owner(lo::EventControl& c) : view{c.data_control} {}
};
void model_run(vh::Rng& r)
{
    const unsigned logs = static_cast<unsigned>(1U + r.below(5));
    const Slot slots = static_cast<Slot>(1U + r.below(6));
    Region reg{1, slots, static_cast<std::uint8_t>(logs), false};
    auto& set = reg.ev[0]->transaction_log_set_;
    std::vector<MLog> m(logs);
    std::vector<std::unique_ptr<Owner>> own(logs);
    std::vector<Owner*> leaked;
    MLog sk;
    std::unique_ptr<Owner> sk_own;
    const Id ids[3] = {static_cast<Id>(r.chance(50) ? 0 : 17), static_cast<Id>(1000), static_cast<Id>(0xFFFFFFFEU)};
    std::uint64_t h = vh::comb(logs, slots);
    auto compare = [&](const char* after) {
        for (unsigned i = 0; i <= logs; ++i)
        {
            const bool is_sk = i == logs;
            const MLog& e = is_sk ? sk : m[i];
            auto* l = log_at(set, is_sk ? std::numeric_limits<lo::TransactionLogIndex>::max() : static_cast<lo::TransactionLogIndex>(i));
            VH_CHECK((l != nullptr) == e.active, "owner", "after ", after, ": log ", i, (e.active ? " is owned but reads as free" : " is free but reads as owned"));
            if (l == nullptr)
            {
                continue;
            }
            VH_CHECK(tx_of(l->subscribe_transactions_) == e.sub, "log", "after ", after, ": subscription of log ", i, " is ", tx_of(l->subscribe_transactions_), " instead of ", e.sub);
            for (Slot s = 0; s < slots; ++s)
            {
                const Tx t = tx_of(l->reference_count_slots_.at(s));
                VH_CHECK(t == e.slot[s], "log", "after ", after, ": slot ", s, " of log ", i, " is ", t, " instead of ", e.slot[s]);
            }
            const bool any = e.sub != none || std::any_of(e.slot.begin(), e.slot.end(), [](Tx t) { return t != none; });
            VH_CHECK(lo::TransactionLogLocalView{*l}.ContainsTransactions() == any, "contains", "after ", after, ": ContainsTransactions of log ", i, " is wrong");
        }
        vh::eval();
    };
    auto fresh = [&](MLog& l, Id id) {
        l = MLog{};
        l.active = l.live = true;
        l.id = id;
        l.slot.assign(slots, none);
    };
    auto step_log = [&](MLog& l, lo::TransactionLog& real, bool is_sk) {
        lo::TransactionLogLocalView v{real};
        const bool idle = std::all_of(l.slot.begin(), l.slot.end(), [](Tx t) { return t == none; });
        switch (r.below(is_sk ? 1 : 2))
        {
            case 1:
                if (l.sub == none)
                {
                    l.count = static_cast<std::uint16_t>(r.chance(20) ? 65535U - r.below(3) : 1U + r.below(300));
                    v.SubscribeTransactionBegin(l.count);
                    l.sub = begun;
                }
                else if (l.sub == begun)
                {
                    if (r.chance(25))
                    {
                        v.SubscribeTransactionAbort();
                        l.sub = none;
                    }
                    else
                    {
                        v.SubscribeTransactionCommit();
                        l.sub = done;
                    }
                }
                else if (l.sub == done && idle)
                {
                    v.UnsubscribeTransactionBegin();
                    l.sub = ending;
                }
                else if (l.sub == ending)
                {
                    v.UnsubscribeTransactionCommit();
                    l.sub = none;
                }
                break;
            default:
            {
                const Slot s = static_cast<Slot>(r.below(slots));
                if (l.slot[s] == none && (is_sk || l.sub == done))
                {
                    v.ReferenceTransactionBegin(s);
                    l.slot[s] = begun;
                }
                else if (l.slot[s] == begun)
                {
                    if (r.chance(20))
                    {
                        v.ReferenceTransactionAbort(s);
                        l.slot[s] = none;
                    }
                    else
                    {
                        v.ReferenceTransactionCommit(s);
                        l.slot[s] = done;
                    }
                }
                else if (l.slot[s] == done && r.chance(60))
                {
                    v.DereferenceTransactionBegin(s);
                    l.slot[s] = ending;
                }
                else if (l.slot[s] == ending)
                {
                    v.DereferenceTransactionCommit(s);
                    l.slot[s] = none;
                }
                break;
            }
        }
    };
    // Let a log come to rest, as a process does which does not die in the middle
    auto settle = [&](MLog& l, lo::TransactionLog& real) {
        lo::TransactionLogLocalView v{real};
        for (Slot s = 0; s < slots; ++s)
        {
            if (l.slot[s] == begun)
            {
                v.ReferenceTransactionCommit(s);
                l.slot[s] = done;
            }
            else if (l.slot[s] == ending)
            {
                v.DereferenceTransactionCommit(s);
                l.slot[s] = none;
            }
        }
        if (l.sub == begun)
        {
            v.SubscribeTransactionCommit();
            l.sub = done;
        }
        else if (l.sub == ending)
        {
            v.UnsubscribeTransactionCommit();
            l.sub = none;
        }
    };
    auto real_log = [&](unsigned i) -> lo::TransactionLog& { return set.GetTransactionLog(static_cast<lo::TransactionLogIndex>(i)); };
    auto real_sk = [&]() -> lo::TransactionLog& { return set.GetTransactionLog(std::numeric_limits<lo::TransactionLogIndex>::max()); };
    for (int step = 0; step < 120; ++step)
    {
        const unsigned op = static_cast<unsigned>(r.below(100));
        if (op < 15)
        {
            const Id id = ids[r.below(3)];
            auto o = std::make_unique<Owner>(*reg.ev[0]);
            auto g = set.RegisterProxyElement(id, o->view);
            const bool room = std::any_of(m.begin(), m.end(), [](const MLog& l) { return !l.active; });
            VH_CHECK(g.has_value() == room, "register", "registering with ", (room ? "a free log failed" : "no free log succeeded"));
            if (!room)
            {
                VH_CHECK(g.error() == im::ComErrc::kMaxSubscribersExceeded, "register", "wrong error when no log is free");
                vh::count("set_full");
                continue;
            }
            const auto i = g.value().GetTransactionLogIndex();
            VH_CHECK(i < logs && !m[i].active, "register", "registered with log ", static_cast<unsigned>(i), " which is in use");
            o->guard.emplace(std::move(g).value());
            own[i] = std::move(o);
            fresh(m[i], id);
            compare("register");
            h = vh::comb(h, i);
        }
        else if (op < 65)
        {
            const unsigned i = static_cast<unsigned>(r.below(logs + 1U));
            MLog& l = i == logs ? sk : m[i];
            if (l.live)
            {
                step_log(l, i == logs ? real_sk() : real_log(i), i == logs);
                if (r.chance(20))
                {
                    compare("a step");
                }
                h = vh::comb(h, static_cast<std::uint64_t>(l.sub) * 64U + l.slot[0]);
            }
        }
        else if (op < 72)
        {
            const unsigned i = static_cast<unsigned>(r.below(logs));
            if (m[i].live && m[i].sub == none && std::all_of(m[i].slot.begin(), m[i].slot.end(), [](Tx t) { return t == none; }))
            {
                own[i].reset();
                m[i] = MLog{};
                compare("unregister");
            }
        }
        else if (op < 80)  // a process ends
        {
            const Id id = ids[r.below(3)];
            const bool clean = r.chance(50);
            for (unsigned i = 0; i < logs; ++i)
            {
                if (m[i].live && m[i].id == id)
                {
                    if (clean)
                    {
                        settle(m[i], real_log(i));
                    }
                    m[i].live = false;
                    leaked.push_back(own[i].release());
                }
            }
            compare("a crash");
            vh::count("crashes");
            if (r.chance(70))
            {
                set.MarkTransactionLogsNeedRollback(id);
                for (auto& l : m)
                {
                    l.marked = l.marked || (l.active && l.id == id);
                }
                compare("marking after a crash");
            }
        }
        else if (op < 86)  // and is started again
        {
            const Id id = ids[r.below(3)];
            if (std::none_of(m.begin(), m.end(), [&](const MLog& l) { return l.live && l.id == id; }))
            {
                set.MarkTransactionLogsNeedRollback(id);
                for (auto& l : m)
                {
                    l.marked = l.marked || (l.active && l.id == id);
                }
                compare("marking");
            }
        }
        else if (op < 95)
        {
            const Id id = ids[r.below(3)];
            std::vector<unsigned> deref(slots, 0);
            std::vector<std::uint16_t> unsub;
            const auto res = set.RollbackProxyTransactions(id, [&](const lo::TransactionLog::SlotIndexType s) noexcept {
                VH_CHECK(s < slots, "rollback", "slot ", s, " of ", slots, " is given back");
                ++deref[s];
            }, [&](const lo::TransactionLog::MaxSampleCountType n) noexcept { unsub.push_back(n); });
            vh::count("rollbacks");
            std::vector<unsigned> expect(slots, 0);
            unsigned released = 0, candidates = 0, hopeless = 0;
            for (unsigned i = 0; i < logs; ++i)
            {
                if (!m[i].active || !m[i].marked || m[i].id != id)
                {
                    continue;
                }
                const bool part = m[i].partial();
                candidates += part ? 0U : 1U;
                hopeless += part ? 1U : 0U;
                auto* l = log_at(set, static_cast<lo::TransactionLogIndex>(i));
                if (l == nullptr)
                {
                    ++released;
                    VH_CHECK(!part, "rollback", "a log whose owner died in the middle of a transaction is reused");
                    for (Slot s = 0; s < slots; ++s)
                    {
                        expect[s] += m[i].slot[s] == done ? 1U : 0U;
                    }
                    VH_CHECK(m[i].sub == done ? (unsub.size() == 1U && unsub[0] == m[i].count) : unsub.empty(), "rollback", "a subscription for ", m[i].count, " (", m[i].sub,
                             ") is withdrawn ", unsub.size(), " times with ", unsub.empty() ? 0U : unsub[0]);
                    m[i] = MLog{};
                }
                else if (part)
                {
                    // what was given back before the broken transaction was met is no longer recorded
                    for (Slot s = 0; s < slots; ++s)
                    {
                        if (m[i].slot[s] == done && tx_of(l->reference_count_slots_.at(s)) == none)
                        {
                            ++expect[s];
                            m[i].slot[s] = none;
                        }
                    }
                    VH_CHECK(unsub.size() <= 1U, "rollback", "several subscriptions withdrawn");
                }
            }
            if (candidates > 0U)
            {
                VH_CHECK(res.has_value() && released == 1U, "rollback", "one of ", candidates, " former logs should be rolled back, ", released, " were");
                vh::count("rolled_back");
            }
            else
            {
                VH_CHECK(released == 0U && unsub.empty(), "rollback", "rolled back without a former log");
                VH_CHECK(res.has_value() == (hopeless == 0U), "rollback", "with ", hopeless, " logs broken off in a transaction rollback ", res.has_value() ? "succeeds" : "fails");
                VH_CHECK(res.has_value() || res.error() == im::ComErrc::kCouldNotRestartProxy, "rollback", "wrong error");
                vh::count(hopeless == 0U ? "nothing_to_do" : "refused");
            }
            VH_CHECK(deref == expect, "rollback", "the slots given back are not those which were recorded");
            compare("rollback");
            h = vh::comb(h, candidates * 16U + hopeless);
        }
        else if (op < 97)
        {
            if (!sk.active)
            {
                sk_own = std::make_unique<Owner>(*reg.ev[0]);
                sk_own->guard.emplace(set.RegisterSkeletonTransactionLog(sk_own->view));
                fresh(sk, 1);
                compare("registering the skeleton");
            }
            else if (sk.live && std::all_of(sk.slot.begin(), sk.slot.end(), [](Tx t) { return t == none; }))
            {
                sk_own.reset();
                sk = MLog{};
                compare("unregistering the skeleton");
            }
        }
        else
        {
            if (sk.live)
            {
                if (r.chance(60))
                {
                    settle(sk, real_sk());
                }
                leaked.push_back(sk_own.release());
                sk.live = false;
            }
            std::vector<unsigned> deref(slots, 0), expect(slots, 0);
            const auto res = set.RollbackSkeletonTracingTransactions([&](const lo::TransactionLog::SlotIndexType s) noexcept { ++deref[s]; });
            VH_CHECK(res.has_value() == !(sk.active && sk.partial()), "skeleton", "rollback of the skeleton's log ", res.has_value() ? "succeeds" : "fails");
            if (sk.active)
            {
                auto* l = log_at(set, std::numeric_limits<lo::TransactionLogIndex>::max());
                for (Slot s = 0; s < slots; ++s)
                {
                    const bool gone = sk.slot[s] == done && (l == nullptr || tx_of(l->reference_count_slots_.at(s)) == none);
                    expect[s] = gone ? 1U : 0U;
                    sk.slot[s] = gone ? none : sk.slot[s];
                }
            }
            VH_CHECK(deref == expect, "skeleton", "the slots given back are not those which were recorded");
            if (sk.active && res.has_value())
            {
                sk = MLog{};
            }
            compare("rollback of the skeleton");
            vh::count("skeleton_rollbacks");
        }
    }
    vh::distinct(h);
    vh::count("model_runs");
    // guards of owners which died must not act
    lo::test::SetDeactiveDestructionOperation(true);
    for (auto* o : leaked)
    {
        delete o;
    }
    own.clear();
    sk_own.reset();
    lo::test::SetDeactiveDestructionOperation(false);
}
// ---------------------------------------------------------------------------------------------------------------- claim
struct ClaimBoard
{
    std::atomic<int> owner[32];
    std::atomic<std::uint64_t> claims;
    std::atomic<std::uint64_t> full;
};
void claimer(Region& reg, ClaimBoard& b, int me, Id id, std::uint64_t seed, unsigned rounds, bool must)
{
    vh::Rng r{seed};
    auto& set = reg.ev[0]->transaction_log_set_;
    const Slot slots = 3;
    for (unsigned k = 0; k < rounds; ++k)
    {
        Consumer view{reg.ev[0]->data_control};
        auto g = set.RegisterProxyElement(id, view);
        if (!g.has_value())
        {
            VH_CHECK(!must, "claim", "no log although there is one for everybody");
            b.full.fetch_add(1, std::memory_order_relaxed);
            continue;
        }
        const auto i = g.value().GetTransactionLogIndex();
        int nobody = 0;
        VH_CHECK(b.owner[i].compare_exchange_strong(nobody, me, std::memory_order_relaxed), "claim", "log ", static_cast<unsigned>(i), " claimed by ", me, " is owned by ", nobody);
        lo::TransactionLogLocalView v{set.GetTransactionLog(i)};
        VH_CHECK(!v.ContainsTransactions(), "claim", "a claimed log has contents");
        v.SubscribeTransactionBegin(static_cast<std::size_t>(me));
        v.SubscribeTransactionCommit();
        const Slot s = static_cast<Slot>(r.below(slots));
        v.ReferenceTransactionBegin(s);
        v.ReferenceTransactionCommit(s);
        vh::jitter(r);
        v.DereferenceTransactionBegin(s);
        v.DereferenceTransactionCommit(s);
        VH_CHECK(set.GetTransactionLog(i).subscription_max_sample_count_ == static_cast<std::uint16_t>(me), "claim", "somebody else wrote to the log");
        v.UnsubscribeTransactionBegin();
        v.UnsubscribeTransactionCommit();
        b.owner[i].store(0, std::memory_order_relaxed);
        b.claims.fetch_add(1, std::memory_order_relaxed);
        vh::eval();
    }
}
void claim_run(vh::Rng& r, bool procs)
{
    const unsigned n = static_cast<unsigned>(2U + r.below(4));
    const bool must = r.chance(40);
    const unsigned logs = must ? 2U * n : static_cast<unsigned>(1U + r.below(n));
    Region reg{1, 3, static_cast<std::uint8_t>(logs), false};
    auto* b = vh::shared<ClaimBoard>();
    const unsigned rounds = 200;
    std::vector<std::uint64_t> seeds;
    for (unsigned i = 0; i < n; ++i)
    {
        seeds.push_back(r.next());
    }
    if (procs)
    {
        std::vector<pid_t> kids;
        for (unsigned i = 0; i < n; ++i)
        {
            const pid_t p = ::fork();
            VH_NEED(p >= 0);
            if (p == 0)
            {
                claimer(reg, *b, static_cast<int>(i + 1U), 100U + i, seeds[i], rounds, must);
                ::_exit(0);
            }
            kids.push_back(p);
        }
        for (auto p : kids)
        {
            int s = 0;
            ::waitpid(p, &s, 0);
            if (WIFEXITED(s) && (WEXITSTATUS(s) == 66 || WEXITSTATUS(s) == 67))
            {
                ::_exit(WEXITSTATUS(s));
            }
            VH_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "abort", "a claiming process ended with ", s);
        }
    }
    else
    {
        std::vector<std::thread> t;
        for (unsigned i = 0; i < n; ++i)
        {
            t.emplace_back([&, i]() { claimer(reg, *b, static_cast<int>(i + 1U), Id{5}, seeds[i], rounds, must); });
        }
        for (auto& x : t)
        {
            x.join();
        }
    }
    vh::count("claims", b->claims.load());
    vh::count("claims_refused", b->full.load());
    for (unsigned i = 0; i < logs; ++i)
    {
        VH_CHECK(log_at(reg.ev[0]->transaction_log_set_, static_cast<lo::TransactionLogIndex>(i)) == nullptr, "claim", "log ", i, " is still owned");
    }
    vh::distinct(vh::comb(b->full.load(), n * 100U + logs));
    vh::count(procs ? "claim_process_runs" : "claim_thread_runs");
    ::munmap(b, sizeof *b);
}
// ---------------------------------------------------------------------------------------------------------------- crash
constexpr unsigned kMaxEvents = 3;
constexpr unsigned kMaxSlots = 24;
struct Elem
{
    Consumer view;
    std::shared_ptr<lo::SubscriptionStateMachine> sm;
    std::vector<Slot> held;
    unsigned count{0};
    Elem(Region& reg, unsigned e, const Id& id)
        : view{reg.ev[e]->data_control},
          sm{std::make_shared<lo::SubscriptionStateMachine>(im::QualityType::kASIL_QM, lo::ElementFqId{1, static_cast<std::uint16_t>(e + 1U), 1, im::ServiceElementType::EVENT}, 1,
                                                            view, reg.ev[e]->subscription_control, reg.ev[e]->transaction_log_set_, id)}
    {
    }
    void release(std::size_t i)
    {
        view.DereferenceEvent(held[i]);
        held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
    }
};
struct Board
{
    std::atomic<int> phase;  // 0 running, 1 the child asks for a look, 2 the parent has looked
    std::atomic<unsigned> refs[kMaxEvents][kMaxSlots];
    std::atomic<unsigned> subs[kMaxEvents];
    std::atomic<unsigned> counts[kMaxEvents];
    std::atomic<unsigned> checks, failed_restart, boundary, notified;
    std::atomic<pid_t> reported_old;
};
unsigned g_die_at = 0, g_point = 0;
bool g_writes_only = false;
void die(int, const char* op, const void*)
{
    if (g_writes_only && op[0] == 'l')
    {
        return;
    }
    if (++g_point == g_die_at)
    {
        ::_exit(0);
    }
}
struct Crash
{
    Region& reg;
    Board& b;
    unsigned events;
    Slot slots;
    std::uint8_t subs;
    bool enforce;
    std::vector<std::unique_ptr<Elem>> survivors;

    void op(vh::Rng& r, std::vector<std::unique_ptr<Elem>>& el, unsigned max_count)
    {
        auto& e = *el[r.below(el.size())];
        const unsigned k = static_cast<unsigned>(r.below(100));
        if (e.count == 0U)
        {
            const unsigned n = static_cast<unsigned>(1U + r.below(max_count));
            const auto res = e.sm->SubscribeEvent(n);
            VH_CHECK(res.has_value(), "subscribe", "subscribing for ", n, " samples fails although there is room");
            e.count = n;
        }
        else if (k < 45)
        {
            const std::size_t room = e.count - e.held.size();
            if (room > 0U)
            {
                const auto got = e.sm->GetSlotCollectorLockFree().value().GetNewSamplesSlotIndices(1U + r.below(room));
                for (auto it = got.begin; it != got.end; ++it)
                {
                    e.held.push_back(*it);
                }
            }
        }
        else if (k < 88)
        {
            if (!e.held.empty())
            {
                e.release(r.below(e.held.size()));
            }
        }
        else if (k < 92)
        {
            while (!e.held.empty())
            {
                e.release(0);
            }
            e.sm->UnsubscribeEvent();
            e.count = 0;
        }
        vh::eval();
    }
    // What everybody alive holds is exactly what the control data says
    void look(const char* when)
    {
        for (unsigned ev = 0; ev < events; ++ev)
        {
            unsigned exp_subs = b.subs[ev].load(), exp_count = b.counts[ev].load();
            std::vector<unsigned> exp(slots);
            for (Slot s = 0; s < slots; ++s)
            {
                exp[s] = b.refs[ev][s].load();
            }
            for (unsigned i = ev; i < survivors.size(); i += events)
            {
                exp_subs += survivors[i]->count != 0U ? 1U : 0U;
                exp_count += survivors[i]->count;
                for (auto s : survivors[i]->held)
                {
                    ++exp[s];
                }
            }
            Consumer v{reg.ev[ev]->data_control};
            for (Slot s = 0; s < slots; ++s)
            {
                const auto st = v[s];
                const unsigned rc = st.IsInvalid() || st.IsInWriting() ? 0U : st.GetReferenceCount();
                VH_CHECK(rc == exp[s], "references", when, ": event ", ev, " slot ", s, " has ", rc, " references instead of ", exp[s]);
            }
            auto& sc = reg.ev[ev]->subscription_control;
            unsigned free = 0;
            if (enforce && exp_subs < subs)
            {
                const unsigned room = slots - exp_count;
                VH_CHECK(sc.Subscribe(static_cast<std::uint16_t>(room + 1U)) == lo::SubscribeResult::kSlotOverflow, "subscriptions", when, ": event ", ev, " has more than ", room, " of ", slots, " samples left");
                VH_CHECK(sc.Subscribe(static_cast<std::uint16_t>(room)) == lo::SubscribeResult::kSuccess, "subscriptions", when, ": event ", ev, " has not ", room, " of ", slots, " samples left");
                sc.Unsubscribe(static_cast<std::uint16_t>(room));
            }
            while (sc.Subscribe(0) == lo::SubscribeResult::kSuccess)
            {
                ++free;
            }
            for (unsigned i = 0; i < free; ++i)
            {
                sc.Unsubscribe(0);
            }
            VH_CHECK(free + exp_subs == subs, "subscriptions", when, ": event ", ev, " has ", subs - free, " subscribers instead of ", exp_subs);
        }
        vh::eval();
        vh::count("looks");
    }
    void publish(vh::Rng& r)
    {
        const unsigned ev = static_cast<unsigned>(r.below(events));
        Provider p{reg.ev[ev]->data_control};
        const auto s = p.AllocateNextSlot();
        if (s.has_value())
        {
            if (r.chance(90))
            {
                p.EventReady(s.value(), ts[ev]++);
            }
            else
            {
                p.Discard(s.value());
            }
        }
    }
    lo::EventSlotStatus::EventTimeStamp ts[kMaxEvents]{1, 1, 1};
};
[[noreturn]] void incarnation(Crash& c, const Id id, unsigned proxies, unsigned max_count, std::uint64_t seed, int mode, unsigned ops, pid_t before, pid_t provider, im::QualityType asil, bool threads)
{
    vh::Rng r{seed};
    cs::Runtime rt;
    std::vector<std::unique_ptr<Elem>> el;
    auto put = [&]() {
        for (unsigned ev = 0; ev < c.events; ++ev)
        {
            unsigned subs = 0, cnt = 0;
            std::vector<unsigned> refs(c.slots, 0);
            for (unsigned i = ev; i < el.size(); i += c.events)
            {
                subs += el[i]->count != 0U ? 1U : 0U;
                cnt += el[i]->count;
                for (auto s : el[i]->held)
                {
                    ++refs[s];
                }
            }
            c.b.subs[ev].store(subs);
            c.b.counts[ev].store(cnt);
            for (Slot s = 0; s < c.slots; ++s)
            {
                c.b.refs[ev][s].store(refs[s]);
            }
        }
        c.b.phase.store(1);
        while (c.b.phase.load() != 2)
        {
            ::usleep(20);
        }
        c.b.phase.store(0);
        c.b.checks.fetch_add(1);
    };
    if (mode == 1)
    {
        verif::g_atomic_hook.store(&die);
    }
    auto restart_failed = [&](const score::result::Error& e) {
        VH_CHECK(e == im::ComErrc::kCouldNotRestartProxy, "restart", "wrong error");
        VH_CHECK(c.b.boundary.load() == 0U, "restart", "a proxy cannot be created again although its predecessor died between transactions");
        c.b.failed_restart.fetch_add(1);
        ::_exit(0);
    };
    auto roll = [&]() { return lo::TransactionLogRollbackExecutor{*c.reg.ctl, {1, 1}, asil, provider, id}.RollbackTransactionLogs(); };
    if (threads)
    {
        // all proxies are created at once
        std::vector<std::thread> t;
        std::vector<score::Result<void>> res(proxies);
        for (unsigned p = 0; p < proxies; ++p)
        {
            t.emplace_back([&, p]() { res[p] = roll(); });
        }
        for (auto& x : t)
        {
            x.join();
        }
        for (auto& x : res)
        {
            if (!x.has_value())
            {
                restart_failed(x.error());
            }
        }
        for (unsigned p = 0; p < proxies; ++p)
        {
            for (unsigned ev = 0; ev < c.events; ++ev)
            {
                el.push_back(std::make_unique<Elem>(c.reg, ev, id));
            }
        }
    }
    else
    {
        for (unsigned p = 0; p < proxies; ++p)
        {
            const auto res = roll();
            if (!res.has_value())
            {
                restart_failed(res.error());
            }
            const auto n = el.size();
            for (unsigned ev = 0; ev < c.events; ++ev)
            {
                el.push_back(std::make_unique<Elem>(c.reg, ev, id));
            }
            // proxies already there go to work while the others are still being created; as many logs as proxies are free then
            for (unsigned k = 0; p + 1U < proxies && k < 4U; ++k)
            {
                std::vector<std::unique_ptr<Elem>> mine;
                mine.swap(el);
                // only what belongs to this proxy: its logs were given back just now
                std::vector<std::unique_ptr<Elem>> part;
                for (std::size_t i = n; i < mine.size(); ++i)
                {
                    part.push_back(std::move(mine[i]));
                }
                if (!c.enforce)
                {
                    c.op(r, part, max_count);
                }
                for (std::size_t i = n; i < mine.size(); ++i)
                {
                    mine[i] = std::move(part[i - n]);
                }
                el.swap(mine);
            }
        }
    }
    const bool told = before > 0 && before != rt.lola.pid;
    VH_CHECK(before < 0 || rt.lola.msg.outdated.size() == (told ? 1U : 0U), "outdated", "the provider is told ", rt.lola.msg.outdated.size(), " times about an outdated process, predecessor ", before);
    if (told)
    {
        const auto& o = rt.lola.msg.outdated[0];
        VH_CHECK(o.old_pid == before && o.target == provider && o.asil == asil, "outdated", "told ", o.target, " that ", o.old_pid, " is outdated, not ", provider, " that ", before, " is");
        c.b.notified.fetch_add(1);
    }
    put();
    for (unsigned i = 0; i < ops; ++i)
    {
        c.op(r, el, max_count);
        if (mode != 0 && i + 1U == ops)
        {
            i = 0;
        }
        if (r.chance(2))
        {
            put();
        }
    }
    put();
    if (r.chance(20))  // an orderly end
    {
        for (auto& e : el)
        {
            while (!e->held.empty())
            {
                e->release(0);
            }
            e->sm->UnsubscribeEvent();
            e->count = 0;
        }
        put();
    }
    c.b.boundary.store(1);
    ::_exit(0);
}
void crash_run(vh::Rng& r, cs::Runtime&)
{
    const unsigned events = static_cast<unsigned>(1U + r.below(kMaxEvents));
    const unsigned proxies = static_cast<unsigned>(1U + r.below(3));
    const unsigned nsurv = static_cast<unsigned>(r.below(3));
    const unsigned max_count = static_cast<unsigned>(1U + r.below(3));
    const bool enforce = r.chance(50);
    const Slot slots = static_cast<Slot>(std::min<unsigned>(kMaxSlots, max_count * (proxies + nsurv) + 1U + static_cast<unsigned>(r.below(3))));
    const std::uint8_t subs = static_cast<std::uint8_t>(2U * proxies + nsurv + 1U);
    Region reg{events, slots, subs, enforce};
    auto* b = vh::shared<Board>();
    Crash c{reg, *b, events, slots, subs, enforce, {}};
    const Id surv_id = 11, id = static_cast<Id>(r.chance(20) ? 0 : 22 + r.below(5));
    for (unsigned p = 0; p < nsurv; ++p)
    {
        for (unsigned ev = 0; ev < events; ++ev)
        {
            c.survivors.push_back(std::make_unique<Elem>(reg, ev, surv_id));
        }
    }
    const pid_t provider = static_cast<pid_t>(1000 + r.below(1000));
    const im::QualityType asil = r.chance(50) ? im::QualityType::kASIL_QM : im::QualityType::kASIL_B;
    pid_t before = 0;
    const bool lonely = nsurv == 0U && r.chance(30);
    std::uint64_t h = vh::comb(events * 100U + proxies * 10U + nsurv, slots);
    b->boundary.store(1);
    const unsigned lives = 2U + static_cast<unsigned>(r.below(5));
    for (unsigned life = 0; life < lives; ++life)
    {
        const int mode = static_cast<int>(r.below(3));  // 0 ends by itself between operations, 1 at an atomic operation, 2 killed
        const std::uint64_t seed = r.next();
        const unsigned ops = static_cast<unsigned>(r.below(60)) + 1U;
        g_point = 0;
        g_writes_only = r.chance(80);
        g_die_at = static_cast<unsigned>(1U + r.below(r.chance(30) ? 12 : 200));
        const bool threads = life > 0U && proxies > 1U && r.chance(30);
        b->failed_restart.store(0);
        const bool clean_before = b->boundary.load() != 0U;
        for (auto& e : b->refs)
        {
            for (auto& s : e)
            {
                s.store(0);
            }
        }
        b->phase.store(0);
        const pid_t p = ::fork();
        VH_NEED(p >= 0);
        if (p == 0)
        {
            incarnation(c, id, proxies, max_count, seed, mode, ops, before, provider, asil, threads
#ifdef VH_TSAN
                        && false
#endif
            );
        }
        // boundary is read by the child when it restarts, and says for the next one how this one ended
        const std::uint64_t deadline = vh::now_ns() + r.below(3000000);
        int st = 0;
        unsigned looked = 0;
        while (true)
        {
            const pid_t w = ::waitpid(p, &st, WNOHANG);
            if (w == p)
            {
                break;
            }
            if (b->phase.load() == 1)
            {
                if (looked == 0U)
                {
                    b->boundary.store(0);
                }
                ++looked;
                c.look(looked == 1U ? "after the rollback" : "between operations");
                b->phase.store(2);
            }
            else if (b->phase.load() == 0 && !lonely)
            {
                c.publish(r);
                if (!c.survivors.empty() && r.chance(50))
                {
                    c.op(r, c.survivors, max_count);
                }
            }
            if (mode == 2 && vh::now_ns() > deadline)
            {
                ::kill(p, SIGKILL);
            }
            if (vh::now_ns() > deadline + 40000000000ULL)
            {
                ::kill(p, SIGKILL);
                ::waitpid(p, &st, 0);
                VH_CHECK(false, "hang", "a consumer process did not get through its restart and " + std::to_string(ops) + " operations within 40 s");
                break;
            }
        }
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 67 || WEXITSTATUS(st) == 99))
        {
            ::_exit(WEXITSTATUS(st));
        }
        VH_CHECK((WIFEXITED(st) && WEXITSTATUS(st) == 0) || (mode == 2 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL), "abort", "a consumer process ended with ", st);
        if (b->failed_restart.load() != 0U)
        {
            VH_CHECK(!clean_before, "restart", "cannot be created again although nothing was broken off");
            vh::count("refused_restarts");
            break;
        }
        if (looked == 0U)
        {
            b->boundary.store(0);  // died while it was being created
            vh::count("died_in_rollback");
        }
        vh::count(b->boundary.load() != 0U ? "boundary_ends" : mode == 1 ? "ended_at_atomic" : "ended_by_signal");
        before = looked == 0U ? -1 : p;  // not known whether it had been recorded when it died before
        h = vh::comb(h, vh::comb(g_die_at, looked));
    }
    vh::distinct(h);
    vh::count("crash_runs");
    vh::count("restarts_checked", b->checks.load());
    vh::count("outdated_reported", b->notified.load());
    for (auto& e : c.survivors)
    {
        while (!e->held.empty())
        {
            e->release(0);
        }
        e->sm->UnsubscribeEvent();
        e->count = 0;
    }
    ::munmap(b, sizeof *b);
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed() * 0x9E3779B97F4A7C15ULL + 0xC15U};
    const unsigned scale = static_cast<unsigned>(vh::arg("scale", 8));
    const std::string only = vh::sarg("only", "");
    auto want = [&](const char* n) { return only.empty() || only == n; };
    if (want("slot"))
    {
        slot_run(r);
    }
    for (unsigned i = 0; want("model") && i < 6U * scale; ++i)
    {
        model_run(r);
    }
    for (unsigned i = 0; want("claim") && i < scale / 2U; ++i)
    {
        claim_run(r, i % 2U == 0U);
    }
    {
        cs::Runtime rt;
        for (unsigned i = 0; want("crash") && i < 4U * scale; ++i)
        {
            crash_run(r, rt);
        }
    }
    vh::finish();
    return 0;
}
