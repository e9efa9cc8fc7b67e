// C14: subscriptions stay within the limits of the event and every subscriber always is in the state it should be in.
//  control   EventSubscriptionControl against its definition
//  race      many subscribers at once, in threads and processes
//  machine   state machines of several subscribers on one event, every operation compared with an exact model
//  threads   user and notification thread on the same state machines
#include "com_stub.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_subscription_control.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/subscription_state_machine.h"
#include "score/mw/com/impl/com_error.h"
#include "score/mw/com/impl/scoped_event_receive_handler.h"
#include "score/language/safecpp/scoped_function/scope.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <sys/wait.h>
#include <thread>
#include <vector>
namespace im = score::mw::com::impl;
namespace lo = score::mw::com::impl::lola;
namespace sm = score::memory::shared;
using Control = lo::EventSubscriptionControl<>;
using Res = lo::SubscribeResult;
using St = lo::SubscriptionStateMachineState;
namespace
{
// ------------------------------------------------------------------------------------------------------------- control
struct Look
{
    unsigned subs, slots;
};
// How many subscribers and samples are taken, found out by using up what is left (and giving it back).
// enforced: the limit of the samples.
Look look(Control& c, unsigned max_subs, unsigned limit)
{
    unsigned got = 0;
    unsigned room = 0;
    // the last place is left for finding out about the samples
    while (c.Subscribe(0U) == Res::kSuccess)
    {
        ++got;
        VH_CHECK(got <= max_subs, "limit", "more than ", max_subs, " subscribers are accepted");
    }
    if (got > 0U)
    {
        c.Unsubscribe(0U);
        unsigned lo = 0, hi = limit;
        while (lo < hi)
        {
            const unsigned mid = (lo + hi + 1U) / 2U;
            const auto r = c.Subscribe(static_cast<std::uint16_t>(mid));
            if (r == Res::kSuccess)
            {
                c.Unsubscribe(static_cast<std::uint16_t>(mid));
                lo = mid;
            }
            else
            {
                VH_CHECK(r == Res::kSlotOverflow, "code", "subscribing for ", mid, " samples is refused with ", lo::ToString(r));
                hi = mid - 1U;
            }
        }
        room = lo;
        for (unsigned i = 1; i < got; ++i)
        {
            c.Unsubscribe(0U);
        }
    }
    return {max_subs - got, got > 0U ? limit - room : 0U};
}
unsigned any16(vh::Rng& r)
{
    switch (r.below(6))
    {
        case 0:
            return 0;
        case 1:
            return static_cast<unsigned>(1U + r.below(8));
        case 2:
            return 65535U - static_cast<unsigned>(r.below(4));
        case 3:
            return 32766U + static_cast<unsigned>(r.below(5));
        default:
            return static_cast<unsigned>(r.below(65536));
    }
}
void control_run(vh::Rng& r)
{
    const unsigned max_slots = any16(r), max_subs = r.chance(20) ? 255U - static_cast<unsigned>(r.below(3)) : static_cast<unsigned>(r.below(12));
    const bool enforce = r.chance(60);
    Control c{static_cast<std::uint16_t>(max_slots), static_cast<std::uint8_t>(max_subs), enforce};
    const unsigned limit = enforce ? max_slots : 65535U;
    std::vector<unsigned> held;
    unsigned sum = 0;
    const unsigned ops = static_cast<unsigned>(10U + r.below(max_subs > 200U ? 600 : 60));
    for (unsigned i = 0; i < ops; ++i)
    {
        if (r.chance(max_subs > 200U ? 80 : 60))
        {
            unsigned n = any16(r);
            if (r.chance(50))
            {
                n = limit - sum + (r.chance(30) ? 1U : 0U);  // just fits, or just does not
                n = std::min(n, 65535U);
            }
            else if (r.chance(50))
            {
                n = static_cast<unsigned>(r.below(5));
            }
            const auto got = c.Subscribe(static_cast<std::uint16_t>(n));
            const auto want = held.size() >= max_subs ? (max_subs == 0U ? Res::kUpdateRetryFailure : Res::kMaxSubscribersOverflow)
                              : sum + n > limit       ? Res::kSlotOverflow
                                                      : Res::kSuccess;
            VH_CHECK(got == want || (max_subs == 0U && got == Res::kMaxSubscribersOverflow), "code", "with ", held.size(), " of ", max_subs, " subscribers for ", sum,
                     " of ", limit, " samples, subscribing for ", n, " gives ", lo::ToString(got), ", not ", lo::ToString(want));
            if (want == Res::kSuccess)
            {
                held.push_back(n);
                sum += n;
            }
            else
            {
                vh::count("refused");
            }
            vh::distinct(vh::comb(vh::comb(static_cast<unsigned>(want), max_subs), vh::comb(held.size(), n == 0U ? 0U : n > 60000U ? 2U : 1U)));
        }
        else if (!held.empty())
        {
            const std::size_t k = r.below(held.size());
            c.Unsubscribe(static_cast<std::uint16_t>(held[k]));
            sum -= held[k];
            held[k] = held.back();
            held.pop_back();
        }
        if (max_subs > 0U && max_subs < 100U && r.chance(20))
        {
            const auto l = look(c, max_subs, limit);
            VH_CHECK(l.subs == held.size(), "account", held.size(), " subscribers are counted as ", l.subs);
            VH_CHECK(l.subs == max_subs || l.slots == sum, "account", sum, " samples of ", held.size(), " subscribers are counted as ", l.slots);
            vh::count("looks");
        }
        vh::eval();
    }
    while (!held.empty())
    {
        c.Unsubscribe(static_cast<std::uint16_t>(held.back()));
        held.pop_back();
    }
    if (max_subs > 0U)
    {
        const auto l = look(c, max_subs, limit);
        VH_CHECK(l.subs == 0U && l.slots == 0U, "account", "after the last one ", l.subs, " subscribers and ", l.slots, " samples are left");
    }
    // withdrawing what was never subscribed does not go unnoticed
    if (r.chance(10))
    {
        const bool none = r.chance(50);
        const auto res = vh::run_child([&]() {
            if (!none)
            {
                if (max_subs == 0U || c.Subscribe(0U) != Res::kSuccess)
                {
                    std::abort();
                }
            }
            c.Unsubscribe(none ? 0U : 1U);
        });
        VH_CHECK(!(res.exited && res.code == 0), "withdraw", none ? "withdrawing without a subscriber is not noticed" : "withdrawing more samples than subscribed is not noticed");
        vh::count("withdrawn_too_much");
    }
    vh::count("control_runs");
}
void texts()
{
    VH_CHECK(lo::ToString(Res::kSuccess) == "success" && lo::ToString(Res::kMaxSubscribersOverflow) == "Max subcribers overflow" &&
                 lo::ToString(Res::kSlotOverflow) == "Slot overflow" && lo::ToString(Res::kUpdateRetryFailure) == "Update retry failure",
             "text", "a result of subscribing has another's name");
    for (unsigned i = 4; i < 256U; ++i)
    {
        VH_CHECK(lo::ToString(static_cast<Res>(i)) == "Unknown SubscribeResult value", "text", "an unknown result is called ", lo::ToString(static_cast<Res>(i)));
    }
    VH_CHECK(lo::MessageForSubscriptionState(St::NOT_SUBSCRIBED_STATE) == "Not Subscribed State." &&
                 lo::MessageForSubscriptionState(St::SUBSCRIPTION_PENDING_STATE) == "Subscription Pending State." &&
                 lo::MessageForSubscriptionState(St::SUBSCRIBED_STATE) == "Subscribed State." &&
                 lo::MessageForSubscriptionState(St::STATE_COUNT) == "Invalid state: State Count is not a valid state.",
             "text", "a state has another's name");
    for (unsigned i = 4; i < 256U; ++i)
    {
        VH_CHECK(lo::MessageForSubscriptionState(static_cast<St>(i)) == "Unknown subscription state.", "text", "unknown state ", i, " is called ",
                 lo::MessageForSubscriptionState(static_cast<St>(i)));
    }
}
// ---------------------------------------------------------------------------------------------------------------- race
struct Race
{
    alignas(8) unsigned char c[sizeof(Control)];
    std::atomic<unsigned> subs, slots, go, refused;
};
void race_run(vh::Rng& r, bool procs)
{
    const unsigned n = static_cast<unsigned>(2U + r.below(3));
    const unsigned max_subs = static_cast<unsigned>(60U + r.below(196)), per = std::max(1U, max_subs / n);
    const bool tight = r.chance(70);
    const bool many = r.chance(40);  // more subscribers than places
    const bool enforce = r.chance(60);
    const unsigned limit = tight ? static_cast<unsigned>(n + r.below(4U * n)) : 65535U;
    auto* b = vh::shared<Race>();
    auto* c = new (b->c) Control{static_cast<std::uint16_t>(enforce ? limit : 1U), static_cast<std::uint8_t>(max_subs), enforce};
    const unsigned cap = enforce ? limit : 65535U;
    const unsigned unit = enforce ? 1U : 65535U / (2U * n);
    b->go.store(n);
    auto work = [&](std::uint64_t seed) {
        vh::Rng q{seed};
        std::vector<unsigned> held;
        b->go.fetch_sub(1);
        while (b->go.load() != 0U)
        {
        }
        for (unsigned i = 0; i < 300U; ++i)
        {
            if (held.size() < (many ? per + 20U : per) && q.chance(many ? 75 : 55))
            {
                const unsigned k = tight ? unit * static_cast<unsigned>(q.below(5)) : 0U;
                const auto got = c->Subscribe(static_cast<std::uint16_t>(std::min(65535U, k)));
                if (got == Res::kSuccess)
                {
                    const unsigned s = b->subs.fetch_add(1, std::memory_order_relaxed) + 1U;
                    const unsigned t = b->slots.fetch_add(k, std::memory_order_relaxed) + k;
                    VH_CHECK(s <= max_subs, "limit", s, " subscribers of at most ", max_subs, " at once");
                    VH_CHECK(t <= cap, "limit", t, " samples of at most ", cap, " subscribed at once");
                    held.push_back(k);
                }
                else
                {
                    VH_CHECK(got == Res::kMaxSubscribersOverflow || got == Res::kSlotOverflow || got == Res::kUpdateRetryFailure, "code", "refused with ", lo::ToString(got));
                    VH_CHECK(got != Res::kMaxSubscribersOverflow || many, "code", "refused for too many subscribers although there are never more than ", per * n, " of ", max_subs);
                    VH_CHECK(got != Res::kSlotOverflow || k != 0U, "code", "refused for too many samples although no sample is wanted");
                    b->refused.fetch_add(1, std::memory_order_relaxed);
                }
            }
            else if (!held.empty())
            {
                const std::size_t k = q.below(held.size());
                b->subs.fetch_sub(1, std::memory_order_relaxed);
                b->slots.fetch_sub(held[k], std::memory_order_relaxed);
                c->Unsubscribe(static_cast<std::uint16_t>(held[k]));
                held[k] = held.back();
                held.pop_back();
            }
            vh::jitter(q);
        }
        while (!held.empty())
        {
            b->subs.fetch_sub(1, std::memory_order_relaxed);
            b->slots.fetch_sub(held.back(), std::memory_order_relaxed);
            c->Unsubscribe(static_cast<std::uint16_t>(held.back()));
            held.pop_back();
        }
    };
    std::vector<std::uint64_t> seeds;
    for (unsigned i = 0; i < n; ++i)
    {
        seeds.push_back(r.next());
    }
    if (procs)
    {
        std::vector<pid_t> p;
        for (unsigned i = 0; i < n; ++i)
        {
            p.push_back(::fork());
            VH_NEED(p.back() >= 0);
            if (p.back() == 0)
            {
                ::alarm(60);
                work(seeds[i]);
                ::_exit(0);
            }
        }
        for (const auto q : p)
        {
            int s = 0;
            ::waitpid(q, &s, 0);
            if (WIFEXITED(s) && (WEXITSTATUS(s) == 66 || WEXITSTATUS(s) == 67 || WEXITSTATUS(s) == 99))
            {
                ::_exit(WEXITSTATUS(s));
            }
            VH_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "race", "a subscribing process ended with ", s);
        }
    }
    else
    {
        std::vector<std::thread> t;
        for (unsigned i = 0; i < n; ++i)
        {
            t.emplace_back(work, seeds[i]);
        }
        for (auto& x : t)
        {
            x.join();
        }
    }
    const auto l = look(*c, max_subs, cap);
    VH_CHECK(l.subs == 0U && l.slots == 0U, "account", "after all withdrew ", l.subs, " subscribers and ", l.slots, " samples are left");
    vh::count(procs ? "race_process_runs" : "race_thread_runs");
    vh::count("race_refused", b->refused.load());
    vh::distinct(vh::comb(vh::comb(n, max_subs), b->refused.load()));
    vh::eval();
    ::munmap(b, sizeof *b);
}
// ------------------------------------------------------------------------------------------------------------- machine
constexpr unsigned kSlots = 12;
struct Region
{
    std::shared_ptr<sm::ISharedMemoryResource> res;
    lo::EventControl* ev{};
    Region(unsigned slots, unsigned subs, bool enforce)
    {
        static int n = 0;
        const std::string p = "/vh_subs_" + std::to_string(::getpid()) + "_" + std::to_string(n++);
        lo::ServiceDataControl* ctl = nullptr;
        const lo::ElementFqId id{1, 1, 1, im::ServiceElementType::EVENT};
        res = sm::SharedMemoryFactory::Create(p, [&](std::shared_ptr<sm::ISharedMemoryResource> m) {
            ctl = m->construct<lo::ServiceDataControl>(std::size_t{1}, *m);
            VH_NEED(ctl->event_controls_.emplace(std::piecewise_construct, std::forward_as_tuple(id), std::forward_as_tuple(static_cast<lo::SlotIndexType>(slots), static_cast<std::uint8_t>(subs), enforce, *m)).second);
        }, 65536U + static_cast<std::size_t>(slots) * 64U * (subs + 2U), sm::SharedMemoryFactory::WorldWritable{});
        VH_NEED(res != nullptr);
        sm::SharedMemoryFactory::Remove(p);
        ev = &ctl->event_controls_.find(id)->second;
    }
};
using Handler = std::shared_ptr<im::ScopedEventReceiveHandler>;
struct Machine
{
    lo::TransactionLogId log;
    lo::ElementFqId id;
    im::QualityType asil;
    lo::ConsumerEventDataControlLocalView<> view;
    std::shared_ptr<lo::SubscriptionStateMachine> sm;
    score::safecpp::Scope<> scope;
    // model
    St state{St::NOT_SUBSCRIBED_STATE};
    bool available{true};
    unsigned count{0};
    pid_t pid{1};
    Handler stored, registered;
    bool maybe{false};  // a receive handler is around which may or may not be taken over by the next subscription
    std::vector<Handler> all;
    bool change_handler{false};
    std::vector<St> expected;
    std::vector<im::SubscriptionState> seen;
    bool keep{true};
    Machine(Region& reg, unsigned i, std::uint32_t l, im::QualityType q)
        : log{l}, id{1, static_cast<std::uint16_t>(i + 1U), 1, im::ServiceElementType::EVENT}, asil{q}, view{reg.ev->data_control},
          sm{std::make_shared<lo::SubscriptionStateMachine>(q, id, 1, view, reg.ev->subscription_control, reg.ev->transaction_log_set_, log)}
    {
    }
    Handler handler()
    {
        all.push_back(std::make_shared<im::ScopedEventReceiveHandler>(scope, []() noexcept {}));
        return all.back();
    }
    void to(St s)
    {
        state = s;
        if (change_handler)
        {
            expected.push_back(s);
            change_handler = keep;
        }
    }
};
const char* name(St s) { return s == St::NOT_SUBSCRIBED_STATE ? "not subscribed" : s == St::SUBSCRIBED_STATE ? "subscribed" : "pending"; }
im::SubscriptionState shown(St s)
{
    return s == St::NOT_SUBSCRIBED_STATE ? im::SubscriptionState::kNotSubscribed : s == St::SUBSCRIBED_STATE ? im::SubscriptionState::kSubscribed : im::SubscriptionState::kSubscriptionPending;
}
void check(Machine& m, cs::Messaging& msg, const char* what)
{
    const auto s = m.sm->GetCurrentState();
    VH_CHECK(s == m.state, "state", "after ", what, " the subscriber is ", name(s), ", not ", name(m.state));
    const auto n = m.sm->GetMaxSampleCount();
    VH_CHECK(n.has_value() == (m.state != St::NOT_SUBSCRIBED_STATE), "count", "after ", what, ", ", name(m.state), ", there is ", n.has_value() ? "a" : "no", " number of samples");
    VH_CHECK(!n.has_value() || n.value() == m.count, "count", "after ", what, " subscribed for ", m.count, " samples, told ", n.value_or(0));
    VH_CHECK(m.sm->GetSlotCollectorLockFree().has_value() == (m.state != St::NOT_SUBSCRIBED_STATE), "collector", "after ", what, ", ", name(m.state), ", samples can",
             m.sm->GetSlotCollectorLockFree().has_value() ? "" : "not", " be collected");
    VH_CHECK(static_cast<const lo::SubscriptionStateMachine&>(*m.sm).GetSlotCollectorLockFree().has_value() == (m.state != St::NOT_SUBSCRIBED_STATE), "collector", "const access differs");
    VH_CHECK(m.sm->GetElementFqId() == m.id, "id", "the element is another one");
    {
        const std::lock_guard<std::mutex> l{msg.m};
        unsigned found = 0;
        for (auto& g : msg.regs)
        {
            if (g.second.id == m.id)
            {
                ++found;
                const auto h = g.second.handler.lock();
                VH_CHECK(g.second.asil == m.asil, "handler", "registered with the other quality");
                if (m.maybe)
                {
                    m.registered = h;  // accepted once, then followed
                }
                VH_CHECK(m.registered != nullptr, "handler", "after ", what, ", ", name(m.state), ", a receive handler is registered although there is none");
                VH_CHECK(h == m.registered, "handler", "after ", what, ", ", name(m.state), ", another receive handler is registered than the one set last");
                VH_CHECK(m.state != St::SUBSCRIBED_STATE || g.second.pid == m.pid, "handler", "after ", what, " the receive handler is registered with process ", g.second.pid,
                         ", the provider is ", m.pid);
            }
        }
        if (m.state == St::SUBSCRIBED_STATE)
        {
            m.maybe = false;
        }
        VH_CHECK(found == (m.registered ? 1U : 0U), "handler", "after ", what, ", ", name(m.state), ", ", found, " receive handlers are registered, not ", m.registered ? 1 : 0);
        VH_CHECK(msg.errors == 0U, "handler", "after ", what, " something not registered was unregistered");
    }
    VH_CHECK(m.seen.size() == m.expected.size(), "notify", "after ", what, " the state change handler has run ", m.seen.size(), " times, not ", m.expected.size());
    for (std::size_t i = 0; i < m.seen.size(); ++i)
    {
        VH_CHECK(m.seen[i] == shown(m.expected[i]), "notify", "change ", i, " was reported as ", static_cast<int>(m.seen[i]), " instead of ", name(m.expected[i]));
    }
    vh::eval();
}
void machine_run(vh::Rng& r, cs::Runtime& rt)
{
    const unsigned subs = static_cast<unsigned>(1U + r.below(5)), n = subs + static_cast<unsigned>(r.below(2));
    const unsigned slots = static_cast<unsigned>(1U + r.below(kSlots));
    const bool enforce = r.chance(60);
    const unsigned limit = enforce ? slots : 65535U;
    Region reg{slots, subs, enforce};
    cs::Messaging& msg = rt.lola.msg;
    msg.regs.clear();
    std::vector<std::unique_ptr<Machine>> ms;
    const bool same = r.chance(50);
    for (unsigned i = 0; i < n; ++i)
    {
        ms.push_back(std::make_unique<Machine>(reg, i, same ? 7U : static_cast<std::uint32_t>(r.below(1000)), r.chance(50) ? im::QualityType::kASIL_QM : im::QualityType::kASIL_B));
    }
    std::uint64_t h = vh::comb(subs * 100U + n, enforce);
    for (unsigned step = 0, steps = static_cast<unsigned>(40U + r.below(100)); step < steps; ++step)
    {
        auto& m = *ms[r.below(n)];
        const char* what = "";
        const unsigned op = static_cast<unsigned>(r.below(100));
        if (op < 30)
        {
            std::size_t want = 1U + r.below(enforce ? 6 : 4);
            if (m.state != St::NOT_SUBSCRIBED_STATE && r.chance(50))
            {
                want = r.chance(70) ? m.count : m.count + 65536U * (1U + r.below(3));
            }
            else if (r.chance(25))
            {
                const std::size_t odd[] = {0U, 65535U, 65536U, 65537U, 65538U, 131072U, static_cast<std::size_t>(-1), 1ULL << 32U, (1ULL << 32U) + 1U, slots, slots + 1U, 32768U, 32767U};
                want = odd[r.below(sizeof odd / sizeof odd[0])];
            }
            unsigned taken = 0, sum = 0;
            for (auto& o : ms)
            {
                taken += o->state != St::NOT_SUBSCRIBED_STATE ? 1U : 0U;
                sum += o->count;
            }
            const auto got = m.sm->SubscribeEvent(want);
            std::optional<im::ComErrc> err;
            if (m.state != St::NOT_SUBSCRIBED_STATE)
            {
                if (want != m.count)
                {
                    err = im::ComErrc::kMaxSampleCountNotRealizable;
                }
            }
            else if (want == 0U || want > 65535U)
            {
                err = im::ComErrc::kMaxSampleCountNotRealizable;
            }
            else if (taken >= subs)
            {
                err = im::ComErrc::kMaxSubscribersExceeded;
            }
            else if (sum + want > limit)
            {
                err = im::ComErrc::kMaxSampleCountNotRealizable;
            }
            VH_CHECK(got.has_value() == !err.has_value(), "subscribe", "subscribing for ", want, " samples ", got.has_value() ? "is accepted" : "fails", " with ", taken, " of ", subs,
                     " subscribers and ", sum, " of ", limit, " samples, the subscriber being ", name(m.state), " for ", m.count);
            VH_CHECK(got.has_value() || got.error() == err.value(), "subscribe", "subscribing for ", want, " samples fails for another reason with ", taken, " of ", subs,
                     " subscribers and ", sum, " of ", limit, " samples");
            if (!err.has_value() && m.state == St::NOT_SUBSCRIBED_STATE)
            {
                m.count = static_cast<unsigned>(want);
                if (m.available)
                {
                    if (m.stored)
                    {
                        m.registered = m.stored;
                        m.stored.reset();
                    }
                }
                m.to(m.available ? St::SUBSCRIBED_STATE : St::SUBSCRIPTION_PENDING_STATE);
                vh::count("subscribed");
            }
            else
            {
                vh::count(err.has_value() ? "refused" : "again");
            }
            h = vh::comb(h, err.has_value() ? static_cast<unsigned>(err.value()) : 99U);
            what = "subscribing";
        }
        else if (op < 45)
        {
            m.sm->UnsubscribeEvent();
            if (m.state != St::NOT_SUBSCRIBED_STATE)
            {
                m.maybe = m.maybe || m.registered != nullptr || m.stored != nullptr;
                m.registered.reset();
                m.stored.reset();
                m.count = 0;
                m.to(St::NOT_SUBSCRIBED_STATE);
            }
            what = "unsubscribing";
        }
        else if (op < 58)
        {
            if (m.state == St::SUBSCRIPTION_PENDING_STATE)
            {
                continue;
            }
            m.sm->StopOfferEvent();
            m.available = false;
            if (m.state == St::SUBSCRIBED_STATE)
            {
                m.to(St::SUBSCRIPTION_PENDING_STATE);
            }
            what = "the provider going away";
        }
        else if (op < 72)
        {
            const pid_t pid = static_cast<pid_t>(2U + r.below(1000));
            m.sm->ReOfferEvent(pid);
            if (m.state != St::SUBSCRIBED_STATE)
            {
                m.available = true;
                m.pid = pid;
            }
            if (m.state == St::SUBSCRIPTION_PENDING_STATE)
            {
                if (m.stored)
                {
                    m.registered = m.stored;
                    m.stored.reset();
                }
                m.to(St::SUBSCRIBED_STATE);
            }
            what = "the provider coming back";
        }
        else if (op < 84)
        {
            const auto hd = m.handler();
            m.sm->SetReceiveHandler(hd);
            m.maybe = false;
            (m.state == St::SUBSCRIBED_STATE ? m.registered : m.stored) = hd;
            what = "setting a receive handler";
        }
        else if (op < 90)
        {
            m.sm->UnsetReceiveHandler();
            m.maybe = false;
            m.stored.reset();
            m.registered.reset();
            what = "unsetting the receive handler";
        }
        else if (op < 96)
        {
            m.keep = r.chance(70);
            m.change_handler = true;
            Machine* self = &m;
            const bool keep = m.keep;
            m.sm->SetSubscriptionStateChangeHandler([self, keep](im::SubscriptionState s) noexcept {
                self->seen.push_back(s);
                return keep;
            });
            what = "setting a state change handler";
        }
        else
        {
            m.change_handler = false;
            m.sm->UnsetSubscriptionStateChangeHandler();
            what = "unsetting the state change handler";
        }
        h = vh::comb(h, vh::comb(op / 10U, static_cast<unsigned>(m.state)));
        for (auto& o : ms)
        {
            check(*o, msg, what);
        }
        vh::distinct(vh::comb(vh::hash_str(what), vh::comb(static_cast<unsigned>(m.state), vh::comb(m.available, vh::comb(m.registered != nullptr, vh::comb(m.stored != nullptr, m.change_handler))))));
        // what can be collected at once is what was subscribed
    }
    vh::distinct(h);
    for (auto& o : ms)
    {
        o->sm->UnsubscribeEvent();
        if (o->state != St::NOT_SUBSCRIBED_STATE)
        {
            o->maybe = false;
            o->registered.reset();
            o->count = 0;
            o->to(St::NOT_SUBSCRIBED_STATE);
        }
        check(*o, msg, "the end");
    }
    const auto l = look(reg.ev->subscription_control, subs, limit);
    VH_CHECK(l.subs == 0U && l.slots == 0U, "account", "after all unsubscribed ", l.subs, " subscribers and ", l.slots, " samples are counted");
    vh::count("machine_runs");
}
// ------------------------------------------------------------------------------------------------------------- threads
void thread_run(vh::Rng& r, cs::Runtime& rt)
{
    const unsigned n = static_cast<unsigned>(1U + r.below(2));
    Region reg{12, 64, r.chance(50)};
    cs::Messaging& msg = rt.lola.msg;
    msg.regs.clear();
    struct One
    {
        std::unique_ptr<Machine> m;
        Handler last;       // the handler set last, if it is certain to be registered at the end
        bool unset{false};  // unset or unsubscribed since
        bool certain{false};
        unsigned count{0};
        pid_t pid{1};
        bool available{true};
        std::uint64_t us{}, ns{};
        unsigned gone{0};
    };
    std::vector<One> ms(n);
    for (unsigned i = 0; i < n; ++i)
    {
        ms[i].m = std::make_unique<Machine>(reg, i, 7U + i, im::QualityType::kASIL_QM);
        Machine* self = ms[i].m.get();
        self->sm->SetSubscriptionStateChangeHandler([self](im::SubscriptionState s) noexcept {
            self->seen.push_back(s);
            return true;
        });
        ms[i].us = r.next();
        ms[i].ns = r.next();
    }
    std::atomic<unsigned> go{2U * n};
    std::vector<std::thread> t;
    auto start = [&go]() {
        go.fetch_sub(1);
        while (go.load() != 0U)
        {
        }
    };
    for (unsigned i = 0; i < n; ++i)
    {
        t.emplace_back([&, i]() {
            auto& o = ms[i];
            vh::Rng q{o.us};
            start();
            for (unsigned k = 0; k < 120U; ++k)
            {
                switch (q.below(6))
                {
                    case 0:
                    case 1:
                        if (o.count == 0U)
                        {
                            const unsigned c = static_cast<unsigned>(1U + q.below(4));
                            VH_CHECK(o.m->sm->SubscribeEvent(c).has_value(), "subscribe", "refused although there is room");
                            o.count = c;
                            if (o.unset)
                            {
                                o.certain = true;
                                o.last.reset();
                            }
                        }
                        else
                        {
                            VH_CHECK(!o.m->sm->SubscribeEvent(o.count + 1U).has_value(), "subscribe", "subscribing twice is accepted");
                        }
                        break;
                    case 2:
                        o.m->sm->UnsubscribeEvent();
                        if (o.count != 0U)
                        {
                            o.certain = !o.last;  // a handler may or may not come back with the next subscription
                        }
                        o.count = 0;
                        break;
                    case 3:
                        o.last = o.m->handler();
                        o.m->sm->SetReceiveHandler(o.last);
                        o.certain = true;
                        o.unset = false;
                        break;
                    case 4:
                        o.m->sm->UnsetReceiveHandler();
                        o.last.reset();
                        o.certain = true;
                        o.unset = true;
                        break;
                    default:
                    {
                        auto& c = o.m->sm->GetSlotCollectorLockFree();
                        VH_CHECK(c.has_value() == (o.count != 0U), "collector", "subscribed for ", o.count, " samples but collecting is ", c.has_value() ? "possible" : "not possible");
                        if (c.has_value())
                        {
                            VH_CHECK(c->GetNumNewSamplesAvailable() == 0U, "collector", "samples appear from nowhere");
                        }
                        const auto m = o.m->sm->GetMaxSampleCount();
                        VH_CHECK(m.value_or(0) == o.count, "count", "subscribed for ", o.count, " samples, told ", m.value_or(0));
                        const auto s = o.m->sm->GetCurrentState();
                        VH_CHECK((s == St::NOT_SUBSCRIBED_STATE) == (o.count == 0U), "state", "subscribed for ", o.count, " samples and ", name(s));
                        break;
                    }
                }
                vh::jitter(q);
            }
        });
        t.emplace_back([&, i]() {
            auto& o = ms[i];
            vh::Rng q{o.ns};
            start();
            for (unsigned k = 0; k < 60U; ++k)
            {
                if (o.available)
                {
                    o.m->sm->StopOfferEvent();
                    o.available = false;
                    ++o.gone;
                }
                else
                {
                    o.pid = static_cast<pid_t>(100U + k);
                    o.m->sm->ReOfferEvent(o.pid);
                    o.available = true;
                }
                if (o.available && q.chance(20))
                {
                    o.m->sm->ReOfferEvent(o.pid);
                }
                const auto s = o.m->sm->GetCurrentState();
                VH_CHECK(s != (o.available ? St::SUBSCRIPTION_PENDING_STATE : St::SUBSCRIBED_STATE), "state", "the provider is ", o.available ? "there" : "gone", " and the subscriber ", name(s));
                vh::jitter(q);
            }
            if (!o.available)
            {
                o.pid = 999;
                o.m->sm->ReOfferEvent(o.pid);
                o.available = true;
            }
        });
    }
    for (auto& x : t)
    {
        x.join();
    }
    for (auto& o : ms)
    {
        const auto s = o.m->sm->GetCurrentState();
        VH_CHECK(s == (o.count != 0U ? St::SUBSCRIBED_STATE : St::NOT_SUBSCRIBED_STATE), "state", "in the end subscribed for ", o.count, " samples and ", name(s));
        VH_CHECK(o.m->sm->GetMaxSampleCount().value_or(0) == o.count, "count", "in the end another number of samples");
        unsigned found = 0;
        for (auto& g : msg.regs)
        {
            if (g.second.id == o.m->id)
            {
                ++found;
                VH_CHECK(g.second.pid == o.pid, "handler", "in the end registered with process ", g.second.pid, ", the provider is ", o.pid);
                VH_CHECK(!o.certain || g.second.handler.lock() == o.last, "handler", "in the end another receive handler is registered than the one set last");
            }
        }
        VH_CHECK(found <= 1U && (o.count != 0U || found == 0U), "handler", "in the end ", found, " receive handlers are registered, ", name(s));
        VH_CHECK(!(o.certain && o.count != 0U) || found == (o.last ? 1U : 0U), "handler", "in the end ", found, " receive handlers are registered, not ", o.last ? 1 : 0);
        // the reported changes are a walk
        auto at = im::SubscriptionState::kNotSubscribed;
        unsigned pend = 0;
        for (const auto x : o.m->seen)
        {
            VH_CHECK(x != at, "notify", "the same state is reported twice");
            pend += x == im::SubscriptionState::kSubscriptionPending ? 1U : 0U;
            at = x;
        }
        VH_CHECK(at == shown(s), "notify", "the state reported last is not the one reached");
        vh::count("changes", o.m->seen.size());
        vh::count("pending", pend);
        vh::distinct(vh::comb(o.m->seen.size(), pend));
        o.m->sm->UnsubscribeEvent();
    }
    VH_CHECK(msg.errors == 0U, "handler", "something not registered was unregistered");
    VH_CHECK(msg.regs.empty(), "handler", msg.regs.size(), " receive handlers stay registered after all unsubscribed");
    vh::count("thread_runs");
    vh::eval();
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed() * 0x9E3779B97F4A7C15ULL + 0xC14U};
    const unsigned scale = static_cast<unsigned>(vh::arg("scale", 8));
    const std::string only = vh::sarg("only", "");
    auto want = [&](const char* n) { return only.empty() || only == n; };
    texts();
    for (unsigned i = 0; want("control") && i < 20U * scale; ++i)
    {
        control_run(r);
    }
    for (unsigned i = 0; want("race") && i < 3U * scale; ++i)
    {
        race_run(r, i % 2U == 0U);
    }
    {
        cs::Runtime rt;
        for (unsigned i = 0; want("machine") && i < 12U * scale; ++i)
        {
            machine_run(r, rt);
        }
        for (unsigned i = 0; want("threads") && i < 5U * scale; ++i)
        {
            thread_run(r, rt);
        }
    }
    vh::finish();
    return 0;
}
