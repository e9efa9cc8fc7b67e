// C13: samples sent by a provider reach every subscriber intact, in order, at most once; the newest is never missed.
// C20: the same while provider and consumer processes die and are started again (--kills 1).
// Every process is a whole one: middleware started from a configuration file, typed or generic proxies and skeletons.
#include "com_e2e.h"
#include "score/mw/com/impl/com_error.h"
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <sys/prctl.h>
#include <thread>
namespace com = score::mw::com;
namespace im = score::mw::com::impl;
using cu::Sample;
namespace
{
constexpr unsigned kEv = 3, kMaxCons = 4;
struct Small
{
    std::uint64_t id, sum;
};
struct Big
{
    std::uint64_t id;
    std::uint8_t body[3000];
    std::uint64_t sum;
};
void fill(Small& s, std::uint64_t id)
{
    s.id = id;
    s.sum = vh::mix(id ^ 5U);
}
bool intact(const Small& s)
{
    const volatile Small& v = s;
    const std::uint64_t id = v.id;
    return v.sum == vh::mix(id ^ 5U);
}
void fill(Big& s, std::uint64_t id)
{
    s.id = id;
    std::memset(s.body, static_cast<int>(id * 37U & 0xFFU), sizeof s.body);
    s.sum = vh::mix(id ^ 9U);
}
bool intact(const Big& s)
{
    const volatile Big& v = s;
    const std::uint64_t id = v.id;
    const auto b = static_cast<std::uint8_t>(id * 37U);
    for (std::size_t i = 0; i < sizeof s.body; i += 7U)
    {
        if (v.body[i] != b)
        {
            return false;
        }
    }
    return v.sum == vh::mix(id ^ 9U);
}
template <typename T>
class Interface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Event<Sample> e0{*this, "e0"};
    typename T::template Event<Small> e1{*this, "e1"};
    typename T::template Event<Big> e2{*this, "e2"};
};
using Skeleton = com::AsSkeleton<Interface>;
using Proxy = com::AsProxy<Interface>;
struct ConsumerPlan
{
    unsigned k[kEv];       // samples subscribed for, 0: not this event
    bool handler, generic, asil_b, threads, resubscribe, moves;
    unsigned slow;         // percent of held samples kept
};
struct Board
{
    // plan
    unsigned slots[kEv], allocs[kEv], subs;
    bool enforce, asil_b, generic_provider, provider_threads, kills, cycles, fresh[kEv];
    unsigned consumers;
    unsigned per_gen;
    ConsumerPlan c[kMaxCons];
    // run
    std::atomic<std::uint64_t> begun[kEv];       // the highest id ever used
    std::atomic<std::uint64_t> done[kEv];        // the highest id sent since the provider was there last, 0: none yet
    std::atomic<unsigned> gen;                   // offered so many times; odd: being offered
    std::atomic<unsigned> fired[kMaxCons][kEv];  // generation a receive handler ran in last
    std::atomic<unsigned> lives[kMaxCons];       // consumer started so many times
    std::atomic<unsigned> connected[kMaxCons];   // with so many lives, subscribed
    std::atomic<unsigned> finished[kMaxCons];
    std::atomic<unsigned> stop;                  // 1: last round of the provider, 2: everything sent
    std::atomic<std::uint64_t> received, resubscribed, handler_runs, sends, refused_restart, held_over_restart, drops;
    std::atomic<unsigned> refused[kMaxCons];
    std::atomic<unsigned> provider_done;
};
Board* b = nullptr;
std::string config(bool provider, unsigned app, bool asil_b)
{
    const bool both = asil_b;
    std::string ev, types;
    for (unsigned i = 0; i < kEv; ++i)
    {
        const std::string n = "e" + std::to_string(i);
        types += (i != 0U ? "," : "") + std::string{"{\"eventName\":\""} + n + "\",\"eventId\":" + std::to_string(i + 1U) + "}";
        ev += (i != 0U ? "," : "") + std::string{"{\"eventName\":\""} + n + "\"";
        if (provider)
        {
            ev += ",\"numberOfSampleSlots\":" + std::to_string(b->slots[i]) + ",\"maxSubscribers\":" + std::to_string(b->subs) + ",\"enforceMaxSamples\":" + (b->enforce ? "true" : "false");
        }
        ev += "}";
    }
    const std::string q = both ? "B" : "QM";
    return R"({"serviceTypes":[{"serviceTypeName":"/s/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":42,"events":[)" + types +
           R"(]}]}],"serviceInstances":[{"instanceSpecifier":"s/inst","serviceTypeName":"/s/If","version":{"major":1,"minor":0},"instances":[{"instanceId":7,"asil-level":")" + q +
           R"(","binding":"SHM","events":[)" + ev + R"(]}]}],"global":{"asil-level":")" + q + R"(","applicationID":)" + std::to_string(app) + "}}";
}
void start_runtime(bool provider, unsigned app, bool asil_b)
{
    const std::string p = e2e::root() + "/cfg_" + std::to_string(::getpid()) + ".json";
    cu::write_file(p, config(provider, app, asil_b));
    com::runtime::InitializeRuntime(com::runtime::RuntimeConfiguration{p});
}
// ------------------------------------------------------------------------------------------------------------ provider
template <class S, class E, class Alloc>
void send_round(vh::Rng& r, E& ev, unsigned i, unsigned n, std::deque<Alloc>& open, bool generic)
{
    // sending to a dead subscriber takes half a second
    const std::uint64_t enough = vh::now_ns() + 1000000000ULL;
    for (unsigned j = 0; j < n && vh::now_ns() < enough; ++j)
    {
        const unsigned kind = static_cast<unsigned>(r.below(10));
        if (kind < 4U || open.size() >= b->allocs[i])
        {
            if (open.empty() || (kind < 2U && open.size() + 1U < b->allocs[i] && !generic))
            {
                if constexpr (!std::is_same_v<Alloc, com::SampleAllocateePtr<void>>)
                {
                    const std::uint64_t id = b->begun[i].load() + 1U;
                    S s;
                    fill(s, id);
                    b->begun[i].store(id);
                    const auto res = ev.Send(s);
                    VH_CHECK(res.has_value(), "send", "sending a copy fails: ", res.has_value() ? "" : std::string(res.error().Message()), " with ", b->slots[i], " slots");
                    b->done[i].store(id);
                    b->sends.fetch_add(1, std::memory_order_relaxed);
                }
            }
            else
            {
                const std::size_t k = r.below(open.size());
                const std::uint64_t id = b->begun[i].load() + 1U;
                b->begun[i].store(id);
                fill(*static_cast<S*>(static_cast<void*>(open[k].Get())), id);
                auto a = std::move(open[k]);
                open.erase(open.begin() + static_cast<std::ptrdiff_t>(k));
                const auto res = ev.Send(std::move(a));
                VH_CHECK(res.has_value(), "send", "sending fails");
                b->done[i].store(id);
                b->sends.fetch_add(1, std::memory_order_relaxed);
            }
        }
        else if (kind < 9U)
        {
            auto a = ev.Allocate();
            VH_CHECK(a.has_value(), "allocate", "event ", i, ": no slot although ", b->slots[i], " slots are enough for all samples in use");
            VH_CHECK(a.value().Get() != nullptr, "allocate", "nothing behind an allocated sample");
            // an allocated slot is the provider's alone
            auto* raw = static_cast<unsigned char*>(static_cast<void*>(a.value().Get()));
            VH_CHECK(reinterpret_cast<std::uintptr_t>(raw) % alignof(S) == 0U, "allocate", "misaligned sample");
            for (auto& o : open)
            {
                VH_CHECK(static_cast<void*>(o.Get()) != static_cast<void*>(raw), "allocate", "a slot is allocated twice");
            }
            std::memset(raw, 0xAA, sizeof(S));
            open.push_back(std::move(a).value());
        }
        else if (!open.empty())
        {
            open.pop_front();  // not sent
            b->drops.fetch_add(1, std::memory_order_relaxed);
        }
        vh::jitter(r, 40);
    }
}
template <class S, class E, class Alloc>
void send_last(E& ev, unsigned i, std::deque<Alloc>& open, bool warm)
{
    open.clear();
    auto one = [&]() {
        auto a = ev.Allocate();
        VH_CHECK(a.has_value(), "allocate", "event ", i, ": no slot although ", b->slots[i], " slots are enough for all samples in use");
        const std::uint64_t id = b->begun[i].load() + 1U;
        b->begun[i].store(id);
        fill(*static_cast<S*>(static_cast<void*>(a.value().Get())), id);
        VH_CHECK(ev.Send(std::move(a).value()).has_value(), "send", "sending fails");
        b->done[i].store(id);
    };
    // until every receive handler is known to be effective
    const unsigned g = b->gen.load();
    auto each = [&](auto f) {
        bool all = true;
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            if (b->c[c].handler && b->c[c].k[i] != 0U && b->refused[c].load() == 0U && b->finished[c].load() == 0U)
            {
                all = f(b->fired[c][i]) && all;
            }
        }
        return all;
    };
    unsigned good = 0;
    const bool ok = !warm || e2e::wait_for([&]() {
        // not one which is late from the provider before
        (void)each([](auto& f) { f.store(0); return true; });
        ::usleep(b->kills ? 20000 : 1000);
        (void)each([](auto& f) { f.store(0); return true; });
        one();
        good = e2e::wait_for([&]() { return each([g](auto& f) { return f.load() == g; }); }, 1) ? good + 1U : 0U;
        return good == 2U;
    }, 60, 2000);
    VH_CHECK(ok, "handler", "event ", i, ": the receive handler of a subscriber does not run however many samples are sent");
    one();
}
template <class Alloc, class Ev0, class Ev1, class Ev2>
void provide(vh::Rng& r, Ev0& e0, Ev1& e1, Ev2& e2, bool generic)
{
    const bool last = b->stop.load() == 1U;
    std::uint64_t seeds[kEv] = {r.next(), r.next(), r.next()};
    std::deque<Alloc> a0;
    std::deque<std::conditional_t<std::is_same_v<Alloc, com::SampleAllocateePtr<void>>, com::SampleAllocateePtr<void>, com::SampleAllocateePtr<Small>>> a1;
    std::deque<std::conditional_t<std::is_same_v<Alloc, com::SampleAllocateePtr<void>>, com::SampleAllocateePtr<void>, com::SampleAllocateePtr<Big>>> a2;
    auto w0 = [&](vh::Rng& q, unsigned n) { send_round<Sample>(q, e0, 0, n, a0, generic); };
    auto w1 = [&](vh::Rng& q, unsigned n) { send_round<Small>(q, e1, 1, n, a1, generic); };
    auto w2 = [&](vh::Rng& q, unsigned n) { send_round<Big>(q, e2, 2, n, a2, generic); };
    if (b->provider_threads)
    {
        std::thread t0{[&]() { vh::Rng q{seeds[0]}; w0(q, b->per_gen); }}, t1{[&]() { vh::Rng q{seeds[1]}; w1(q, b->per_gen); }}, t2{[&]() { vh::Rng q{seeds[2]}; w2(q, b->per_gen); }};
        t0.join();
        t1.join();
        t2.join();
    }
    else
    {
        const std::uint64_t enough = vh::now_ns() + 2000000000ULL;
        for (unsigned i = 0; i < b->per_gen && vh::now_ns() < enough; i += 3U)
        {
            w0(r, 3);
            w1(r, 3);
            w2(r, 3);
        }
    }
    if (last)
    {
        // every subscriber there is gets the last samples
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            VH_CHECK(e2e::wait_for([&]() { return b->connected[c].load() != 0U && b->connected[c].load() == b->lives[c].load(); }, 60) || b->refused[c].load() != 0U, "connect",
                     "a consumer does not get subscribed although the service is offered");
        }
        send_last<Sample>(e0, 0, a0, true);
        send_last<Small>(e1, 1, a1, true);
        send_last<Big>(e2, 2, a2, true);
        b->stop.store(2);
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            VH_CHECK(e2e::wait_for([&]() { return b->finished[c].load() != 0U || b->refused[c].load() != 0U; }, 70), "finish", "a consumer does not get the last samples");
        }
    }
}
template <class F>
void offering(vh::Rng& r, F&& round, const std::function<bool()>& offer, const std::function<void()>& stop)
{
    for (;;)
    {
        for (auto& d : b->done)
        {
            d.store(0);
        }
        // a consumer looking at the same moment may hold the provider up
        unsigned refusals = 0;
        while (!offer())
        {
            ++refusals;
            vh::count("offer_refused");
            VH_CHECK(refusals < 100U && (b->kills || b->cycles), "offer", "offering fails");
            ::usleep(20000);
        }
        b->gen.fetch_add(1);
        round();
        const bool end = b->stop.load() == 2U;
        for (auto& d : b->done)
        {
            d.store(0);
        }
        b->gen.fetch_add(1);
        stop();
        if (end)
        {
            break;
        }
        if (r.chance(50))
        {
            ::usleep(static_cast<useconds_t>(r.below(20000)));
        }
        vh::count("offer_cycles");
    }
}
void provider(std::uint64_t seed)
{
    vh::Rng r{seed};
    if (b->gen.load() % 2U != 0U)
    {
        b->gen.fetch_add(1);  // the one before died while offering
    }
    start_runtime(true, 10, b->asil_b);
    auto finish_gen = [&]() {
        // how long this round is: to the end, or until told otherwise
        if (!b->cycles && !b->kills)
        {
            b->stop.store(1);
        }
    };
    if (b->generic_provider)
    {
        const im::EventInfo info[] = {{"e0", {sizeof(Sample), alignof(Sample)}}, {"e1", {sizeof(Small), alignof(Small)}}, {"e2", {sizeof(Big), alignof(Big)}}};
        im::GenericSkeletonServiceElementInfo in;
        in.events = {info, 3};
        auto res = im::GenericSkeleton::Create(cu::spec("s/inst"), in);
        VH_CHECK(res.has_value(), "create", "no generic skeleton: ", res.has_value() ? "" : std::string(res.error().Message()));
        im::GenericSkeleton sk = std::move(res).value();
        auto evs = sk.GetEvents();
        auto& e0 = const_cast<im::GenericSkeletonEvent&>(evs.find("e0")->second);
        auto& e1 = const_cast<im::GenericSkeletonEvent&>(evs.find("e1")->second);
        auto& e2 = const_cast<im::GenericSkeletonEvent&>(evs.find("e2")->second);
        offering(r, [&]() { finish_gen(); provide<com::SampleAllocateePtr<void>>(r, e0, e1, e2, true); }, [&]() { return sk.OfferService().has_value(); },
                 [&]() { sk.StopOfferService(); });
    }
    else
    {
        auto res = Skeleton::Create(cu::spec("s/inst"));
        VH_CHECK(res.has_value(), "create", "no skeleton: ", res.has_value() ? "" : std::string(res.error().Message()));
        Skeleton first = std::move(res).value();
        VH_CHECK(!first.e0.Allocate().has_value() && !first.e1.Send(Small{}).has_value(), "offer", "sending works before the service is offered");
        Skeleton sk = std::move(first);
        offering(r, [&]() { finish_gen(); provide<com::SampleAllocateePtr<Sample>>(r, sk.e0, sk.e1, sk.e2, false); }, [&]() { return sk.OfferService().has_value(); },
                 [&]() {
                     sk.StopOfferService();
                     VH_CHECK(!sk.e0.Allocate().has_value() && !sk.e1.Send(Small{}).has_value(), "offer", "sending works after the offer was stopped");
                 });
    }
    b->provider_done.store(1);
}
// ------------------------------------------------------------------------------------------------------------ consumer
template <class P>
const void* raw(const P& p)
{
    return static_cast<const void*>(p.get());
}
template <class S, class E, class Ptr>
class Reader
{
  public:
    Reader(E& e, unsigned i, unsigned c) : ev_{e}, i_{i}, c_{c}, plan_{b->c[c]}, k_{plan_.k[i]} {}
    void subscribe()
    {
        VH_CHECK(ev_.GetSubscriptionState() == com::SubscriptionState::kNotSubscribed, "state", "subscribed before subscribing");
        const auto res = ev_.Subscribe(k_);
        VH_CHECK(res.has_value(), "subscribe", "event ", i_, ": subscribing for ", k_, " samples of ", b->slots[i_], " fails");
        VH_CHECK(ev_.GetSubscriptionState() != com::SubscriptionState::kNotSubscribed, "state", "not subscribed after subscribing");
        VH_CHECK(ev_.GetFreeSampleCount() == k_, "free", "after subscribing for ", k_, " samples ", ev_.GetFreeSampleCount(), " can be had");
        if (plan_.handler)
        {
            b->fired[c_][i_].store(0);
            const auto h = ev_.SetReceiveHandler([this]() noexcept {
                b->handler_runs.fetch_add(1, std::memory_order_relaxed);
                const unsigned g = b->gen.load();
                {
                    const std::lock_guard<std::mutex> l{m_};
                    ++fires_;
                }
                b->fired[c_][i_].store(g);
                cv_.notify_all();
            });
            VH_CHECK(h.has_value(), "handler", "setting a receive handler fails");
        }
        last_ = 0;
    }
    std::uint64_t fires()
    {
        const std::lock_guard<std::mutex> l{m_};
        return fires_;
    }
    bool wait_fire(std::uint64_t old, unsigned ms)
    {
        std::unique_lock<std::mutex> l{m_};
        return cv_.wait_for(l, std::chrono::milliseconds(ms), [&]() { return fires_ != old; });
    }
    void check_held()
    {
        for (auto& h : held_)
        {
            const auto& s = *static_cast<const S*>(raw(h.second));
            VH_CHECK(intact(s) && s.id == h.first, "torn", "event ", i_, ": sample ", h.first, " was changed while it is held: ", s.id);
        }
    }
    // one look for new samples
    bool poll(vh::Rng& r, bool drain)
    {
        check_held();
        const std::size_t before_held = held_.size();
        const unsigned g = b->gen.load();
        const bool up = ev_.GetSubscriptionState() == com::SubscriptionState::kSubscribed;
        const std::uint64_t sure = b->done[i_].load();
        const std::uint64_t sent_again = b->done[i_].load();
        const unsigned g2 = b->gen.load();
        const std::size_t room = k_ - held_.size();
        VH_CHECK(ev_.GetFreeSampleCount() == room, "free", "event ", i_, ": ", held_.size(), " of ", k_, " samples are held and ", ev_.GetFreeSampleCount(), " free");
        const std::size_t ask = r.chance(70) ? k_ : 1U + r.below(k_ + 2U);
        std::size_t calls = 0;
        if (r.chance(20))
        {
            const auto n = ev_.GetNumNewSamplesAvailable();
            VH_CHECK(n.has_value(), "count", "asking for the number of new samples fails");
            VH_CHECK(!(g == g2 && g % 2U == 1U && up && b->fresh[i_] && sure > last_) || b->gen.load() != g || n.value() > 0U, "count", "event ", i_, ": sample ", sure,
                     " was sent, ", last_, " received last and no new one is said to be there");
        }
        const auto got = ev_.GetNewSamples([&](Ptr p) noexcept {
            ++calls;
            VH_CHECK(static_cast<bool>(p), "empty", "an empty sample is handed over");
            const auto& s = *static_cast<const S*>(raw(p));
            VH_CHECK(intact(s), "torn", "event ", i_, ": a torn sample ", s.id);
            const std::uint64_t id = s.id;
            VH_CHECK(id > last_, "order", "event ", i_, ": sample ", id, " after ", last_);
            VH_CHECK(id <= b->begun[i_].load(), "order", "event ", i_, ": sample ", id, " which was never sent");
            gap_ = vh::comb(gap_, id - last_);
            last_ = id;
            b->received.fetch_add(1, std::memory_order_relaxed);
            if (!drain && r.chance(plan_.slow))
            {
                held_.emplace_back(id, std::move(p));
            }
            else if (r.chance(10))
            {
                Ptr q = std::move(p);
                VH_CHECK(intact(*static_cast<const S*>(raw(q))), "torn", "moved sample is torn");
                q = nullptr;
            }
        }, ask);
        if (room == 0U)
        {
            VH_CHECK(!got.has_value() && got.error() == im::ComErrc::kMaxSamplesReached, "free", "event ", i_, ": all ", k_, " samples are held and asking for more does not say so");
            vh::count("max_reached");
        }
        else
        {
            VH_CHECK(got.has_value(), "get", "event ", i_, ": getting samples fails: ", got.has_value() ? "" : std::string(got.error().Message()));
            VH_CHECK(got.value() == calls, "count", "event ", i_, ": ", calls, " samples are handed over and ", got.value_or(0), " reported");
            VH_CHECK(calls <= std::min(ask, room), "count", "event ", i_, ": ", calls, " samples are handed over of ", ask, " wanted with room for ", room);
            // nothing newer than what was certainly there may be missing
            if (g == g2 && g % 2U == 1U && up && b->fresh[i_] && sure == sent_again && b->gen.load() == g)
            {
                VH_CHECK(last_ >= sure, "missed", "event ", i_, ": sample ", sure, " was sent before asking (", ask, ", room for ", room, ") and ", last_, " is the newest received, ", calls,
                         " handed over");
                vh::count("fresh_checks");
            }
        }
        VH_CHECK(ev_.GetFreeSampleCount() == k_ - held_.size(), "free", "event ", i_, ": ", held_.size(), " of ", k_, " samples are held and ", ev_.GetFreeSampleCount(), " free");
        vh::eval();
        vh::distinct(vh::comb(vh::comb(calls, before_held), vh::comb(last_ > sure, gap_ % 64U)));
        if (!held_.empty() && held_gen_ != 0U && held_gen_ != g)
        {
            b->held_over_restart.fetch_add(1, std::memory_order_relaxed);
        }
        held_gen_ = g;
        while (!held_.empty() && (drain || held_.size() >= k_ || r.chance(40)) && !(r.chance(20) && !drain))
        {
            const std::size_t x = r.below(held_.size());
            held_.erase(held_.begin() + static_cast<std::ptrdiff_t>(x));
        }
        if (plan_.resubscribe && !drain && r.chance(2))
        {
            check_held();
            held_.clear();
            ev_.Unsubscribe();
            VH_CHECK(ev_.GetSubscriptionState() == com::SubscriptionState::kNotSubscribed, "state", "subscribed after unsubscribing");
            b->connected[c_].store(0);
            subscribe();
            b->connected[c_].store(b->lives[c_].load());
            b->resubscribed.fetch_add(1, std::memory_order_relaxed);
            return false;
        }
        return room != 0U;
    }
    void run(std::uint64_t seed)
    {
        if (k_ == 0U)
        {
            return;
        }
        vh::Rng r{seed};
        std::uint64_t t0 = 0;
        while (true)
        {
            const bool all = b->stop.load() == 2U;
            const std::uint64_t f = fires();
            const bool looked = poll(r, all);
            if (all && looked)
            {
                if (last_ == b->begun[i_].load())
                {
                    break;
                }
                VH_CHECK(!b->fresh[i_], "missed", "event ", i_, ": ", b->begun[i_].load(), " was sent last, ", last_, " received last");
                VH_CHECK(b->done[i_].load() != 0U, "missed", "end of the run");
                if (t0 == 0U)
                {
                    t0 = vh::now_ns();
                }
                VH_CHECK(vh::now_ns() - t0 < 40000000000ULL, "missed", "event ", i_, ": ", b->begun[i_].load(), " was sent last, ", last_, " received last");
            }
            if (plan_.handler && looked && r.chance(90))
            {
                // a receive handler that ran once for this offer runs for every later sample
                const unsigned g = b->gen.load();
                const bool effective = b->fired[c_][i_].load() == g && g % 2U == 1U;
                if (!effective)
                {
                    ::usleep(500);
                }
                else if (!wait_fire(f, 2) && b->stop.load() == 2U && last_ < b->begun[i_].load())
                {
                    VH_CHECK(wait_fire(f, 40000), "handler", "event ", i_, ": ", b->begun[i_].load(), " was sent last, ", last_, " received last, and the receive handler does not run");
                }
            }
            else
            {
                vh::jitter(r, 70);
            }
        }
        check_held();
        held_.clear();
    }
    E& event() { return ev_; }
    void end(bool unset)
    {
        if (k_ == 0U)
        {
            return;
        }
        if (plan_.handler && unset)
        {
            VH_CHECK(ev_.UnsetReceiveHandler().has_value(), "handler", "unsetting the receive handler fails");
            const std::uint64_t f = fires();
            ::usleep(300);
            VH_CHECK(fires() == f, "handler", "a receive handler runs after it was unset");
        }
        ev_.Unsubscribe();
    }
    unsigned k() const { return k_; }

  private:
    E& ev_;
    const unsigned i_, c_;
    const ConsumerPlan plan_;
    const unsigned k_;
    std::deque<std::pair<std::uint64_t, Ptr>> held_;
    std::uint64_t last_{0}, gap_{0};
    unsigned held_gen_{0};
    std::mutex m_;
    std::condition_variable cv_;
    std::uint64_t fires_{0};
};
template <class P0, class P1, class P2, class E0, class E1, class E2>
void consume(vh::Rng& r, unsigned c, E0& e0, E1& e1, E2& e2)
{
    Reader<Sample, E0, P0> r0{e0, 0, c};
    Reader<Small, E1, P1> r1{e1, 1, c};
    Reader<Big, E2, P2> r2{e2, 2, c};
    auto sub = [](auto& x) {
        if (x.k() != 0U)
        {
            x.subscribe();
        }
    };
    sub(r0);
    sub(r1);
    sub(r2);
    b->connected[c].store(b->lives[c].load());
    const std::uint64_t s0 = r.next(), s1 = r.next(), s2 = r.next();
    std::thread t0{[&]() { r0.run(s0); }}, t1{[&]() { r1.run(s1); }};
    r2.run(s2);
    t0.join();
    t1.join();
    const bool unset = r.chance(50);
    const bool late = r.chance(50);
    if (late)
    {
        b->finished[c].store(1);
        ::usleep(static_cast<useconds_t>(r.below(3000)));
    }
    r0.end(unset);
    r1.end(unset);
    r2.end(unset);
}
void consumer(unsigned c, std::uint64_t seed)
{
    vh::Rng r{seed};
    const auto& plan = b->c[c];
    start_runtime(false, 100U + c, plan.asil_b);
    std::optional<im::HandleType> handle;
    const bool ok = e2e::wait_for([&]() {
        auto h = Proxy::FindService(cu::spec("s/inst"));
        VH_CHECK(h.has_value(), "find", "searching fails");
        VH_CHECK(h.value().size() <= 1U, "find", "one instance is found ", h.value().size(), " times");
        if (h.value().empty())
        {
            return false;
        }
        handle.emplace(h.value().front());
        return true;
    }, 60, 1000);
    if (!ok)
    {
        vh::violation("find", "an offered service is not found");
    }
    if (plan.generic)
    {
        std::optional<im::GenericProxy> px;
        const bool made = e2e::wait_for([&]() {
            auto res = im::GenericProxy::Create(*handle);
            if (res.has_value())
            {
                px.emplace(std::move(res).value());
                return true;
            }
            VH_CHECK(b->kills || b->cycles, "create", "no proxy although the service is offered: ", std::string(res.error().Message()));
            return false;
        }, 30, 2000);
        if (!made)
        {
            VH_CHECK(b->lives[c].load() > 1U, "create", "the proxy cannot be created");
            b->refused[c].store(1);
            b->refused_restart.fetch_add(1);
            return;
        }
        auto evs = px->GetEvents();
        VH_CHECK(evs.size() == 3U, "generic", "a generic proxy has ", evs.size(), " events");
        auto& e0 = const_cast<im::GenericProxyEvent&>(evs.find("e0")->second);
        auto& e1 = const_cast<im::GenericProxyEvent&>(evs.find("e1")->second);
        auto& e2 = const_cast<im::GenericProxyEvent&>(evs.find("e2")->second);
        VH_CHECK(e0.GetSampleSize() == sizeof(Sample) && e1.GetSampleSize() == sizeof(Small) && e2.GetSampleSize() == sizeof(Big) && !e0.HasSerializedFormat(), "generic",
                 "a generic proxy knows another sample size");
        consume<com::SamplePtr<void>, com::SamplePtr<void>, com::SamplePtr<void>>(r, c, e0, e1, e2);
    }
    else
    {
        std::optional<Proxy> px;
        const bool made = e2e::wait_for([&]() {
            auto res = Proxy::Create(*handle);
            if (res.has_value())
            {
                px.emplace(std::move(res).value());
                return true;
            }
            VH_CHECK(b->kills || b->cycles, "create", "no proxy although the service is offered: ", std::string(res.error().Message()));
            return false;
        }, 30, 2000);
        if (!made)
        {
            VH_CHECK(b->lives[c].load() > 1U, "create", "the proxy cannot be created");
            b->refused[c].store(1);
            b->refused_restart.fetch_add(1);
            return;
        }
        if (plan.moves)
        {
            Proxy q{std::move(*px)};
            consume<com::SamplePtr<Sample>, com::SamplePtr<Small>, com::SamplePtr<Big>>(r, c, q.e0, q.e1, q.e2);
        }
        else
        {
            consume<com::SamplePtr<Sample>, com::SamplePtr<Small>, com::SamplePtr<Big>>(r, c, px->e0, px->e1, px->e2);
        }
    }
    b->finished[c].store(1);
}
// --------------------------------------------------------------------------------------------------------------- parent
void run(vh::Rng& r, unsigned n, bool kills)
{
    const std::string rt = vh::scratch() + "/r" + std::to_string(n);
    for (const char* d : {"", "/dev", "/dev/shm", "/tmp", "/var", "/var/lock", "/etc"})
    {
        VH_NEED(::mkdir((rt + d).c_str(), 0777) == 0);
        ::chmod((rt + d).c_str(), 0777);
    }
    b = e2e::board<Board>(rt + "/board", true);
    b->consumers = static_cast<unsigned>(1U + r.below(kMaxCons));
    b->subs = b->consumers + static_cast<unsigned>(r.below(2)) + (kills ? 1U : 0U);
    b->asil_b = r.chance(50);
    b->enforce = r.chance(60);
    b->generic_provider = r.chance(30);
    b->provider_threads = r.chance(50);
    b->kills = kills;
    b->cycles = r.chance(kills ? 30 : 25);
    b->per_gen = static_cast<unsigned>(r.range(60, kills ? 400 : 300));
    for (unsigned c = 0; c < b->consumers; ++c)
    {
        auto& p = b->c[c];
        for (unsigned i = 0; i < kEv; ++i)
        {
            p.k[i] = r.chance(80) ? static_cast<unsigned>(1U + r.below(4)) : 0U;
        }
        p.handler = r.chance(kills ? 35 : 50);
        p.generic = r.chance(30);
        p.asil_b = b->asil_b && r.chance(50);
        p.resubscribe = r.chance(30);
        p.moves = r.chance(30);
        p.slow = static_cast<unsigned>(r.below(100));
    }
    for (unsigned i = 0; i < kEv; ++i)
    {
        b->allocs[i] = static_cast<unsigned>(1U + r.below(3));
        unsigned sum = b->allocs[i];
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            sum += b->c[c].k[i];
        }
        b->fresh[i] = r.chance(75);
        b->slots[i] = sum + (b->fresh[i] ? 1U + static_cast<unsigned>(r.below(3)) : 0U);
    }
    const std::string bp = rt + "/board";
    pid_t prov = 0;
    pid_t cons[kMaxCons]{};
    auto start_provider = [&]() { prov = e2e::start(rt, {"--role", "provider", "--board", bp, "--seed", std::to_string(r.next())}); };
    auto start_consumer = [&](unsigned c) {
        b->lives[c].fetch_add(1);
        cons[c] = e2e::start(rt, {"--role", "consumer", "--board", bp, "--c", std::to_string(c), "--seed", std::to_string(r.next())});
    };
    const bool provider_first = r.chance(70);
    if (provider_first)
    {
        start_provider();
    }
    for (unsigned c = 0; c < b->consumers; ++c)
    {
        if (r.chance(30))
        {
            ::usleep(static_cast<useconds_t>(r.below(10000)));
        }
        start_consumer(c);
    }
    if (!provider_first)
    {
        start_provider();
    }
    auto reap = [&](pid_t& p, bool killed, const char* what) {
        int st = 0;
        VH_NEED(::waitpid(p, &st, 0) == p);
        const bool good = e2e::ended(st, killed, what);
        e2e::collect(p, rt);
        p = 0;
        return good;
    };
    if (kills)
    {
        const unsigned ends = static_cast<unsigned>(2U + r.below(5));
        for (unsigned k = 0; k < ends; ++k)
        {
            ::usleep(static_cast<useconds_t>(r.below(r.chance(50) ? 30000 : 150000)));
            if (r.chance(45))
            {
                ::kill(prov, SIGKILL);
                (void)reap(prov, true, "provider");
                vh::count("provider_killed");
                if (r.chance(50))
                {
                    ::usleep(static_cast<useconds_t>(r.below(30000)));
                }
                start_provider();
            }
            else
            {
                const unsigned c = static_cast<unsigned>(r.below(b->consumers));
                ::kill(cons[c], SIGKILL);
                (void)reap(cons[c], true, "consumer");
                vh::count("consumer_killed");
                start_consumer(c);
            }
        }
    }
    if (b->cycles && !kills)
    {
        ::usleep(static_cast<useconds_t>(r.below(200000)));
    }
    unsigned ended_itself = 0;
    bool given_up = false;
    b->stop.store(1);
    const bool finished = e2e::wait_for([&]() {
        // whoever fails is reported at once
        auto look = [&](pid_t& p, const char* what) {
            int st = 0;
            bool again = false;
            if (p != 0 && ::waitpid(p, &st, WNOHANG) == p)
            {
                again = !e2e::ended(st, false, what);
                e2e::collect(p, rt);
                p = 0;
                if (again)
                {
                    ++ended_itself;
                    if (ended_itself >= 8U)
                    {
                        vh::count("left_lock_file");  // known finding, see --mode opener
                        again = false;
                        given_up = true;
                    }
                }
            }
            return again;
        };
        if (given_up)
        {
            return true;
        }
        if (look(prov, "provider"))
        {
            start_provider();
        }
        bool all = prov == 0;
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            if (look(cons[c], "consumer"))
            {
                start_consumer(c);
            }
            all = all && cons[c] == 0;
        }
        return all;
    }, 150, 1000);
    if (!finished)
    {
        std::string t = vh::str("stop ", b->stop.load(), " gen ", b->gen.load(), " provider ", prov, ";");
        for (unsigned i = 0; i < kEv; ++i)
        {
            t += vh::str(" event ", i, " begun ", b->begun[i].load(), " done ", b->done[i].load(), ";");
        }
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            t += vh::str(" consumer ", c, " pid ", cons[c], " lives ", b->lives[c].load(), " connected ", b->connected[c].load(), " finished ", b->finished[c].load(), " refused ", b->refused[c].load(), " handler ",
                         b->c[c].handler, " ran ", b->fired[c][0].load(), " ", b->fired[c][1].load(), " ", b->fired[c][2].load(), " takes ", b->c[c].k[0], " ", b->c[c].k[1], " ", b->c[c].k[2], ";");
        }
        if (vh::arg("stay", 0) != 0U)
        {
            std::fprintf(stderr, "%s\n", t.c_str());
            ::sleep(3600);
        }
        vh::violation("hang", "the processes do not come to an end: " + t);
    }
    if (given_up)
    {
        for (unsigned c = 0; c < b->consumers; ++c)
        {
            if (cons[c] != 0)
            {
                ::kill(cons[c], SIGKILL);
                (void)reap(cons[c], true, "consumer");
            }
        }
        if (prov != 0)
        {
            ::kill(prov, SIGKILL);
            (void)reap(prov, true, "provider");
        }
    }
    VH_CHECK(given_up || b->provider_done.load() == 1U, "end", "the provider did not come to its end");
    vh::count("received", b->received.load());
    vh::count("sends", b->sends.load());
    vh::count("handler_runs", b->handler_runs.load());
    vh::count("resubscribed", b->resubscribed.load());
    vh::count("refused_restart", b->refused_restart.load());
    vh::count("held_over_restart", b->held_over_restart.load());
    vh::count("not_sent", b->drops.load());
    vh::count("offers", (b->gen.load() + 1U) / 2U);
    vh::count("runs");
    ::munmap(b, sizeof *b);
    std::error_code ec;
    std::filesystem::remove_all(rt, ec);
}
// ---------------------------------------------------------------------------------- two situations which are known findings
// A consumer that dies while it opens the shared memory leaves the lock file; who comes next gives up by ending itself.
// A consumer that dies with a receive handler set delays every Send of the provider until it is started again.
void probe_provider()
{
    start_runtime(true, 10, false);
    auto res = Skeleton::Create(cu::spec("s/inst"));
    VH_NEED(res.has_value());
    Skeleton sk = std::move(res).value();
    VH_NEED(sk.OfferService().has_value());
    b->gen.store(1);
    Sample s;
    std::uint64_t id = 0;
    auto one = [&]() {
        fill(s, ++id);
        VH_CHECK(sk.e0.Send(s).has_value(), "send", "sending fails");
    };
    VH_NEED(e2e::wait_for([&]() {
        one();
        return b->fired[0][0].load() != 0U || b->stop.load() != 0U;
    }, 40, 2000));
    VH_NEED(e2e::wait_for([&]() { return b->stop.load() != 0U; }));
    const std::uint64_t t0 = vh::now_ns();
    for (unsigned i = 0; i < 8U; ++i)
    {
        one();
    }
    b->sends.store((vh::now_ns() - t0) / 1000000U);
    b->provider_done.store(1);
    VH_NEED(e2e::wait_for([&]() { return b->stop.load() == 2U; }));
    sk.StopOfferService();
}
void probe_consumer(bool die_opening)
{
    if (die_opening)
    {
        verif::g_os_hook = [](const char* op, const char* path, int) {
            if (std::strcmp(op, "shm_open") == 0 && path != nullptr && std::strstr(path, "lola-data") != nullptr)
            {
                ::raise(SIGKILL);
            }
            return 0;
        };
    }
    start_runtime(false, 100, false);
    std::optional<im::HandleType> handle;
    VH_NEED(e2e::wait_for([&]() {
        auto h = Proxy::FindService(cu::spec("s/inst"));
        if (!h.has_value() || h.value().empty())
        {
            return false;
        }
        handle.emplace(h.value().front());
        return true;
    }));
    auto res = Proxy::Create(*handle);
    VH_CHECK(res.has_value(), "create", "no proxy");
    Proxy px = std::move(res).value();
    VH_NEED(px.e0.Subscribe(1).has_value());
    VH_NEED(px.e0.SetReceiveHandler([]() noexcept { b->fired[0][0].store(1); }).has_value());
    VH_NEED(e2e::wait_for([&]() { return b->stop.load() != 0U; }));
    px.e0.Unsubscribe();
}
void probe(bool opener)
{
    const std::string rt = vh::scratch() + "/p";
    for (const char* d : {"", "/dev", "/dev/shm", "/tmp", "/var", "/var/lock", "/etc"})
    {
        VH_NEED(::mkdir((rt + d).c_str(), 0777) == 0);
        ::chmod((rt + d).c_str(), 0777);
    }
    const std::string bp = rt + "/board";
    b = e2e::board<Board>(bp, true);
    b->slots[0] = b->slots[1] = b->slots[2] = 10;
    b->subs = 3;
    b->kills = true;
    auto go = [&](const char* role) { return e2e::start(rt, {"--role", role, "--board", bp}); };
    const pid_t p = go("probe_provider");
    int st = 0;
    VH_NEED(e2e::wait_for([&]() { return b->gen.load() == 1U; }));
    pid_t c = go(opener ? "probe_opener" : "probe_consumer");
    if (!opener)
    {
        VH_NEED(e2e::wait_for([&]() { return b->fired[0][0].load() != 0U; }));
        ::kill(c, SIGKILL);
    }
    VH_NEED(::waitpid(c, &st, 0) == c && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
    bool bad = false;
    if (opener)
    {
        c = go("probe_consumer");
        VH_NEED(e2e::wait_for([&]() { return ::waitpid(c, &st, WNOHANG) == c || b->fired[0][0].load() != 0U; }));
        bad = b->fired[0][0].load() == 0U;
        b->stop.store(1);
        if (!bad)
        {
            VH_NEED(::waitpid(c, &st, 0) == c);
        }
        VH_NEED(WIFEXITED(st) && WEXITSTATUS(st) == (bad ? 77 : 0));
    }
    b->stop.store(1);
    VH_NEED(e2e::wait_for([&]() { return b->provider_done.load() == 1U; }));
    b->stop.store(2);
    VH_NEED(::waitpid(p, &st, 0) == p);
    (void)e2e::ended(st, false, "provider");
    vh::eval();
    vh::count("probes");
    VH_CHECK(!bad, "dead-opener", "a consumer which cannot open shared memory since another one died while opening it ends itself, and so does every other until the service is offered anew");
    VH_CHECK(opener || b->sends.load() < 1500U, "dead-subscriber", "8 samples take ", b->sends.load(), " ms to send as a subscriber with a receive handler died and was not started again");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    const std::string role = vh::sarg("role", "");
    if (!role.empty())
    {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        e2e::enter_role();
        b = e2e::board<Board>(vh::sarg("board", ""), false);
        std::set_terminate([]() {
            // Whoever opens shared memory whose creator died within it gives up by ending itself (SharedMemoryResource)
            if (b->kills && std::strstr(verif::g_last_fatal, "Lock file still present") != nullptr)
            {
                ::_exit(77);
            }
            std::abort();
        });
        if (role == "probe_provider")
        {
            probe_provider();
        }
        else if (role.rfind("probe", 0) == 0)
        {
            probe_consumer(role == "probe_opener");
        }
        else if (role == "provider")
        {
            provider(vh::seed());
        }
        else
        {
            consumer(static_cast<unsigned>(vh::arg("c", 0)), vh::seed());
        }
        e2e::leave_role();
    }
    (void)vh::scratch();
    const std::string mode = vh::sarg("mode", "");
    if (!mode.empty())
    {
        probe(mode == "opener");
        vh::finish();
        return 0;
    }
    vh::Rng r{vh::seed() * 0x9E3779B97F4A7C15ULL + 0xC13U};
    const unsigned runs = static_cast<unsigned>(vh::arg("runs", 12));
    for (unsigned i = 0; i < runs; ++i)
    {
        run(r, i, vh::arg("kills", 0) != 0U);
    }
    vh::finish();
    return 0;
}
