// C17: whoever looks for a service sees the instances that are offered, and learns of every change.
//  churn    several applications in one process, threads offering, withdrawing, searching, asking
//  restart  provider processes that die anywhere and are started again; searches running all the while
//  faults   offers and searches whose file system calls fail
// An application is a service discovery with its own client (and its own worker thread), as the runtime has them.
#include "com_e2e.h"
#include "score/concurrency/long_running_threads_container.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.h"
#include "score/mw/com/impl/configuration/lola_service_instance_deployment.h"
#include "score/mw/com/impl/configuration/lola_service_instance_id.h"
#include "score/mw/com/impl/configuration/lola_service_type_deployment.h"
#include "score/mw/com/impl/handle_type.h"
#include "score/mw/com/impl/i_binding_runtime.h"
#include "score/mw/com/impl/i_runtime.h"
#include "score/mw/com/impl/instance_identifier.h"
#include "score/mw/com/impl/service_discovery.h"

#include <cerrno>
#include <deque>
#include <filesystem>
#include <list>
#include <memory>
#include <optional>
#include <thread>
#include <vector>
namespace im = score::mw::com::impl;
namespace lo = score::mw::com::impl::lola;
using Handles = im::ServiceHandleContainer<im::HandleType>;
namespace
{
constexpr unsigned kServices = 3, kInstances = 4, kItems = kServices * kInstances;
// service ids and instance ids that are prefixes of each other, and the largest ones
constexpr std::uint16_t kServiceIds[kServices] = {1, 12, 65535};
constexpr std::uint16_t kInstanceIds[kInstances] = {1, 10, 101, 65535};

struct Deployments
{
    im::ServiceIdentifierType type;
    im::ServiceTypeDeployment type_dep;
    std::deque<im::ServiceInstanceDeployment> inst;
    Deployments(unsigned s)
        : type{im::make_ServiceIdentifierType("/verif/service" + std::to_string(s), 1, 0)},
          type_dep{im::LolaServiceTypeDeployment{kServiceIds[s]}}
    {
        for (unsigned q = 0; q < 2U; ++q)
        {
            for (unsigned i = 0; i <= kInstances; ++i)
            {
                const auto spec = im::InstanceSpecifier::Create(std::string{"verif/s" + std::to_string(s) + "i" + std::to_string(i) + "q" + std::to_string(q)}).value();
                lo::ElementFqId unused{};
                (void)unused;
                std::optional<im::LolaServiceInstanceId> id;
                if (i < kInstances)
                {
                    id = im::LolaServiceInstanceId{kInstanceIds[i]};
                }
                inst.emplace_back(type, im::LolaServiceInstanceDeployment{id}, q == 1U ? im::QualityType::kASIL_B : im::QualityType::kASIL_QM, spec);
            }
        }
    }
};
Deployments& dep(unsigned s)
{
    static auto* all = new std::deque<Deployments>{};
    static const bool once = [] {
        for (unsigned k = 0; k < kServices; ++k)
        {
            all->emplace_back(k);
        }
        return true;
    }();
    (void)once;
    return (*all)[s];
}
// i == kInstances: any instance
im::InstanceIdentifier ident(unsigned s, unsigned i, bool b)
{
    auto& d = dep(s);
    return im::make_InstanceIdentifier(d.inst[(b ? kInstances + 1U : 0U) + i], d.type_dep);
}

struct App
{
    struct Binding final : im::IBindingRuntime
    {
        lo::ServiceDiscoveryClient* c{nullptr};
        im::BindingType GetBindingType() const noexcept override { return im::BindingType::kLoLa; }
        im::IServiceDiscoveryClient& GetServiceDiscoveryClient() & noexcept override { return *c; }
        im::tracing::IBindingTracingRuntime* GetTracingRuntime() noexcept override { return nullptr; }
    };
    struct Runtime final : im::IRuntime
    {
        mutable Binding b;
        im::ServiceDiscovery* sd{nullptr};
        std::vector<im::InstanceIdentifier> resolve(const im::InstanceSpecifier& sp) const override
        {
            for (unsigned s = 0; s < kServices; ++s)
            {
                for (unsigned k = 0; k < 2U * (kInstances + 1U); ++k)
                {
                    if (dep(s).inst[k].instance_specifier_ == sp)
                    {
                        return {im::make_InstanceIdentifier(dep(s).inst[k], dep(s).type_dep)};
                    }
                }
            }
            return {};
        }
        im::IBindingRuntime* GetBindingRuntime(const im::BindingType) const noexcept override { return &b; }
        im::IServiceDiscovery& GetServiceDiscovery() & noexcept override { return *sd; }
        im::tracing::ITracingRuntime* GetTracingRuntime() const noexcept override { return nullptr; }
        const im::tracing::ITracingFilterConfig* GetTracingFilterConfig() const override { return nullptr; }
    };
    score::concurrency::LongRunningThreadsContainer threads;
    Runtime rt;
    std::optional<lo::ServiceDiscoveryClient> client;
    std::optional<im::ServiceDiscovery> sd;
    App()
    {
        client.emplace(threads);
        rt.b.c = &*client;
        sd.emplace(rt);
        rt.sd = &*sd;
    }
    ~App()
    {
        sd.reset();
        client.reset();
    }
};

// What is offered. Odd sequence number: being changed.
struct Item
{
    std::atomic<std::uint64_t> seq{0};
    std::atomic<bool> qm{false}, b{false};
};
struct Truth
{
    Item item[kItems];
    bool offered(unsigned it, bool b) const { return b ? item[it].b.load() : item[it].qm.load(); }
    std::set<unsigned> want(unsigned s, unsigned i, bool b) const
    {
        std::set<unsigned> w;
        for (unsigned k = 0; k < kInstances; ++k)
        {
            if ((i == kInstances || i == k) && offered(s * kInstances + k, b))
            {
                w.insert(k);
            }
        }
        return w;
    }
};
std::string show(const std::set<unsigned>& w)
{
    std::string r = "{";
    for (const unsigned k : w)
    {
        r += " " + std::to_string(kInstanceIds[k]);
    }
    return r + " }";
}
// The instances in an answer, which has to be well formed
std::set<unsigned> decode(const Handles& h, unsigned s, unsigned i, const char* who)
{
    std::set<unsigned> got;
    for (const auto& e : h)
    {
        const im::InstanceIdentifierView v{e.GetInstanceIdentifier()};
        VH_CHECK(im::ServiceIdentifierTypeView{v.GetServiceInstanceDeployment().service_}.getInternalTypeName() ==
                     im::ServiceIdentifierTypeView{dep(s).type}.getInternalTypeName(),
                 "wrong_service", who, " gives an instance of another service");
        const auto sid = e.GetInstanceId();
        const auto* id = std::get_if<im::LolaServiceInstanceId>(&sid.binding_info_);
        VH_CHECK(id != nullptr, "wrong_service", who, " gives a handle without instance id");
        unsigned k = 0;
        while (k < kInstances && kInstanceIds[k] != id->GetId())
        {
            ++k;
        }
        VH_CHECK(k < kInstances && (i == kInstances || i == k), "wrong_instance", who, " for ", i == kInstances ? "any instance" : std::to_string(kInstanceIds[i]), " gives ",
                 id->GetId());
        VH_CHECK(got.insert(k).second, "twice", who, " gives instance ", id->GetId(), " twice");
    }
    return got;
}

// One running search and what its handler was told
struct Search
{
    unsigned s{0}, i{0};
    bool b{false};
    std::mutex m;
    std::set<unsigned> last;
    std::uint64_t calls{0};
    std::uint64_t lost[kInstances]{}, found[kInstances]{};
    std::atomic<int> running{0};
    std::atomic<bool> stopped{false};
    std::atomic<bool> claimed{false};  // one stops a search: its handler or somebody else
    std::atomic<bool> starting{true};
    std::atomic<std::size_t> uid{0};
    std::optional<im::FindServiceHandle> handle;
};
using Searched = std::shared_ptr<Search>;
std::size_t uid_of(const im::FindServiceHandle& h) { return im::FindServiceHandleView{h}.getUid(); }

struct Watcher
{
    App& app;
    unsigned slow_percent;
    std::mutex m;
    std::list<Searched> searches;
    std::atomic<bool> inside_ok;  // handlers may start and stop searches themselves
    Watcher(App& a, unsigned slow, bool inside) : app{a}, slow_percent{slow}, inside_ok{inside} {}

    // The handler of a search
    void told(const std::weak_ptr<Search>& w, const Handles& h, const im::FindServiceHandle& fh)
    {
        const Searched se = w.lock();
        if (se == nullptr)
        {
            return;
        }
        VH_CHECK(!se->stopped.load(), "after_stop", "the handler of a search is called after StopFindService has returned");
        VH_CHECK(se->running.fetch_add(1) == 0, "overlap", "the handler of a search is called while it is running");
        const auto got = decode(h, se->s, se->i, "a search");
        if (!se->starting.load())
        {
            VH_CHECK(uid_of(fh) == se->uid.load(), "handle", "a handler is called with the handle of another search");
        }
        std::uint64_t n = 0;
        {
            const std::lock_guard<std::mutex> l{se->m};
            VH_CHECK(got != se->last, "no_change", "a handler is called with ", show(got), ", which it was told before");
            for (unsigned k = 0; k < kInstances; ++k)
            {
                se->found[k] += got.count(k) > se->last.count(k) ? 1U : 0U;
                se->lost[k] += got.count(k) < se->last.count(k) ? 1U : 0U;
            }
            se->last = got;
            n = ++se->calls;
        }
        vh::Rng r{vh::mix(n) ^ reinterpret_cast<std::uintptr_t>(se.get()) ^ vh::now_ns()};
        if (r.chance(slow_percent))
        {
            ::usleep(static_cast<useconds_t>(r.below(3000)));
            vh::count("slow_handlers");
        }
        bool self_stopped = false;
        if (inside_ok.load() && r.chance(6))
        {
            vh::count("searches_by_handlers");
            start(static_cast<unsigned>(r.below(kServices)), static_cast<unsigned>(r.below(kInstances + 1U)), r.chance(50));
        }
        if (inside_ok.load() && r.chance(3) && !se->claimed.exchange(true))
        {
            vh::count("stopped_by_handlers");
            VH_CHECK(app.sd->StopFindService(fh).has_value(), "stop", "stopping a search in its handler fails");
            self_stopped = true;
        }
        vh::eval();
        vh::distinct(vh::comb(vh::comb(se->s * 8U + se->i, se->b), vh::hash_str(show(got))));
        VH_CHECK(se->running.fetch_sub(1) == 1, "overlap", "the handler of a search is called while it is running");
        if (self_stopped)
        {
            se->stopped.store(true);
            const std::lock_guard<std::mutex> l{m};
            searches.remove(se);
        }
    }
    Searched start(unsigned s, unsigned i, bool b, bool may_fail = false)
    {
        auto se = std::make_shared<Search>();
        se->s = s;
        se->i = i;
        se->b = b;
        {
            const std::lock_guard<std::mutex> l{m};
            searches.push_back(se);
        }
        auto handler = [this, w = std::weak_ptr<Search>{se}](Handles h, im::FindServiceHandle fh) { told(w, h, fh); };
        const auto id = ident(s, i, b);
        const bool by_specifier = (s + i) % 2U == 0U;
        auto r = by_specifier ? app.sd->StartFindService(std::move(handler), im::InstanceIdentifierView{id}.GetServiceInstanceDeployment().instance_specifier_)
                              : app.sd->StartFindService(std::move(handler), id);
        if (!r.has_value())
        {
            VH_CHECK(may_fail, "start", "a search cannot be started: ", r.error());
            se->stopped.store(true);
            const std::lock_guard<std::mutex> l{m};
            searches.remove(se);
            return nullptr;
        }
        se->uid.store(uid_of(r.value()));
        se->starting.store(false);
        const std::lock_guard<std::mutex> l{se->m};
        se->handle.emplace(r.value());
        return se;
    }
    // From outside of the handler: when this is back, the handler is not running and never will again.
    void stop(const Searched& se)
    {
        std::optional<im::FindServiceHandle> h;
        {
            const std::lock_guard<std::mutex> l{se->m};
            h = se->handle;
        }
        if (!h.has_value() || se->claimed.exchange(true))
        {
            return;
        }
        {
            const std::lock_guard<std::mutex> l{m};
            searches.remove(se);
        }
        VH_CHECK(app.sd->StopFindService(*h).has_value(), "stop", "stopping a search fails");
        VH_CHECK(se->running.load() == 0, "after_stop", "the handler of a search is running after StopFindService has returned");
        se->stopped.store(true);
        vh::count("stopped");
    }
    std::vector<Searched> all()
    {
        const std::lock_guard<std::mutex> l{m};
        return {searches.begin(), searches.end()};
    }
    void ask(const Truth& t, vh::Rng& r)
    {
        const unsigned s = static_cast<unsigned>(r.below(kServices)), i = static_cast<unsigned>(r.below(kInstances + 1U));
        const bool b = r.chance(50);
        std::uint64_t before[kInstances];
        bool was[kInstances];
        for (unsigned k = 0; k < kInstances; ++k)
        {
            before[k] = t.item[s * kInstances + k].seq.load();
            was[k] = t.offered(s * kInstances + k, b);
        }
        const auto id = ident(s, i, b);
        const auto f = r.chance(50) ? app.sd->FindService(id) : app.sd->FindService(im::InstanceIdentifierView{id}.GetServiceInstanceDeployment().instance_specifier_);
        VH_CHECK(f.has_value(), "find", "FindService fails: ", f.error());
        const auto got = decode(f.value(), s, i, "FindService");
        for (unsigned k = 0; k < kInstances; ++k)
        {
            if (before[k] % 2U == 0U && t.item[s * kInstances + k].seq.load() == before[k] && (i == kInstances || i == k))
            {
                VH_CHECK((got.count(k) == 1U) == was[k], was[k] ? "find_missing" : "find_ghost", "FindService for ASIL ", b ? "B" : "QM", " tells instance ",
                         kInstanceIds[k], " is ", was[k] ? "not there, but it is offered" : "there, but it is not offered");
                vh::eval();
                vh::count(was[k] ? "asked_offered" : "asked_not_offered");
            }
        }
    }
};

// Providers keep still: every search comes to know exactly what is offered, and that remains so.
void settle(const Truth& t, const std::vector<Watcher*>& ws, const char* when)
{
    const std::uint64_t end = vh::now_ns() + 40000000000ULL;
    unsigned good = 0;
    for (;;)
    {
        std::string wrong;
        for (auto* w : ws)
        {
            for (const auto& se : w->all())
            {
                const auto want = t.want(se->s, se->i, se->b);
                const std::lock_guard<std::mutex> l{se->m};
                if (se->last != want)
                {
                    bool ghost = false;
                    for (const unsigned k : se->last)
                    {
                        ghost = ghost || want.count(k) == 0U;
                    }
                    wrong = (ghost ? "stays_offered" : "not_found");
                    wrong += vh::str("|", when, ": the search for service ", kServiceIds[se->s], se->i == kInstances ? " any instance" : " one instance", " ASIL ",
                                     se->b ? "B" : "QM", " ends with ", show(se->last), ", offered is ", show(want));
                }
            }
        }
        good = wrong.empty() ? good + 1U : 0U;
        if (good > 8U)
        {
            break;
        }
        if (vh::now_ns() > end)
        {
            const auto bar = wrong.find('|');
            vh::violation(wrong.substr(0, bar), wrong.substr(bar + 1U));
        }
        ::usleep(1000);
    }
    for (auto* w : ws)
    {
        vh::eval(w->all().size());
        vh::count("searches_settled", w->all().size());
    }
}
void no_files_left(const std::string& rt, const char* when)
{
    for (auto& e : std::filesystem::recursive_directory_iterator(rt))
    {
        if (e.is_regular_file() && e.path().string().find("service_discovery") != std::string::npos)
        {
            vh::violation("left_behind", vh::str(when, ": ", e.path().filename().string(), " is left behind"));
        }
    }
    vh::eval();
}

// --------------------------------------------------------------------------------------------------------------- churn
struct Gate
{
    std::atomic<unsigned> phase{0}, arrived{0};
    std::atomic<bool> end{false};
};
void provider(App& app, Truth& t, std::vector<unsigned> items, vh::Rng r, Gate& g, unsigned ops)
{
    unsigned phase = 0;
    struct Off
    {
        bool on{false}, b{false}, qm{false};
    };
    std::map<unsigned, Off> st;
    for (;;)
    {
        for (unsigned o = 0; o < ops; ++o)
        {
            const unsigned it = r.pick(items);
            const unsigned s = it / kInstances, i = it % kInstances;
            Off& f = st[it];
            Item& x = t.item[it];
            if (!f.on)
            {
                if (r.chance(4))
                {
                    VH_CHECK(!app.sd->StopOfferService(ident(s, i, f.b)).has_value(), "stop_twice", "withdrawing what is not offered succeeds");
                    continue;
                }
                f.b = r.chance(50);
                x.seq.fetch_add(1);
                VH_CHECK(app.sd->OfferService(ident(s, i, f.b)).has_value(), "offer", "offering fails");
                f.on = f.qm = true;
                x.qm = true;
                x.b = f.b;
                x.seq.fetch_add(1);
                vh::count("offers");
            }
            else if (r.chance(6))
            {
                VH_CHECK(!app.sd->OfferService(ident(s, i, f.b)).has_value(), "offer_twice", "offering what is offered succeeds");
                continue;
            }
            else if (f.b && f.qm && r.chance(25))
            {
                x.seq.fetch_add(1);
                VH_CHECK(app.sd->StopOfferService(ident(s, i, f.b), im::IServiceDiscovery::QualityTypeSelector::kAsilQm).has_value(), "stop_offer",
                         "withdrawing for QM fails");
                f.qm = false;
                x.qm = false;
                x.seq.fetch_add(1);
                vh::count("withdrawn_qm");
            }
            else
            {
                x.seq.fetch_add(1);
                VH_CHECK(app.sd->StopOfferService(ident(s, i, f.b)).has_value(), "stop_offer", "withdrawing fails");
                f = Off{false, f.b, false};
                x.qm = false;
                x.b = false;
                x.seq.fetch_add(1);
                vh::count("withdrawn");
            }
            if (r.chance(20))
            {
                ::usleep(static_cast<useconds_t>(r.below(1500)));
            }
            vh::jitter(r);
        }
        g.arrived.fetch_add(1);
        while (g.phase.load() == phase)
        {
            ::usleep(200);
        }
        ++phase;
        if (g.end.load())
        {
            break;
        }
    }
    for (auto& f : st)
    {
        if (f.second.on)
        {
            t.item[f.first].seq.fetch_add(1);
            VH_CHECK(app.sd->StopOfferService(ident(f.first / kInstances, f.first % kInstances, f.second.b)).has_value(), "stop_offer", "withdrawing fails");
            t.item[f.first].qm = false;
            t.item[f.first].b = false;
            t.item[f.first].seq.fetch_add(1);
        }
    }
}
void churn(vh::Rng& r)
{
    const std::string rt = vh::scratch() + "/c" + std::to_string(r.next() % 100000U);
    std::filesystem::create_directories(rt);
    verif::set_root(rt);
    auto truth = std::make_unique<Truth>();
    Truth& t = *truth;
    const unsigned np = 1U + static_cast<unsigned>(r.below(3)), nw = 1U + static_cast<unsigned>(r.below(2));
    const unsigned phases = 3U + static_cast<unsigned>(r.below(3)), ops = 10U + static_cast<unsigned>(r.below(60));
    std::vector<std::unique_ptr<App>> apps;
    for (unsigned k = 0; k < std::max(np, nw) + 1U; ++k)
    {
        apps.push_back(std::make_unique<App>());
    }
    // the watching application may be one of the providers
    const unsigned shift = static_cast<unsigned>(r.below(2));
    std::deque<Watcher> ws;
    std::vector<Watcher*> wp;
    for (unsigned k = 0; k < nw; ++k)
    {
        ws.emplace_back(*apps[k + shift], static_cast<unsigned>(r.below(2) * 40U), true);
        wp.push_back(&ws.back());
    }
    Gate g;
    std::vector<std::thread> th;
    std::vector<std::vector<unsigned>> own(np);
    for (unsigned it = 0; it < kItems; ++it)
    {
        own[r.below(np)].push_back(it);
    }
    for (auto& o : own)
    {
        if (o.empty())
        {
            o.push_back(kItems);
        }
    }
    unsigned nprov = 0;
    for (unsigned k = 0; k < np; ++k)
    {
        if (own[k][0] == kItems)
        {
            continue;
        }
        ++nprov;
        th.emplace_back([&, k, seed = r.next()] { provider(*apps[k], t, own[k], vh::Rng{seed}, g, ops); });
    }
    std::atomic<bool> stop{false};
    std::vector<std::thread> wth;
    std::atomic<unsigned> pause{0}, paused{0};
    unsigned nwth = 0;
    for (auto& w : ws)
    {
        for (unsigned k = 0; k < 2U; ++k)
        {
            ++nwth;
            wth.emplace_back([&, seed = r.next()] {
                vh::Rng q{seed};
                while (!stop.load())
                {
                    if (pause.load() != 0U)
                    {
                        paused.fetch_add(1);
                        while (pause.load() != 0U && !stop.load())
                        {
                            ::usleep(200);
                        }
                        paused.fetch_sub(1);
                        continue;
                    }
                    const auto all = w.all();
                    if (all.size() < 3U || (all.size() < 14U && q.chance(40)))
                    {
                        w.start(static_cast<unsigned>(q.below(kServices)), static_cast<unsigned>(q.chance(40) ? kInstances : q.below(kInstances)), q.chance(50));
                        vh::count("searches");
                    }
                    else if (q.chance(40))
                    {
                        // one thread only stops what another may stop too: taken out of the list first
                        Searched se = all[q.below(all.size())];
                        bool mine = false;
                        {
                            const std::lock_guard<std::mutex> l{w.m};
                            for (auto i = w.searches.begin(); i != w.searches.end(); ++i)
                            {
                                if (*i == se && !se->starting.load())
                                {
                                    w.searches.erase(i);
                                    mine = true;
                                    break;
                                }
                            }
                        }
                        if (mine)
                        {
                            w.stop(se);
                        }
                    }
                    else
                    {
                        w.ask(t, q);
                    }
                    if (q.chance(30))
                    {
                        ::usleep(static_cast<useconds_t>(q.below(800)));
                    }
                }
            });
        }
    }
    for (unsigned ph = 0; ph < phases; ++ph)
    {
        VH_CHECK(e2e::wait_for([&] { return g.arrived.load() == nprov; }, 60), "stuck", "offering and withdrawing do not come to an end");
        pause.store(1);
        VH_CHECK(e2e::wait_for([&] { return paused.load() == nwth; }, 60), "stuck", "searching and asking do not come to an end");
        for (auto* w : wp)
        {
            w->inside_ok.store(false);
        }
        settle(t, wp, "churn");
        for (auto* w : wp)
        {
            for (unsigned k = 0; k < 6U; ++k)
            {
                w->ask(t, r);
            }
            w->inside_ok.store(true);
        }
        g.arrived.store(0);
        pause.store(0);
        if (ph + 1U == phases)
        {
            g.end.store(true);
        }
        g.phase.fetch_add(1);
    }
    for (auto& x : th)
    {
        x.join();
    }
    pause.store(1);
    VH_CHECK(e2e::wait_for([&] { return paused.load() == nwth; }, 60), "stuck", "searching and asking do not come to an end");
    settle(t, wp, "everything withdrawn");
    stop.store(true);
    for (auto& x : wth)
    {
        x.join();
    }
    no_files_left(rt, "everything withdrawn");
    // searches still run when their application ends
    apps.clear();
    verif::set_root(vh::scratch());
    std::filesystem::remove_all(rt);
    vh::count("churns");
}

// ------------------------------------------------------------------------------------------------------------- restart
struct RBoard
{
    std::atomic<std::uint32_t> offered, want_exit, begun;
};
void role_provider()
{
    e2e::enter_role();
    auto* bd = e2e::board<RBoard>(e2e::root() + "/board", false);
    const auto mask = static_cast<unsigned>(vh::arg("items", 0)), bmask = static_cast<unsigned>(vh::arg("bs", 0));
    const std::uint64_t kill_at = vh::arg("kill", 0);
    static std::atomic<std::uint64_t> seen{0};
    static std::uint64_t limit{0};
    limit = kill_at;
    App app;
    if (kill_at != 0U)
    {
        verif::g_os_hook = [](const char* op, const char*, int) -> int {
            if (std::strncmp(op, "fs_", 3) == 0 && seen.fetch_add(1) + 1U == limit)
            {
                (void)::kill(::getpid(), SIGKILL);
            }
            return 0;
        };
    }
    bd->begun.fetch_add(1);
    for (unsigned it = 0; it < kItems; ++it)
    {
        if ((mask >> it & 1U) != 0U)
        {
            VH_CHECK(app.sd->OfferService(ident(it / kInstances, it % kInstances, (bmask >> it & 1U) != 0U)).has_value(), "offer", "offering after a crash fails");
        }
    }
    bd->offered.fetch_add(1);
    while (bd->want_exit.load() == 0U)
    {
        ::usleep(300);
    }
    for (unsigned it = 0; it < kItems; ++it)
    {
        if ((mask >> it & 1U) != 0U)
        {
            VH_CHECK(app.sd->StopOfferService(ident(it / kInstances, it % kInstances, (bmask >> it & 1U) != 0U)).has_value(), "stop_offer", "withdrawing fails");
        }
    }
    e2e::leave_role();
}
void restart(vh::Rng& r)
{
    const std::string rt = vh::scratch() + "/r" + std::to_string(r.next() % 100000U);
    std::filesystem::create_directories(rt);
    verif::set_root(rt);
    auto* bd = e2e::board<RBoard>(rt + "/board", true);
    {
        App app;
        Watcher w{app, static_cast<unsigned>(r.below(2) * 40U), false};
        Truth t;
        const auto mask = static_cast<unsigned>(1U + r.below((1U << kItems) - 1U)), bmask = static_cast<unsigned>(r.below(1U << kItems));
        for (unsigned s = 0; s < kServices; ++s)
        {
            w.start(s, kInstances, r.chance(50));
            w.start(s, static_cast<unsigned>(r.below(kInstances)), r.chance(50));
        }
        auto args = [&](std::uint64_t kill_at) {
            return std::vector<std::string>{"--role", "provider", "--items", std::to_string(mask), "--bs", std::to_string(bmask), "--kill", std::to_string(kill_at)};
        };
        auto now = [&](bool on) {
            for (unsigned it = 0; it < kItems; ++it)
            {
                t.item[it].qm = on && (mask >> it & 1U) != 0U;
                t.item[it].b = on && (mask >> it & 1U) != 0U && (bmask >> it & 1U) != 0U;
            }
        };
        const unsigned rounds = 2U + static_cast<unsigned>(r.below(3));
        for (unsigned k = 0; k < rounds; ++k)
        {
            // a provider that dies, in the middle of offering or when it has offered everything
            const bool middle = r.chance(60);
            const std::uint32_t o = bd->offered.load();
            const pid_t p = e2e::start(rt, args(middle ? 1U + r.below(60) : 0U));
            if (middle)
            {
                siginfo_t si{};
                VH_CHECK(e2e::wait_for(
                             [&] {
                                 si = siginfo_t{};
                                 (void)::waitid(P_PID, static_cast<id_t>(p), &si, WEXITED | WNOHANG | WNOWAIT);
                                 return si.si_pid == p || bd->offered.load() != o;
                             },
                             40),
                         "stuck", "offering after a crash does not come to an end");
                vh::count("died_offering", si.si_pid == p ? 1U : 0U);
            }
            else
            {
                VH_CHECK(e2e::wait_for([&] { return bd->offered.load() != o; }), "stuck", "offering after a crash does not come to an end");
                now(true);
                settle(t, {&w}, "after a restart");
                // withdrawn and offered again without anybody asking: seen as gone and there again
                now(true);
            }
            (void)::kill(p, SIGKILL);
            int st = 0;
            VH_NEED(::waitpid(p, &st, 0) == p);
            (void)e2e::ended(st, true, "provider");
            vh::count("crashes");
            if (!middle)
            {
                // the next one: each search that knows an instance has to see it go and come back
                struct Was
                {
                    Searched se;
                    std::set<unsigned> known;
                    std::uint64_t lost[kInstances], found[kInstances];
                };
                std::vector<Was> was;
                for (const auto& se : w.all())
                {
                    const std::lock_guard<std::mutex> l{se->m};
                    Was x{se, se->last, {}, {}};
                    std::copy(std::begin(se->lost), std::end(se->lost), x.lost);
                    std::copy(std::begin(se->found), std::end(se->found), x.found);
                    was.push_back(x);
                }
                const std::uint32_t o2 = bd->offered.load();
                bd->want_exit.store(0);
                const pid_t p2 = e2e::start(rt, args(0));
                VH_CHECK(e2e::wait_for([&] { return bd->offered.load() != o2; }), "stuck", "offering after a crash does not come to an end");
                VH_CHECK(e2e::wait_for([&] {
                             for (const auto& x : was)
                             {
                                 const std::lock_guard<std::mutex> l{x.se->m};
                                 for (const unsigned i : x.known)
                                 {
                                     if (x.se->lost[i] == x.lost[i] || x.se->found[i] == x.found[i])
                                     {
                                         return false;
                                     }
                                 }
                             }
                             return true;
                         }),
                         "restart_unseen", "a search does not see that a provider was started again");
                vh::count("restarts_seen", was.size());
                settle(t, {&w}, "after a restart");
                bd->want_exit.store(1);
                VH_NEED(::waitpid(p2, &st, 0) == p2);
                if (e2e::ended(st, false, "provider"))
                {
                    e2e::collect(p2, rt);
                }
                bd->want_exit.store(0);
                now(false);
                settle(t, {&w}, "after the provider has ended");
                no_files_left(rt, "the provider has ended");
            }
        }
        // whatever was left: one that ends as it should leaves nothing
        const std::uint32_t o = bd->offered.load();
        const pid_t p = e2e::start(rt, args(0));
        VH_CHECK(e2e::wait_for([&] { return bd->offered.load() != o; }), "stuck", "offering after a crash does not come to an end");
        now(true);
        settle(t, {&w}, "after a restart");
        for (unsigned k = 0; k < 10U; ++k)
        {
            w.ask(t, r);
        }
        bd->want_exit.store(1);
        int st = 0;
        VH_NEED(::waitpid(p, &st, 0) == p);
        if (e2e::ended(st, false, "provider"))
        {
            e2e::collect(p, rt);
        }
        now(false);
        settle(t, {&w}, "after the provider has ended");
        no_files_left(rt, "the provider has ended");
    }
    ::munmap(bd, sizeof *bd);
    verif::set_root(vh::scratch());
    std::filesystem::remove_all(rt);
    vh::count("restart_runs");
}

// -------------------------------------------------------------------------------------------------------------- faults
thread_local unsigned g_fail_at = 0, g_ops = 0, g_times = 0;
thread_local int g_err = 0;
thread_local bool g_armed = false, g_fired = false;
int fail_hook(const char* op, const char*, int)
{
    if (!g_armed || (std::strncmp(op, "fs_", 3) != 0 && std::strncmp(op, "inotify_", 8) != 0) || std::strcmp(op, "fs_remove") == 0)
    {
        return 0;
    }
    ++g_ops;
    if (g_ops >= g_fail_at && g_ops < g_fail_at + g_times)
    {
        g_fired = true;
        return g_err;
    }
    return 0;
}
void faults(vh::Rng& r)
{
    const std::string rt = vh::scratch() + "/f" + std::to_string(r.next() % 100000U);
    std::filesystem::create_directories(rt);
    verif::set_root(rt);
    {
        App prov, look;
        Watcher w{look, 0, false};
        Truth t;
        const unsigned s = static_cast<unsigned>(r.below(kServices)), i = static_cast<unsigned>(r.below(kInstances));
        const bool b = r.chance(60);
        Item& x = t.item[s * kInstances + i];
        const bool early = r.chance(70);
        auto arm = [&](unsigned upto) {
            g_ops = 0;
            g_fired = false;
            g_fail_at = 1U + static_cast<unsigned>(r.below(upto));
            g_times = r.chance(60) ? 1U : 1000U;
            const int errs[] = {EACCES, ENOSPC, EIO, EMFILE};
            g_err = errs[r.below(4)];
            g_armed = true;
        };
        verif::g_os_hook = fail_hook;
        if (early)
        {
            w.start(s, kInstances, b);
            w.start(s, i, r.chance(50));
            w.start(s, i, b);
        }
        if (r.chance(50))
        {
            arm(8);
            const auto se = w.start(s, r.chance(50) ? kInstances : i, b, true);
            g_armed = false;
            vh::count(g_fired ? (se == nullptr ? "searches_failed" : "searches_survived") : "faults_unused");
        }
        for (unsigned k = 0; k < 3U; ++k)
        {
            arm(b ? 24 : 12);
            const auto o = prov.sd->OfferService(ident(s, i, b));
            g_armed = false;
            vh::distinct(vh::comb(vh::comb(g_fail_at, g_times), vh::comb(static_cast<unsigned>(g_err), b ? 1U : 0U)));
            vh::count(g_fired ? (o.has_value() ? "offers_survived" : "offers_failed") : "faults_unused");
            x.qm = o.has_value();
            x.b = o.has_value() && b;
            settle(t, {&w}, o.has_value() ? "after an offer during faults" : "after an offer that failed");
            if (r.chance(50))
            {
                w.start(s, r.chance(50) ? kInstances : i, r.chance(50));
                settle(t, {&w}, o.has_value() ? "search after an offer during faults" : "search after an offer that failed");
            }
            for (unsigned n = 0; n < 4U; ++n)
            {
                w.ask(t, r);
            }
            if (o.has_value())
            {
                x.qm = false;
                x.b = false;
                VH_CHECK(prov.sd->StopOfferService(ident(s, i, b)).has_value(), "stop_offer", "withdrawing fails");
            }
            no_files_left(rt, o.has_value() ? "withdrawn" : "after an offer that failed");
        }
        VH_CHECK(prov.sd->OfferService(ident(s, i, b)).has_value(), "offer", "offering fails after an offer that failed");
        x.qm = true;
        x.b = b;
        settle(t, {&w}, "after an offer without faults");
        x.qm = false;
        x.b = false;
        VH_CHECK(prov.sd->StopOfferService(ident(s, i, b)).has_value(), "stop_offer", "withdrawing fails");
        settle(t, {&w}, "after withdrawing");
        verif::g_os_hook = nullptr;
    }
    verif::set_root(vh::scratch());
    std::filesystem::remove_all(rt);
    vh::count("fault_runs");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    if (vh::sarg("role", "") == "provider")
    {
        role_provider();
    }
    (void)vh::scratch();
    vh::Rng r{vh::seed()};
    const std::string mode = vh::sarg("mode", "all");
    const unsigned runs = static_cast<unsigned>(vh::arg("runs", 3));
    for (unsigned k = 0; k < runs; ++k)
    {
        if (mode == "all" || mode == "churn")
        {
            churn(r);
        }
        if (mode == "all" || mode == "restart")
        {
            restart(r);
        }
        if (mode == "all" || mode == "faults")
        {
            for (unsigned f = 0; f < 6U; ++f)
            {
                faults(r);
            }
        }
    }
    vh::finish();
}
