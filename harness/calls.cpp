// C18: a method call runs the provider's handler exactly once, with the arguments given, and brings back its result.
// C19 (--fields 1): a field is one register: Get, Set, Update and subscriptions agree about the order of its values.
// Every process is a whole one. Providers stop and start offering; --kills 1: processes are killed and started again.
#include "com_e2e.h"
#include "score/mw/com/impl/com_error.h"
#include <algorithm>
#include <deque>
#include <filesystem>
#include <shared_mutex>
#include <sys/prctl.h>
#include <thread>
namespace com = score::mw::com;
namespace im = score::mw::com::impl;
namespace
{
constexpr unsigned kMaxCons = 3, kMaxThr = 3, kFields = 3;
constexpr std::uint64_t kTickets = 1U << 16, kWrites = 1U << 15, kReads = 1U << 16, kCallers = 4096;
struct Big
{
    std::uint64_t caller{0}, seq{0};
    std::uint8_t body[4000]{};
    std::uint64_t sum{0};
};
struct Call
{
    std::uint64_t caller{0}, seq{0}, sum{0};
};
std::atomic<void (*)()> g_making{nullptr};
struct Small
{
    Small()
    {
        if (auto* h = g_making.load(std::memory_order_relaxed))
        {
            h();
        }
    }
    std::uint64_t n{0}, sum{0};
};
struct Val
{
    std::uint64_t n{0};
    std::uint32_t body[70]{};
    std::uint32_t accepted{0};
    std::uint64_t sum{0};
};
std::uint64_t digest(const void* p, std::size_t n)
{
    std::uint64_t h = 77;
    const auto* c = static_cast<const volatile std::uint8_t*>(p);
    for (std::size_t i = 0; i < n; ++i)
    {
        h = h * 1099511628211ULL + c[i];
    }
    return h;
}
void fill(Big& b, std::uint64_t caller, std::uint64_t seq)
{
    b.caller = caller;
    b.seq = seq;
    std::memset(b.body, static_cast<int>((caller * 31U + seq) & 0xFFU), sizeof b.body);
    b.sum = vh::mix(caller * 1000003U + seq);
}
bool intact(const Big& b)
{
    const volatile Big& v = b;
    const std::uint64_t c = v.caller, s = v.seq;
    const auto x = static_cast<std::uint8_t>(c * 31U + s);
    for (std::size_t i = 0; i < sizeof b.body; i += 5U)
    {
        if (v.body[i] != x)
        {
            return false;
        }
    }
    return v.body[sizeof b.body - 1U] == x && v.sum == vh::mix(c * 1000003U + s);
}
void fill(Val& v, std::uint64_t n, bool accepted)
{
    v.n = n;
    for (std::uint32_t i = 0; i < 70U; ++i)
    {
        v.body[i] = static_cast<std::uint32_t>(vh::comb(n, i));
    }
    v.accepted = accepted ? 1U : 0U;
    v.sum = vh::mix(n ^ (accepted ? 3U : 1U));
}
bool intact(const Val& w)
{
    const volatile Val& v = w;
    const std::uint64_t n = v.n;
    for (std::uint32_t i = 0; i < 70U; ++i)
    {
        if (v.body[i] != static_cast<std::uint32_t>(vh::comb(n, i)))
        {
            return false;
        }
    }
    return v.sum == vh::mix(n ^ (v.accepted != 0U ? 3U : 1U));
}
void fill(Small& v, std::uint64_t n, bool accepted)
{
    v.n = n;
    v.sum = vh::mix(n ^ (accepted ? 3U : 1U));
}
bool intact(const Small& w)
{
    const volatile Small& v = w;
    const std::uint64_t n = v.n, s = v.sum;
    return s == vh::mix(n ^ 1U) || s == vh::mix(n ^ 3U);
}
bool accepted(const Val& v) { return v.accepted != 0U; }
bool accepted(const Small& v) { return v.sum == vh::mix(v.n ^ 3U); }

template <typename T>
class Calls : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Method<Big(Big, std::uint8_t, std::uint64_t)> m0{*this, "m0"};
    typename T::template Method<void(std::uint8_t, Call)> m1{*this, "m1"};
    typename T::template Method<std::uint64_t()> m2{*this, "m2"};
    typename T::template Method<void()> m3{*this, "m3"};
};
template <typename T>
class Fields : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Field<Val, com::WithGetter, com::WithSetter, com::WithNotifier> f0{*this, "f0"};
    typename T::template Field<Small, com::WithGetter, com::WithSetter> f1{*this, "f1"};
    typename T::template Field<Small, com::WithNotifier> f2{*this, "f2"};
};

struct Caller
{
    std::atomic<std::uint64_t> cur, exec;
    std::atomic<unsigned> open;
};
struct FieldLog
{
    std::atomic<std::uint64_t> next;
    std::atomic<std::uint64_t> ws[kWrites], we[kWrites];
    struct Read
    {
        std::atomic<std::uint64_t> t0, t1, n;
        std::atomic<unsigned> qm;
    };
    std::atomic<std::uint64_t> reads;
    Read r[kReads];
};
struct Board
{
    // plan
    bool fields, asil_b, cycles, kills, local, qm_consumer[kMaxCons], use[kMaxCons][4];
    unsigned consumers, threads[kMaxCons + 1U], slots, slow;
    // run
    std::atomic<unsigned> gen;   // even and > 0: offered
    std::atomic<unsigned> down;  // the provider is being killed
    std::atomic<unsigned> stop, quiet, quiet_consumers, offering_done;
    std::atomic<unsigned> lives[kMaxCons], finished;
    std::atomic<std::uint64_t> callers, tickets, m3_try, m3_ok, m3_run;
    std::atomic<std::uint64_t> taken[kTickets];
    Caller caller[kCallers];
    FieldLog f[kFields];
    // what was seen
    std::atomic<std::uint64_t> calls, refused, again, held, zero_copy, gets, sets, news, proxies, unused, local_calls, refused_create, moved, flaps;
};
Board* b = nullptr;
// In one process, nobody makes a proxy while the service is made ready (see --mode stale and known_findings.txt).
std::shared_mutex g_ready;
bool g_restarted = false;  // a consumer of fields that was killed before
bool g_qm = false;  // this process reads as a QM one
std::string config(bool provider, unsigned app, bool asil_b, const bool* use)
{
    std::string types, inst;
    auto add = [](std::string& t, const std::string& x) { t += (t.empty() ? "" : ",") + x; };
    if (b->fields)
    {
        for (unsigned i = 0; i < kFields; ++i)
        {
            const std::string n = "f" + std::to_string(i);
            add(types, "{\"fieldName\":\"" + n + "\",\"fieldId\":" + std::to_string(i + 1U) + "}");
            std::string s = "{\"fieldName\":\"" + n + "\"";
            if (provider || b->local)
            {
                s += ",\"numberOfSampleSlots\":" + std::to_string(b->slots) + ",\"maxSubscribers\":12";
            }
            s += i == 2U ? "" : ",\"useGetIfAvailable\":true,\"useSetIfAvailable\":true";
            add(inst, s + "}");
        }
    }
    else
    {
        for (unsigned i = 0; i < 4U; ++i)
        {
            const std::string n = "m" + std::to_string(i);
            add(types, "{\"methodName\":\"" + n + "\",\"methodId\":" + std::to_string(i + 1U) + "}");
            add(inst, "{\"methodName\":\"" + n + "\",\"queueSize\":1" + (provider ? std::string{} : std::string{",\"use\":"} + (use[i] ? "true" : "false")) + "}");
        }
    }
    const std::string q = asil_b ? "B" : "QM", k = b->fields ? "fields" : "methods";
    return R"({"serviceTypes":[{"serviceTypeName":"/s/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":42,")" + k + "\":[" + types +
           R"(]}]}],"serviceInstances":[{"instanceSpecifier":"s/inst","serviceTypeName":"/s/If","version":{"major":1,"minor":0},"instances":[{"instanceId":7,"asil-level":")" + q +
           R"(","binding":"SHM",")" + k + "\":[" + inst + R"(]}]}],"global":{"asil-level":")" + q + R"(","applicationID":)" + std::to_string(app) + "}}";
}
void start_runtime(bool provider, unsigned app, bool asil_b, const bool* use)
{
    const std::string p = e2e::root() + "/cfg_" + std::to_string(::getpid()) + ".json";
    cu::write_file(p, config(provider, app, asil_b, use));
    com::runtime::InitializeRuntime(com::runtime::RuntimeConfiguration{p});
}
bool up(unsigned g) { return g != 0U && g % 2U == 0U; }
template <class R>
std::string why(const R& r)
{
    return r.has_value() ? std::string{} : std::string{r.error().Message()};
}

// ------------------------------------------------------------------------------------------------------------- callers
// What a thread knows about the proxy it uses
struct Ready
{
    unsigned gen{0};  // the generation of the provider the proxy is known to work with
    unsigned flaps{0}, flap_gen{0};
};
// The result of a call, or whatever: failing is right only if the provider went away in between.
template <class F, class Ok>
bool attempt(Ready& rd, F call, Ok ok, const char* what, bool certain)
{
    const unsigned g0 = b->gen.load(), d0 = b->down.load();
    auto res = call();
    if (res.has_value())
    {
        ok(res);
        if (up(g0) && b->gen.load() == g0)
        {
            rd.gen = g0;
        }
        b->calls.fetch_add(1, std::memory_order_relaxed);
        return true;
    }
    const unsigned d1 = b->down.load(), g1 = b->gen.load();
    if (up(g0) && g0 == g1 && d0 == 0U && d1 == 0U && (certain || rd.gen == g0))
    {
        // A proxy that learns only now of the previous end of the offer stops using it for a moment.
        rd.flaps = rd.flap_gen == g0 ? rd.flaps + 1U : 1U;
        rd.flap_gen = g0;
        VH_CHECK((b->cycles || b->kills) && g0 > 2U && rd.flaps <= 3U, "call_fails", what, " fails while the service is offered: ", why(res));
        rd.gen = 1U;
        b->flaps.fetch_add(1, std::memory_order_relaxed);
    }
    b->refused.fetch_add(1, std::memory_order_relaxed);
    return false;
}
struct MethodUser
{
    using Proxy = com::AsProxy<Calls>;
    Proxy px;
    std::uint64_t me;
    std::uint64_t seq{0}, last_ticket{0};
    const bool* use;
    Ready rd{};
    explicit MethodUser(Proxy&& p, const bool* u) : px{std::move(p)}, me{b->callers.fetch_add(1)}, use{u}
    {
        if (me >= kCallers)
        {
            vh::inconclusive("too many callers");
        }
    }
    Caller& c() { return b->caller[me]; }
    void begin()
    {
        c().cur.store(++seq);
        c().open.store(1);
    }
    void end(bool good, const char* what)
    {
        c().open.store(0);
        VH_CHECK(!good || c().exec.load() == seq, "not_run", what, " succeeds and the handler has not run for it");
    }
    void step(vh::Rng& r)
    {
        const unsigned m = static_cast<unsigned>(r.below(4));
        if (!use[m])
        {
            const std::uint64_t before = c().exec.load();
            begin();
            bool good = false;
            switch (m)
            {
                case 0: good = px.m0(Big{}, 0, 0).has_value(); break;
                case 1: good = px.m1(0, Call{}).has_value(); break;
                case 2: good = px.m2().has_value(); break;
                default: good = px.m3().has_value(); break;
            }
            c().open.store(0);
            VH_CHECK(!good && c().exec.load() == before, "disabled", "a method that is not configured for use can be called");
            b->unused.fetch_add(1, std::memory_order_relaxed);
            return;
        }
        vh::distinct(vh::comb(m, vh::comb(b->gen.load() % 4U, rd.gen == b->gen.load() ? 1U : 0U)));
        vh::eval();
        if (m == 0U)
        {
            const auto k = static_cast<std::uint8_t>(r.below(256));
            const std::uint64_t x = r.next();
            auto check = [&](auto& res) {
                VH_CHECK(intact(*res.value()) && res.value()->caller == (me ^ x) && res.value()->seq == seq + k, "result", "m0: the result is not the handler's");
            };
            if (r.chance(50))
            {
                begin();
                Big in;
                fill(in, me, seq);
                bool good = attempt(
                    rd, [&] { return px.m0(in, k, x); },
                    [&](auto& res) {
                        check(res);
                        end(true, "m0");
                        hold(r, res, check);
                    },
                    "m0", false);
                end(false, "m0");
                (void)good;
            }
            else
            {
                bool allocated = false;
                const auto good = attempt(
                    rd,
                    [&]() -> decltype(px.m0(Big{}, k, x)) {
                        auto a = px.m0.Allocate();
                        if (!a.has_value())
                        {
                            return score::MakeUnexpected<std::decay_t<decltype(px.m0(Big{}, k, x).value())>>(a.error());
                        }
                        allocated = true;
                        auto [in, kk, xx] = std::move(a).value();
                        VH_CHECK(reinterpret_cast<std::uintptr_t>(in.get()) % alignof(Big) == 0U && reinterpret_cast<std::uintptr_t>(xx.get()) % 8U == 0U, "align",
                                 "arguments are misaligned");
                        begin();
                        std::memset(static_cast<void*>(in.get()), 0x5A, sizeof(Big));
                        *kk = k;
                        *xx = x;
                        fill(*in, me, seq);
                        const auto twice = px.m0.Allocate();
                        VH_CHECK(!twice.has_value() && twice.error() == im::ComErrc::kCallQueueFull, "allocate_twice", "the same arguments are handed out twice");
                        VH_CHECK(intact(*in) && *kk == k && *xx == x, "arguments", "arguments overlap each other");
                        return px.m0(std::move(in), std::move(kk), std::move(xx));
                    },
                    [&](auto& res) {
                        check(res);
                        end(true, "m0");
                        hold(r, res, check);
                    },
                    "m0 without copying", false);
                if (allocated)
                {
                    end(false, "m0");
                }
                b->zero_copy.fetch_add(good ? 1U : 0U, std::memory_order_relaxed);
            }
        }
        else if (m == 1U)
        {
            begin();
            const bool good = attempt(rd, [&] { return px.m1(static_cast<std::uint8_t>(seq), Call{me, seq, vh::comb(me, seq)}); }, [](auto&) {}, "m1", false);
            end(good, "m1");
        }
        else if (m == 2U)
        {
            attempt(
                rd, [&] { return px.m2(); },
                [&](auto& res) {
                    const std::uint64_t t = *res.value();
                    VH_CHECK(t != 0U && t <= b->tickets.load(), "result", "m2: the result is not the handler's");
                    VH_CHECK(t > last_ticket, "order", "m2: result ", t, " after ", last_ticket);
                    VH_CHECK(b->taken[t % kTickets].exchange(t) != t, "result_twice", "m2: two calls get the result of one run of the handler");
                    last_ticket = t;
                },
                "m2", false);
        }
        else
        {
            b->m3_try.fetch_add(1);
            if (attempt(rd, [&] { return px.m3(); }, [](auto&) {}, "m3", false))
            {
                b->m3_ok.fetch_add(1);
            }
        }
    }
    // A result stays what it is while it is held, and its place is not used for anything else.
    template <class Res, class Check>
    void hold(vh::Rng& r, Res& res, Check check)
    {
        if (!r.chance(40))
        {
            return;
        }
        auto p = std::move(res).value();
        const std::uint64_t before = c().exec.load();
        const auto again = px.m0(Big{}, 1, 1);
        VH_CHECK(!again.has_value() && c().exec.load() == before, "held", "m0 can be called while its result is held");
        if (use[2] && r.chance(50))
        {
            attempt(rd, [&] { return px.m2(); }, [&](auto& x) { last_ticket = *x.value(); (void)b->taken[last_ticket % kTickets].exchange(last_ticket); }, "m2", false);
        }
        vh::jitter(r, 50);
        Res back{std::move(p)};
        check(back);
        b->held.fetch_add(1, std::memory_order_relaxed);
    }
};
std::uint64_t new_write(unsigned f)
{
    const std::uint64_t n = b->f[f].next.fetch_add(1) + 1U;
    if (n >= kWrites)
    {
        vh::inconclusive("too many writes");
    }
    b->f[f].we[n].store(0);
    b->f[f].ws[n].store(vh::now_ns());
    return n;
}
void wrote(unsigned f, std::uint64_t n) { b->f[f].we[n].store(vh::now_ns()); }
void read_log(unsigned f, std::uint64_t t0, std::uint64_t t1, std::uint64_t n)
{
    VH_CHECK(n != 0U && n <= b->f[f].next.load(), "made_up", "field ", f, " has the value ", n, ", which nobody wrote");
    const std::uint64_t i = b->f[f].reads.fetch_add(1);
    if (i < kReads)
    {
        b->f[f].r[i].t0.store(t0);
        b->f[f].r[i].t1.store(t1);
        b->f[f].r[i].qm.store(g_qm ? 1U : 0U);
        b->f[f].r[i].n.store(n);
    }
}
struct FieldUser
{
    using Proxy = com::AsProxy<Fields>;
    Proxy px;
    Ready rd{};
    bool sub0{false}, sub2{false};
    std::uint64_t last[kFields]{};
    std::deque<std::pair<std::uint64_t, com::SamplePtr<Val>>> held;
    explicit FieldUser(Proxy&& p, const bool*) : px{std::move(p)} {}
    template <class T, class Fd>
    void get(Fd& fd, unsigned f)
    {
        const std::uint64_t t0 = vh::now_ns();
        attempt(
            rd, [&] { return fd.Get(); },
            [&](auto& res) {
                const T& v = *res.value();
                VH_CHECK(intact(v), "torn", "Get of field ", f, " gives a value nobody wrote");
                read_log(f, t0, vh::now_ns(), v.n);
                b->gets.fetch_add(1, std::memory_order_relaxed);
            },
            "Get", false);
    }
    template <class T, class Fd>
    void set(Fd& fd, unsigned f)
    {
        const std::uint64_t n = new_write(f);
        T v;
        fill(v, n, false);
        attempt(
            rd, [&] { return fd.Set(v); },
            [&](auto& res) {
                const T& x = *res.value();
                VH_CHECK(intact(x) && x.n == n && accepted(x), "set_result", "Set of field ", f, " does not give the accepted value");
                wrote(f, n);
                b->sets.fetch_add(1, std::memory_order_relaxed);
            },
            "Set", false);
    }
    template <class T, class Fd>
    void news(Fd& fd, unsigned f, unsigned k, vh::Rng& r)
    {
        if (fd.GetSubscriptionState() != com::SubscriptionState::kSubscribed)
        {
            return;
        }
        const unsigned g0 = b->gen.load(), d0 = b->down.load();
        const std::uint64_t t0 = vh::now_ns();
        std::uint64_t seen = last[f];
        const auto res = fd.GetNewSamples(
            [&](auto s) {
                VH_CHECK(intact(*s), "torn", "field ", f, " sends a value nobody wrote");
                if (seen != 0U)
                {
                    VH_CHECK(s->n != seen, "twice", "field ", f, " sends a value twice");
                    const std::uint64_t e = b->f[f].we[s->n].load();
                    VH_CHECK(e == 0U || e >= b->f[f].ws[seen].load(), "order", "field ", f, " sends value ", s->n, " after ", seen, ", which was written later");
                }
                seen = s->n;
                if constexpr (std::is_same_v<T, Val>)
                {
                    if (held.size() + 1U < k && r.chance(40))
                    {
                        held.emplace_back(s->n, std::move(s));
                    }
                }
            },
            k - held.size());
        if (!res.has_value())
        {
            return;
        }
        // The newest one is got unless the provider went away in the meantime.
        if (seen != 0U && up(g0) && b->gen.load() == g0 && d0 == 0U && b->down.load() == 0U && fd.GetSubscriptionState() == com::SubscriptionState::kSubscribed && rd.gen == g0)
        {
            read_log(f, t0, vh::now_ns(), seen);
        }
        last[f] = seen;
        b->news.fetch_add(res.value(), std::memory_order_relaxed);
        for (auto& h : held)
        {
            VH_CHECK(intact(*h.second) && h.second->n == h.first, "held", "a value of a field changes while it is held");
        }
        while (!held.empty() && (held.size() + 1U >= k || r.chance(30)))
        {
            held.pop_front();
        }
    }
    void step(vh::Rng& r)
    {
        vh::eval();
        const unsigned m = static_cast<unsigned>(r.below(12));
        vh::distinct(vh::comb(m, vh::comb(b->gen.load() % 4U, rd.gen == b->gen.load() ? 1U : 0U)));
        if (m < 2U)
        {
            get<Val>(px.f0, 0);
        }
        else if (m < 4U)
        {
            get<Small>(px.f1, 1);
        }
        else if (m < 6U && b->quiet.load() == 0U)
        {
            set<Val>(px.f0, 0);
        }
        else if (m < 8U && b->quiet.load() == 0U)
        {
            set<Small>(px.f1, 1);
        }
        else if (m < 9U && (!sub0 || !sub2))
        {
            if (!sub0 && px.f0.Subscribe(3).has_value())
            {
                sub0 = true;
            }
            if (!sub2 && px.f2.Subscribe(1).has_value())
            {
                sub2 = true;
            }
        }
        else
        {
            if (sub0)
            {
                news<Val>(px.f0, 0, 3, r);
            }
            if (sub2)
            {
                news<Small>(px.f2, 2, 1, r);
            }
        }
    }
    void end()
    {
        held.clear();
        if (sub0)
        {
            px.f0.Unsubscribe();
        }
        if (sub2)
        {
            px.f2.Unsubscribe();
        }
    }
};
template <class User>
void user_thread(std::uint64_t seed, const bool* use, const std::atomic<bool>* local_stop)
{
    vh::Rng r{seed};
    auto done = [&] { return b->stop.load() != 0U || (local_stop != nullptr && local_stop->load()); };
    while (!done())
    {
        const unsigned g0 = b->gen.load(), d0 = b->down.load();
        auto found = User::Proxy::FindService(cu::spec("s/inst"));
        VH_CHECK(found.has_value(), "find", "FindService fails: ", why(found));
        if (found.value().empty())
        {
            VH_CHECK(!(up(g0) && b->gen.load() == g0 && d0 == 0U && b->down.load() == 0U), "find", "FindService does not find the service that is offered");
            ::usleep(500);
            continue;
        }
        if (local_stop != nullptr)
        {
            g_ready.lock_shared();
            found = User::Proxy::FindService(cu::spec("s/inst"));
            if (found.value().empty())
            {
                g_ready.unlock_shared();
                continue;
            }
        }
        auto p = User::Proxy::Create(found.value().front());
        if (local_stop != nullptr)
        {
            g_ready.unlock_shared();
        }
        if (!p.has_value())
        {
            const unsigned d1 = b->down.load();
            // (One that was killed while it took or gave back a value of a field is refused for good.)
            VH_CHECK(g_restarted || !(up(g0) && b->gen.load() == g0 && d0 == 0U && d1 == 0U), "create", "no proxy for a service that is offered: ", why(p));
            b->refused_create.fetch_add(1, std::memory_order_relaxed);
            ::usleep(500);
            continue;
        }
        b->proxies.fetch_add(1, std::memory_order_relaxed);
        User u{std::move(p).value(), use};
        if (up(g0) && b->gen.load() == g0)
        {
            u.rd.gen = g0;
        }
        const unsigned n = r.chance(70) ? static_cast<unsigned>(r.below(300)) : 3000U;
        for (unsigned i = 0; i < n && !done(); ++i)
        {
            const unsigned g = b->gen.load();
            if (up(g) && u.rd.gen != g && u.rd.gen != 0U)
            {
                // offered again: it works again, without anybody's doing
                const std::uint64_t end = vh::now_ns() + 40000000000ULL;
                while (b->gen.load() == g && u.rd.gen != g && b->down.load() == 0U && !done())
                {
                    u.step(r);
                    ::usleep(300);
                    VH_CHECK(vh::now_ns() < end || b->gen.load() != g, "no_recovery", "calls go on failing after the service was offered again");
                }
                if (u.rd.gen == g)
                {
                    b->again.fetch_add(1, std::memory_order_relaxed);
                }
            }
            u.step(r);
            if (r.chance(3))
            {
                typename User::Proxy moved{std::move(u.px)};
                u.px = std::move(moved);
                b->moved.fetch_add(1, std::memory_order_relaxed);
            }
            vh::jitter(r, 20);
            if (b->quiet.load() != 0U && b->fields)
            {
                ::usleep(300);
            }
        }
        if constexpr (std::is_same_v<User, FieldUser>)
        {
            u.end();
        }
    }
}
template <class User>
void users(unsigned who, vh::Rng& r, std::vector<std::thread>& th, const bool* use, const std::atomic<bool>* local_stop)
{
    for (unsigned t = 0; t < b->threads[who]; ++t)
    {
        th.emplace_back([s = r.next(), use, local_stop] { user_thread<User>(s, use, local_stop); });
    }
}
void consumer(unsigned c, std::uint64_t seed)
{
    vh::Rng r{seed};
    g_restarted = b->fields && b->lives[c].fetch_add(1) != 0U;
    g_qm = !b->asil_b || b->qm_consumer[c];
    start_runtime(false, 100U + c, b->asil_b && !b->qm_consumer[c], b->use[c]);
    std::vector<std::thread> th;
    b->fields ? users<FieldUser>(c, r, th, b->use[c], nullptr) : users<MethodUser>(c, r, th, b->use[c], nullptr);
    for (auto& t : th)
    {
        t.join();
    }
    b->finished.fetch_add(1);
}
// ------------------------------------------------------------------------------------------------------------ provider
std::atomic<bool> g_serving{false};
void serving() { VH_CHECK(g_serving.load(), "after_stop", "a handler runs while the service is not offered"); }
void slow(std::uint64_t x)
{
    if (b->slow != 0U && x % 100U < b->slow)
    {
        ::usleep(static_cast<useconds_t>(x % 700U));
    }
}
void run_once(std::uint64_t caller, std::uint64_t seq)
{
    VH_CHECK(caller < b->callers.load(), "arguments", "the handler gets arguments nobody gave");
    Caller& c = b->caller[caller];
    VH_CHECK(c.open.load() == 1U && c.cur.load() == seq, "late", "the handler runs for call ", seq, ", while the caller is at ", c.cur.load(), c.open.load() == 1U ? "" : " and calls nothing");
    VH_CHECK(c.exec.load() < seq, "run_twice", "the handler runs twice for one call");
    c.exec.store(seq);
}
template <class Sk, class Up, class Re>
void offering(vh::Rng& r, Sk& sk, Up work, Re retried)
{
    std::vector<std::thread> th;
    std::atomic<bool> local_stop{false};
    static const bool all[4] = {true, true, true, true};
    bool started = false;
    std::unique_lock<std::shared_mutex> ready{g_ready};
    for (;;)
    {
        g_serving.store(true);
        const auto o = sk.OfferService();
        if (!o.has_value() && (b->kills || b->cycles))
        {
            // a consumer is just opening the lock file
            g_serving.store(false);
            retried();
            ::usleep(500);
            continue;
        }
        VH_CHECK(o.has_value(), "offer", "offering fails: ", why(o));
        ready.unlock();
        work(true);
        b->gen.fetch_add(1);
        if (b->local && !started)
        {
            started = true;
            if constexpr (std::is_same_v<Sk, com::AsSkeleton<Fields>>)
            {
                users<FieldUser>(kMaxCons, r, th, all, &local_stop);
            }
            else
            {
                users<MethodUser>(kMaxCons, r, th, all, &local_stop);
            }
        }
        const std::uint64_t till = b->cycles ? vh::now_ns() + r.below(150) * 1000000U : ~0ULL;
        while (b->stop.load() == 0U && (vh::now_ns() < till || b->quiet.load() != 0U))
        {
            work(false);
        }
        const bool ends = b->stop.load() != 0U;
        if (ends)
        {
            local_stop.store(true);
            for (auto& t : th)
            {
                t.join();
            }
            th.clear();
        }
        b->gen.fetch_add(1);
        ready.lock();
        sk.StopOfferService();
        g_serving.store(false);
        vh::count("offer_cycles");
        if (ends)
        {
            break;
        }
        if (r.chance(50))
        {
            ::usleep(static_cast<useconds_t>(r.below(20000)));
        }
    }
}
void provider(std::uint64_t seed)
{
    vh::Rng r{seed};
    if (b->gen.load() % 2U == 0U)
    {
        b->gen.fetch_add(1);  // also at the very start: 1, 2 is offered
    }
    b->down.store(0);
    static const bool all[4] = {true, true, true, true};
    g_qm = !b->asil_b;
    start_runtime(!b->local, 10, b->asil_b, all);
    if (b->fields)
    {
        using Skeleton = com::AsSkeleton<Fields>;
        auto res = Skeleton::Create(cu::spec("s/inst"));
        VH_CHECK(res.has_value(), "create", "no skeleton: ", why(res));
        Skeleton sk = std::move(res).value();
        std::atomic<int> in0{0}, in1{0};
        const auto bare = sk.OfferService();
        VH_CHECK(!bare.has_value(), "offer_early", "a field without value and set handler can be offered");
        VH_CHECK(sk.f0.RegisterSetHandler([&](Val& v) {
                     serving();
                     VH_CHECK(in0.fetch_add(1) == 0, "set_together", "two set handlers of a field run at once");
                     VH_CHECK(intact(v) && !accepted(v), "arguments", "the set handler gets a value nobody gave");
                     slow(v.n);
                     fill(v, v.n, true);
                     in0.fetch_sub(1);
                 }).has_value(), "handler", "registering a set handler fails");
        VH_CHECK(sk.f1.RegisterSetHandler([&](Small& v) {
                     serving();
                     VH_CHECK(in1.fetch_add(1) == 0, "set_together", "two set handlers of a field run at once");
                     VH_CHECK(intact(v) && !accepted(v), "arguments", "the set handler gets a value nobody gave");
                     fill(v, v.n, true);
                     in1.fetch_sub(1);
                 }).has_value(), "handler", "registering a set handler fails");
        auto put = [&](auto& fd, unsigned f, auto v) {
            const std::uint64_t n = new_write(f);
            fill(v, n, false);
            const auto u = fd.Update(v);
            VH_CHECK(u.has_value(), "update", "updating a field fails: ", why(u));
            return n;
        };
        // (The first field is what fails: one that is offered already would have lost its value, see known_findings.txt)
        std::uint64_t n1 = put(sk.f1, 1, Small{}), n2 = put(sk.f2, 2, Small{});
        VH_CHECK(!sk.OfferService().has_value(), "offer_early", "a field without value can be offered");
        std::uint64_t n0 = put(sk.f0, 0, Val{});
        bool first = true;
        offering(r, sk, [&](bool begin) {
            if (begin)
            {
                if (!first)
                {
                    n0 = put(sk.f0, 0, Val{});
                    n1 = put(sk.f1, 1, Small{});
                    n2 = put(sk.f2, 2, Small{});
                }
                first = false;
                wrote(0, n0);
                wrote(1, n1);
                wrote(2, n2);
                return;
            }
            if (b->quiet.load() != 0U)
            {
                b->quiet_consumers.store(1);
                ::usleep(500);
                return;
            }
            const unsigned m = static_cast<unsigned>(r.below(4));
            if (m == 0U)
            {
                const std::uint64_t n = new_write(0);
                auto a = sk.f0.Allocate();
                VH_CHECK(a.has_value(), "allocate", "no place for a new value of a field: ", why(a));
                fill(*a.value(), n, false);
                VH_CHECK(sk.f0.Update(std::move(a).value()).has_value(), "update", "updating a field fails");
                wrote(0, n);
            }
            else if (m == 1U)
            {
                wrote(0, put(sk.f0, 0, Val{}));
            }
            else if (m == 2U)
            {
                wrote(1, put(sk.f1, 1, Small{}));
            }
            else
            {
                wrote(2, put(sk.f2, 2, Small{}));
            }
            ::usleep(static_cast<useconds_t>(r.below(400)));
        },
        [&] { first = false; });  // the first values may be lost, see known_findings.txt
    }
    else
    {
        using Skeleton = com::AsSkeleton<Calls>;
        auto res = Skeleton::Create(cu::spec("s/inst"));
        VH_CHECK(res.has_value(), "create", "no skeleton: ", why(res));
        Skeleton sk = std::move(res).value();
        VH_CHECK(sk.m0.RegisterHandler([](Big& out, const Big& in, const std::uint8_t& k, const std::uint64_t& x) {
                     serving();
                     VH_CHECK(intact(in), "arguments", "m0 gets arguments nobody gave");
                     run_once(in.caller, in.seq);
                     slow(vh::mix(in.seq));
                     fill(out, in.caller ^ x, in.seq + k);
                     VH_CHECK(intact(in), "arguments", "the arguments of m0 change while the handler runs");
                 }).has_value(), "handler", "registering a handler fails");
        VH_CHECK(!sk.OfferService().has_value(), "offer_early", "a service can be offered without a handler for each method");
        VH_CHECK(sk.m1.RegisterHandler([](const std::uint8_t& k, const Call& c) {
                     serving();
                     VH_CHECK(c.sum == vh::comb(c.caller, c.seq) && k == static_cast<std::uint8_t>(c.seq), "arguments", "m1 gets arguments nobody gave");
                     run_once(c.caller, c.seq);
                     slow(vh::mix(c.seq + 7U));
                 }).has_value() &&
                     sk.m2.RegisterHandler([](std::uint64_t& out) {
                           serving();
                           out = b->tickets.fetch_add(1) + 1U;
                       }).has_value() &&
                     sk.m3.RegisterHandler([]() {
                           serving();
                           b->m3_run.fetch_add(1);
                       }).has_value(),
                 "handler", "registering a handler fails");
        offering(r, sk, [&](bool begin) {
            if (!begin)
            {
                ::usleep(500);
            }
        },
        [] {});
    }
    b->offering_done.store(1);
}
// -------------------------------------------------------------------------------------------------------------- parent
void judge(unsigned f)
{
    FieldLog& l = b->f[f];
    struct Iv
    {
        std::uint64_t key, val, n;
    };
    const std::uint64_t nw = l.next.load(), nr = std::min<std::uint64_t>(l.reads.load(), kReads);
    std::vector<Iv> w, rd[2];  // a value reaches QM consumers a moment later than the others
    for (std::uint64_t n = 1; n <= nw; ++n)
    {
        if (l.we[n].load() != 0U)
        {
            w.push_back({l.we[n].load(), l.ws[n].load(), n});
        }
    }
    for (std::uint64_t i = 0; i < nr; ++i)
    {
        if (l.r[i].n.load() != 0U)
        {
            rd[l.r[i].qm.load()].push_back({l.r[i].t1.load(), l.ws[l.r[i].n.load()].load(), l.r[i].n.load()});
        }
    }
    auto prefix = [](std::vector<Iv>& v) {
        std::sort(v.begin(), v.end(), [](const Iv& a, const Iv& c) { return a.key < c.key; });
        for (std::size_t i = 1; i < v.size(); ++i)
        {
            if (v[i - 1U].val > v[i].val)
            {
                v[i].val = v[i - 1U].val;
                v[i].n = v[i - 1U].n;
            }
        }
    };
    auto before = [](const std::vector<Iv>& v, std::uint64_t t) -> const Iv* {
        auto i = std::lower_bound(v.begin(), v.end(), t, [](const Iv& a, std::uint64_t x) { return a.key < x; });
        return i == v.begin() ? nullptr : &*(i - 1);
    };
    prefix(w);
    prefix(rd[0]);
    prefix(rd[1]);
    for (std::uint64_t i = 0; i < nr; ++i)
    {
        const std::uint64_t n = l.r[i].n.load(), t0 = l.r[i].t0.load(), t1 = l.r[i].t1.load();
        if (n == 0U)
        {
            continue;
        }
        VH_CHECK(l.ws[n].load() <= t1, "future", "field ", f, " has a value before it is written");
        const std::uint64_t e = l.we[n].load();
        if (e == 0U)
        {
            continue;
        }
        const Iv* o = before(w, t0);
        VH_CHECK(o == nullptr || o->n == n || o->val <= e, "stale", "field ", f, ": value ", n, " is read although value ", o == nullptr ? 0U : o->n, " was written after it and before");
        const Iv* p = before(rd[l.r[i].qm.load()], t0);
        VH_CHECK(p == nullptr || p->n == n || p->val <= e, "back", "field ", f, ": value ", n, " is read after the later value ", p == nullptr ? 0U : p->n, " was read");
        vh::eval();
    }
    vh::count("reads_judged", nr);
    vh::count("writes_judged", w.size());
}
void run(vh::Rng& r, unsigned n, bool fields, bool kills)
{
    const std::string rt = vh::scratch() + "/r" + std::to_string(n);
    for (const char* d : {"", "/dev", "/dev/shm", "/tmp", "/var", "/var/lock", "/etc"})
    {
        VH_NEED(::mkdir((rt + d).c_str(), 0777) == 0);
        ::chmod((rt + d).c_str(), 0777);
    }
    b = e2e::board<Board>(rt + "/board", true);
    b->fields = fields;
    b->kills = kills;
    b->asil_b = r.chance(50);
    b->cycles = r.chance(60);
    b->local = !kills && r.chance(30);
    b->consumers = static_cast<unsigned>(1U + r.below(kMaxCons));
    b->slow = r.chance(40) ? static_cast<unsigned>(r.below(50)) : 0U;
    unsigned subs = 0;
    for (unsigned c = 0; c < kMaxCons + 1U; ++c)
    {
        b->threads[c] = static_cast<unsigned>(1U + r.below(kMaxThr));
        subs += b->threads[c];
    }
    // everybody holds up to three; a restarted one may do so again
    b->slots = 3U * subs * (kills ? 2U : 1U) + 4U;
    for (unsigned c = 0; c < kMaxCons; ++c)
    {
        b->qm_consumer[c] = r.chance(40);
        for (bool& u : b->use[c])
        {
            u = r.chance(85);
        }
    }
    const std::string board = rt + "/board";
    auto spawn = [&](const char* role, unsigned c) {
        return e2e::start(rt, {"--role", role, "--board", board, "--c", std::to_string(c), "--seed", std::to_string(r.next() >> 1U)});
    };
    auto join = [&](pid_t p, bool killed, const char* what) {
        int st = 0;
        VH_NEED(::waitpid(p, &st, 0) == p);
        if (e2e::ended(st, killed, what))
        {
            e2e::collect(p, rt);
        }
    };
    pid_t prov = spawn("provider", 0);
    pid_t cons[kMaxCons];
    for (unsigned c = 0; c < b->consumers; ++c)
    {
        cons[c] = spawn("consumer", c);
    }
    unsigned ended_itself = 0;
    bool given_up = false;
    auto check_alive = [&] {
        siginfo_t si{};
        if (given_up || ::waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) != 0 || si.si_pid == 0)
        {
            return;
        }
        const bool is_prov = si.si_pid == prov;
        const unsigned c = static_cast<unsigned>(std::find(cons, cons + b->consumers, si.si_pid) - cons);
        if (kills && si.si_code == CLD_EXITED && (si.si_status == 77 || si.si_status == 78))
        {
            // known findings: somebody was killed while opening the memory, or the provider within a Get
            int st = 0;
            VH_NEED(::waitpid(si.si_pid, &st, 0) == si.si_pid && (is_prov || c < b->consumers));
            (is_prov ? prov : cons[c]) = 0;
            vh::count(si.si_status == 77 ? "ended_itself" : "killed_in_get");
            given_up = si.si_status == 78 || ++ended_itself >= 8U;
            if (!given_up)
            {
                (is_prov ? prov : cons[c]) = is_prov ? spawn("provider", 0) : spawn("consumer", c);
            }
            return;
        }
        join(si.si_pid, false, is_prov ? "provider" : "consumer");
        std::fprintf(stderr, "a %s is gone\n", is_prov ? "provider" : "consumer");
        ::_exit(70);
    };
    auto spend = [&](std::uint64_t ms) {
        const std::uint64_t end = vh::now_ns() + ms * 1000000U;
        while (vh::now_ns() < end && !given_up)
        {
            check_alive();
            ::usleep(2000);
        }
    };
    auto wait_up = [&] {
        const std::uint64_t end = vh::now_ns() + 60000000000ULL;
        while (!up(b->gen.load()) && !given_up)
        {
            check_alive();
            VH_CHECK(vh::now_ns() < end, "stuck", "the service does not get offered");
            ::usleep(500);
        }
    };
    wait_up();
    const unsigned rounds = kills ? 4U : 1U;
    for (unsigned k = 0; k < rounds; ++k)
    {
        spend(kills ? 30U + r.below(200) : 200U + r.below(500));
        if (!kills || given_up)
        {
            break;
        }
        if (r.chance(50))
        {
            b->down.store(1);
            (void)::kill(prov, SIGKILL);
            join(prov, true, "provider");
            if (b->gen.load() % 2U == 0U)
            {
                b->gen.fetch_add(1);
            }
            ::usleep(static_cast<useconds_t>(r.below(20000)));
            prov = spawn("provider", 0);
            vh::count("provider_kills");
            wait_up();
        }
        else
        {
            const unsigned c = static_cast<unsigned>(r.below(b->consumers));
            (void)::kill(cons[c], SIGKILL);
            join(cons[c], true, "consumer");
            cons[c] = spawn("consumer", c);
            vh::count("consumer_kills");
        }
    }
    if (fields)
    {
        // nobody writes any more: everybody sees the same
        b->quiet.store(1);
        spend(100);
    }
    b->stop.store(1);
    const std::uint64_t end = vh::now_ns() + 100000000000ULL;
    if (given_up)
    {
        for (unsigned c = 0; c <= b->consumers; ++c)
        {
            const pid_t p = c < b->consumers ? cons[c] : prov;
            if (p > 0)
            {
                (void)::kill(p, SIGKILL);
                join(p, true, "process");
            }
        }
        ::munmap(b, sizeof *b);
        std::filesystem::remove_all(rt);
        vh::count("given_up");
        return;
    }
    auto stuck = [&](pid_t p, const char* what) {
        siginfo_t si{};
        while (::waitid(P_PID, static_cast<id_t>(p), &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == 0)
        {
            VH_CHECK(vh::now_ns() < end, "stuck", "a ", what, " does not come to an end");
            ::usleep(1000);
        }
    };
    stuck(prov, "provider");
    join(prov, false, "provider");
    for (unsigned c = 0; c < b->consumers; ++c)
    {
        stuck(cons[c], "consumer");
        join(cons[c], false, "consumer");
    }
    VH_CHECK(b->m3_ok.load() <= b->m3_run.load() && b->m3_run.load() <= b->m3_try.load(), "m3_count", b->m3_ok.load(), " calls of m3 succeed of ", b->m3_try.load(),
             ", the handler runs ", b->m3_run.load(), " times");
    if (fields)
    {
        for (unsigned f = 0; f < kFields; ++f)
        {
            judge(f);
        }
    }
    const std::pair<const char*, std::uint64_t> seen[] = {{"calls", b->calls}, {"refused", b->refused}, {"works_again", b->again}, {"results_held", b->held},
        {"zero_copy", b->zero_copy}, {"gets", b->gets}, {"sets", b->sets}, {"samples", b->news}, {"proxies", b->proxies}, {"disabled_calls", b->unused},
        {"proxies_refused", b->refused_create}, {"moved", b->moved}, {"late_news", b->flaps}, {"local_runs", b->local ? 1U : 0U}};
    for (auto& s : seen)
    {
        vh::count(s.first, s.second);
    }
    ::munmap(b, sizeof *b);
    std::filesystem::remove_all(rt);
    vh::count("runs");
}
// ----------------------------------------------------------------------------------------------------- known findings
const bool kAll[4] = {true, true, true, true};
std::atomic<std::uint64_t> g_steps{0};
void probe_value()
{
    start_runtime(false, 10, false, kAll);
    auto res = com::AsSkeleton<Fields>::Create(cu::spec("s/inst"));
    VH_NEED(res.has_value());
    auto sk = std::move(res).value();
    VH_NEED(sk.f0.RegisterSetHandler([](Val&) {}).has_value() && sk.f1.RegisterSetHandler([](Small&) {}).has_value());
    Val v;
    fill(v, 1, false);
    Small w;
    fill(w, 1, false);
    VH_NEED(sk.f0.Update(v).has_value() && sk.f1.Update(w).has_value() && sk.f2.Update(w).has_value());
    VH_NEED(sk.OfferService().has_value());
    sk.StopOfferService();
    VH_NEED(sk.OfferService().has_value());
    {
        auto found = com::AsProxy<Fields>::FindService(cu::spec("s/inst"));
        VH_NEED(found.has_value() && found.value().size() == 1U);
        auto p = com::AsProxy<Fields>::Create(found.value().front());
        VH_NEED(p.has_value());
        auto px = std::move(p).value();
        const bool got = e2e::wait_for([&] { return px.f0.Get().has_value(); }, 2);
        b->finished.store(got ? 1U : 2U);
    }
    sk.StopOfferService();
}
// Makes its shared memory anew and waits before it fills it.
void probe_stale()
{
    start_runtime(true, 10, false, kAll);
    auto res = com::AsSkeleton<Fields>::Create(cu::spec("s/inst"));
    VH_NEED(res.has_value());
    auto sk = std::move(res).value();
    VH_NEED(sk.f0.RegisterSetHandler([](Val&) {}).has_value() && sk.f1.RegisterSetHandler([](Small&) {}).has_value());
    Val v;
    fill(v, 1, false);
    Small w;
    fill(w, 1, false);
    VH_NEED(sk.f0.Update(v).has_value() && sk.f1.Update(w).has_value() && sk.f2.Update(w).has_value());
    VH_NEED(sk.OfferService().has_value());
    b->gen.store(1);
    VH_NEED(e2e::wait_for([&] { return b->gen.load() == 2U; }));
    sk.StopOfferService();
    verif::g_os_hook = [](const char* op, const char* path, int) {
        if (std::strcmp(op, "ftruncate") == 0 && g_steps.fetch_add(1) == 1U)
        {
            g_making.store([] {
                g_making.store(nullptr);
                b->gen.store(3);
                ::usleep(1000000);
            });
        }
        return 0;
    };
    VH_NEED(sk.OfferService().has_value());
    VH_NEED(e2e::wait_for([&] { return b->finished.load() == 1U; }));
    sk.StopOfferService();
}
void probe_stale_user()
{
    start_runtime(false, 100, false, kAll);
    VH_NEED(e2e::wait_for([&] { return b->gen.load() == 1U; }));
    auto found = com::AsProxy<Fields>::FindService(cu::spec("s/inst"));
    VH_NEED(found.has_value() && found.value().size() == 1U);
    b->gen.store(2);
    VH_NEED(e2e::wait_for([&] { return b->gen.load() == 3U; }));
    ::usleep(100000);
    auto p = com::AsProxy<Fields>::Create(found.value().front());
    if (p.has_value())
    {
        auto px = std::move(p).value();
        VH_NEED(e2e::wait_for([&] { return px.f0.Get().has_value(); }, 5));
    }
}
void probe_getter_user()
{
    start_runtime(false, 100, false, kAll);
    std::optional<com::AsProxy<Fields>> px;
    VH_NEED(e2e::wait_for([&] {
        auto found = com::AsProxy<Fields>::FindService(cu::spec("s/inst"));
        if (found.has_value() && !found.value().empty())
        {
            auto p = com::AsProxy<Fields>::Create(found.value().front());
            if (p.has_value())
            {
                px.emplace(std::move(p).value());
            }
        }
        return px.has_value();
    }));
    while (b->finished.load() == 0U)
    {
        if (px->f0.Get().has_value())
        {
            b->gets.fetch_add(1);
        }
        ::usleep(500);
    }
}
void probe(const std::string& mode)
{
    const std::string rt = vh::scratch() + "/p";
    for (const char* d : {"", "/dev", "/dev/shm", "/tmp", "/var", "/var/lock", "/etc"})
    {
        VH_NEED(::mkdir((rt + d).c_str(), 0777) == 0);
    }
    const std::string bp = rt + "/board";
    b = e2e::board<Board>(bp, true);
    b->fields = b->kills = true;
    b->slots = 10;
    auto go = [&](const char* role) { return e2e::start(rt, {"--role", role, "--board", bp}); };
    int st = 0;
    vh::eval();
    vh::count("probes");
    if (mode == "stale")
    {
        const pid_t p = go("probe_stale"), c = go("probe_stale_user");
        int sc = 0;
        VH_NEED(e2e::wait_for([&] { return ::waitpid(c, &sc, WNOHANG) == c; }));
        b->finished.store(1);
        VH_NEED(e2e::wait_for([&] { return ::waitpid(p, &st, WNOHANG) == p; }));
        VH_NEED(e2e::ended(st, false, "provider"));
        if (WIFEXITED(sc) && WEXITSTATUS(sc) == 99)
        {
            ::_exit(99);
        }
        VH_CHECK(WIFEXITED(sc) && WEXITSTATUS(sc) == 0, "stale-handle", "a consumer ends itself as it makes a proxy, from a handle it found before, while the service is being offered anew");
        return;
    }
    if (mode == "value")
    {
        b->local = true;
        const pid_t p = go("probe_value");
        VH_NEED(e2e::wait_for([&] { return ::waitpid(p, &st, WNOHANG) == p; }));
        VH_NEED(e2e::ended(st, false, "probe"));
        VH_CHECK(b->finished.load() == 1U, "offered-without-value", "a field has no value after its service was offered again");
        return;
    }
    // A provider that is killed at any point within a Get can be started again.
    b->quiet.store(1);
    pid_t user = 0;
    bool bad = false;
    for (unsigned n = 1; n < 80U && !bad; ++n)
    {
        const pid_t p = go("provider");
        bool gone = false;
        const unsigned g = b->gen.load();
        VH_NEED(e2e::wait_for([&] {
            gone = gone || ::waitpid(p, &st, WNOHANG) == p;
            return gone || (b->gen.load() > g && up(b->gen.load()));
        }));
        if (gone)
        {
            VH_NEED(WIFEXITED(st) && WEXITSTATUS(st) == 78);
            bad = true;
            break;
        }
        if (user == 0)
        {
            user = go("probe_getter_user");
        }
        const std::uint64_t g0 = b->gets.load();
        VH_NEED(e2e::wait_for([&] { return b->gets.load() > g0 + 1U; }));
        b->tickets.store(n);
        VH_NEED(e2e::wait_for([&] { return ::waitpid(p, &st, WNOHANG) == p; }));
        VH_NEED(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
        b->tickets.store(0);
        b->gen.fetch_add(1);
        vh::count("killed_in_get");
    }
    b->finished.store(1);
    VH_NEED(::waitpid(user, &st, 0) == user);
    (void)e2e::ended(st, false, "user");
    VH_CHECK(!bad, "dead-getter", "a provider that was killed within a Get cannot be started again while a consumer is there");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    const std::string role = vh::sarg("role", "");
    if (!role.empty())
    {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        e2e::enter_role();
        b = e2e::board<Board>(vh::sarg("board", ""), false);
        std::set_terminate([]() {
            if (b->kills && std::strstr(verif::g_last_fatal, "Lock file still present") != nullptr)
            {
                ::_exit(77);
            }

            std::abort();
        });
        if (b->kills && b->fields)
        {
            verif::g_contract_hook = [](const char*, int, const char*, const char* msg) {
                if (msg != nullptr && std::strstr(msg, "Can only register a single Skeleton") != nullptr)
                {
                    ::_exit(78);  // the provider before was killed within a Get, see known_findings.txt
                }
            };
        }
        if (role == "provider" && b->quiet.load() != 0U)
        {
            static const pid_t self = ::gettid();
            verif::g_atomic_hook = [](int, const char*, const void*) {
                const std::uint64_t n = b->tickets.load(std::memory_order_relaxed);
                if (n != 0U && ::gettid() != self && g_steps.fetch_add(1) + 1U == n)
                {
                    (void)::kill(::getpid(), SIGKILL);
                }
            };
        }
        role == "probe_value" ? probe_value() : role == "probe_stale" ? probe_stale() : role == "probe_stale_user" ? probe_stale_user() : role == "probe_getter_user" ? probe_getter_user() : role == "provider" ? provider(vh::seed()) : consumer(static_cast<unsigned>(vh::arg("c", 0)), vh::seed());
        e2e::leave_role();
    }
    (void)vh::scratch();
    const std::string mode = vh::sarg("mode", "");
    if (!mode.empty())
    {
        probe(mode);
        vh::finish();
    }
    vh::Rng r{vh::seed() * 0x9E3779B97F4A7C15ULL + 0xC18U};
    const unsigned runs = static_cast<unsigned>(vh::arg("runs", 6));
    for (unsigned i = 0; i < runs; ++i)
    {
        run(r, i, vh::arg("fields", 0) != 0U, vh::arg("kills", 0) != 0U);
    }
    vh::finish();
}
