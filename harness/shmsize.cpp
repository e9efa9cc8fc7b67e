// C08: whatever is offered, the memory that was computed for it (by simulation or by analysis) is enough, and every
// sample slot is aligned and disjoint from all others.
#include "com_util.h"
#include "score/mw/com/impl/generic_skeleton.h"
#include "score/mw/com/impl/generic_skeleton_event.h"

#include <map>
using namespace cu;
namespace
{
template <std::size_t A, std::size_t N>
struct alignas(A) W
{
    unsigned char b[N];
};
#define EV(T, n) typename Tr::template Event<T> n{*this, #n};
#define FD(T, n) typename Tr::template Field<T, com::WithGetter, com::WithNotifier> n{*this, #n};
using T1 = W<1, 3>;
using T8 = W<8, 24>;
using T16 = W<16, 48>;
using T32 = W<32, 32>;
using T64 = W<64, 200>;
using T128 = W<128, 128>;
using T512 = W<512, 100>;
template <typename Tr>
class I1 : public Tr::Base
{
  public:
    using Tr::Base::Base;
    EV(T64, e1)
};
template <typename Tr>
class I2 : public Tr::Base
{
  public:
    using Tr::Base::Base;
    EV(T1, e1) EV(T32, e2)
};
template <typename Tr>
class I3 : public Tr::Base
{
  public:
    using Tr::Base::Base;
    EV(T1, e1) EV(T128, e2) EV(T8, e3)
};
template <typename Tr>
class I4 : public Tr::Base
{
  public:
    using Tr::Base::Base;
    EV(T16, e1) EV(T1, e2) EV(T64, e3) EV(T512, e4)
};
template <typename Tr>
class I5 : public Tr::Base
{
  public:
    using Tr::Base::Base;
    EV(T8, e1) EV(T1, e2) EV(T1, e3) EV(T16, e4) EV(T8, e5)
};
template <typename Tr>
class I6 : public Tr::Base
{
  public:
    using Tr::Base::Base;
    EV(T32, e1) FD(T64, f1)
};
constexpr unsigned kEvents[] = {1, 2, 3, 4, 5, 1};
struct Range
{
    std::uintptr_t a, b;
};
std::vector<Range> g_taken;
template <class E>
void slots(E& ev, std::size_t n, std::size_t align, std::size_t size)
{
    using P = std::decay_t<decltype(ev.Allocate().value())>;
    std::vector<P> held;
    for (std::size_t i = 0; i < n; ++i)
    {
        auto s = ev.Allocate();
        VH_CHECK(s.has_value(), "slot-missing", "slot ", i, " of ", n, " cannot be allocated");
        held.push_back(std::move(s).value());
        const auto p = reinterpret_cast<std::uintptr_t>(held.back().Get());
        VH_CHECK(p % align == 0, "slot-alignment", "slot ", i, " is not aligned to ", align);
        for (const auto& t : g_taken)
        {
            VH_CHECK(p + size <= t.a || t.b <= p, "slot-overlap", "two slots overlap");
        }
        g_taken.push_back({p, p + size});
        std::memset(held.back().Get(), static_cast<int>(i + 1U), size);
    }
    VH_CHECK(!ev.Allocate().has_value(), "slot-surplus", "more than ", n, " slots");
    for (std::size_t i = 0; i < n; ++i)
    {
        const auto* b = static_cast<const unsigned char*>(static_cast<const void*>(held[i].Get()));
        VH_CHECK(b[0] == static_cast<unsigned char>(i + 1U) && b[size - 1U] == static_cast<unsigned char>(i + 1U), "slot-overlap", "a slot was changed through another one");
    }
}
template <class S, class F>
void offer(F&& use)
{
    auto r = S::Create(spec("s/inst"));
    VH_NEED(r.has_value());
    auto sk = std::move(r).value();
    use(sk, false);
    auto o = sk.OfferService();
    VH_CHECK(o.has_value(), "offer-failed", "offering fails: ", o.has_value() ? "" : std::string{o.error().Message()});
    use(sk, true);
    sk.StopOfferService();
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 30);
    for (std::uint64_t k = 0; k < n; ++k)
    {
        const auto kind = r.below(7);
        const bool analysis = r.chance(50);
        const bool asil = r.chance(40);
        const unsigned ne = kind < 6 ? kEvents[kind] : 1U + static_cast<unsigned>(r.below(6));
        std::vector<unsigned> slot_n;
        std::vector<com::impl::DataTypeMetaInfo> info;
        std::string ev;
        std::string ei;
        for (unsigned e = 1; e <= ne; ++e)
        {
            slot_n.push_back(1U + static_cast<unsigned>(r.chance(20) ? r.below(200) : r.below(12)));
            const std::size_t al = std::size_t{1} << r.below(5);
            info.push_back({al * (1U + r.below(20)), al});
            ev += vh::str(e > 1 ? "," : "", R"({"eventName":"e)", e, R"(","eventId":)", e, "}");
            ei += vh::str(e > 1 ? "," : "", R"({"eventName":"e)", e, R"(","numberOfSampleSlots":)", slot_n.back(), R"(,"maxSubscribers":)", 1U + r.below(r.chance(20) ? 40 : 6), "}");
        }
        const unsigned fslots = 1U + static_cast<unsigned>(r.below(9));
        const std::string q = asil ? "B" : "QM";
        const std::string cfg = vh::str(R"({"serviceTypes":[{"serviceTypeName":"/s/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":)", 50U + k,
                                        R"(,"events":[)", ev, "]", kind == 5 ? R"(,"fields":[{"fieldName":"f1","fieldId":20}])" : "",
                                        R"(}]}],"serviceInstances":[{"instanceSpecifier":"s/inst","serviceTypeName":"/s/If","version":{"major":1,"minor":0},"instances":[{"instanceId":7,"asil-level":")",
                                        q, R"(","binding":"SHM","events":[)", ei, "]", kind == 5 ? vh::str(R"(,"fields":[{"fieldName":"f1","numberOfSampleSlots":)", fslots, R"(,"maxSubscribers":2,"useGetIfAvailable":true}])") : "",
                                        R"(}]}],"global":{"asil-level":")", q, R"(","shm-size-calc-mode":")", analysis ? "ANALYSIS" : "SIMULATION", R"("}})");
        const std::string p = vh::scratch() + "/cfg" + std::to_string(k) + ".json";
        write_file(p, cfg);
        auto c = vh::run_child(
            [&] {
                com::runtime::InitializeRuntime(com::runtime::RuntimeConfiguration{p});
                const auto off = [](auto&&) {};
                (void)off;
                switch (kind)
                {
                    case 0:
                        offer<com::AsSkeleton<I1>>([&](auto& s, bool on) {
                            if (on)
                            {
                                slots(s.e1, slot_n[0], 64, sizeof(T64));
                            }
                        });
                        break;
                    case 1:
                        offer<com::AsSkeleton<I2>>([&](auto& s, bool on) {
                            if (on)
                            {
                                slots(s.e1, slot_n[0], 1, sizeof(T1));
                                slots(s.e2, slot_n[1], 32, sizeof(T32));
                            }
                        });
                        break;
                    case 2:
                        offer<com::AsSkeleton<I3>>([&](auto& s, bool on) {
                            if (on)
                            {
                                slots(s.e1, slot_n[0], 1, sizeof(T1));
                                slots(s.e2, slot_n[1], 128, sizeof(T128));
                                slots(s.e3, slot_n[2], 8, sizeof(T8));
                            }
                        });
                        break;
                    case 3:
                        offer<com::AsSkeleton<I4>>([&](auto& s, bool on) {
                            if (on)
                            {
                                slots(s.e1, slot_n[0], 16, sizeof(T16));
                                slots(s.e2, slot_n[1], 1, sizeof(T1));
                                slots(s.e3, slot_n[2], 64, sizeof(T64));
                                slots(s.e4, slot_n[3], 512, sizeof(T512));
                            }
                        });
                        break;
                    case 4:
                        offer<com::AsSkeleton<I5>>([&](auto& s, bool on) {
                            if (on)
                            {
                                slots(s.e1, slot_n[0], 8, sizeof(T8));
                                slots(s.e2, slot_n[1], 1, sizeof(T1));
                                slots(s.e3, slot_n[2], 1, sizeof(T1));
                                slots(s.e4, slot_n[3], 16, sizeof(T16));
                                slots(s.e5, slot_n[4], 8, sizeof(T8));
                            }
                        });
                        break;
                    case 5:
                        offer<com::AsSkeleton<I6>>([&](auto& s, bool on) {
                            if (!on)
                            {
                                (void)s.f1.Update(T64{});
                            }
                            else
                            {
                                slots(s.e1, slot_n[0], 32, sizeof(T32));
                                for (unsigned i = 0; i < 3 * fslots; ++i)
                                {
                                    VH_CHECK(s.f1.Update(T64{}).has_value(), "field-update", "update ", i, " fails");
                                }
                            }
                        });
                        break;
                    default:
                    {
                        std::vector<std::string> names;
                        for (unsigned e = 1; e <= ne; ++e)
                        {
                            names.push_back("e" + std::to_string(e));
                        }
                        std::vector<com::impl::EventInfo> ev_info;
                        for (unsigned e = 0; e < ne; ++e)
                        {
                            ev_info.push_back({names[e], info[e]});
                        }
                        com::GenericSkeletonServiceElementInfo gi;
                        gi.events = ev_info;
                        auto rs = com::GenericSkeleton::Create(spec("s/inst"), gi);
                        VH_NEED(rs.has_value());
                        auto sk = std::move(rs).value();
                        auto o = sk.OfferService();
                        VH_CHECK(o.has_value(), "offer-failed", "offering a generic service fails");
                        auto view = sk.GetEvents();
                        for (unsigned e = 0; e < ne; ++e)
                        {
                            auto it = view.find(names[e]);
                            VH_CHECK(it != view.cend(), "generic-event-missing", "event ", names[e]);
                            slots(const_cast<com::GenericSkeletonEvent&>(it->second), slot_n[e], info[e].alignment, info[e].size);
                        }
                        sk.StopOfferService();
                        break;
                    }
                }
            },
            30);
        if (!c.exited || c.code != 0)
        {
            (void)!::write(2, cfg.data(), cfg.size());
            (void)!::write(2, "\n", 1);
        }
        if (c.sig == SIGABRT && !vh::has_sanitizer_report(c.err))
        {
            vh::violation("offer-terminates", vh::str("the provider ended while offering, kind ", kind, analysis ? ", analysis" : ", simulation", ": ", c.err.substr(0, 300)));
        }
        vh::relay(c);
        vh::count(analysis ? "analysis" : "simulation");
        vh::count("kind_" + std::to_string(kind));
        vh::distinct(vh::hash_str(cfg));
        vh::eval();
    }
    vh::sample("skeletons with 1..6 elements of alignment 1..512, 1..200 slots and 1..40 subscribers, both size modes, both levels, typed and generic");
    vh::finish();
}
