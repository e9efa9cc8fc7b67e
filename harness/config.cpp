// Configurations: every configured value arrives where it was configured, every documented default applies, a broken
// rule refuses the whole configuration, deployments survive being serialized, and a configuration can be extended while
// other threads look things up.
#include "vh.h"

#include "score/json/json_parser.h"
#include "score/json/json_writer.h"
#include "score/mw/com/impl/configuration/config_parser.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/configuration/configuration_error.h"
#include "score/mw/com/impl/instance_identifier.h"

#include <algorithm>
#include <fstream>
#include <memory>
#include <optional>

namespace score::mw::com::impl
{
class InstanceIdentifierAttorney
{
  public:
    static void Set(Configuration* c) noexcept
    {
        InstanceIdentifier::configuration_ = c;
    }
};
}  // namespace score::mw::com::impl
using namespace score::mw::com::impl;
namespace
{
template <class T>
using Opt = std::optional<T>;
using U64 = std::uint64_t;

// ---- the model of a configuration
struct El  // element of a service type
{
    std::string name;
    std::uint16_t id;
};
struct Ev  // event or field of an instance
{
    std::string name;
    Opt<std::uint16_t> slots;
    bool old_key{false};
    Opt<std::uint8_t> subs;
    Opt<bool> enforce;
    Opt<std::uint8_t> tracing;
    Opt<bool> get;
    Opt<bool> set;
};
struct Me
{
    std::string name;
    Opt<std::uint8_t> queue;
    Opt<bool> use;
};
struct Type
{
    std::string name;
    std::uint32_t major;
    std::uint32_t minor;
    bool bound{true};
    std::uint16_t id{0};
    std::vector<El> events;
    std::vector<El> fields;
    std::vector<El> methods;
};
struct Inst
{
    std::string spec;
    std::string type;
    std::uint32_t major;
    std::uint32_t minor;
    bool b{false};
    Opt<U64> shm;
    Opt<U64> ctl_b;
    Opt<U64> ctl_qm;
    Opt<std::uint16_t> id;
    Opt<bool> vm;
    Opt<bool> forwarded;
    std::vector<Ev> events;
    std::vector<Ev> fields;
    std::vector<Me> methods;
    Opt<bool> strict;
    Opt<std::map<bool, std::vector<std::uint32_t>>> consumer;  // key: is it for B
    Opt<std::map<bool, std::vector<std::uint32_t>>> provider;
};
struct Global
{
    Opt<bool> b;
    bool queue{false};
    Opt<std::int32_t> qm_rx;
    Opt<std::int32_t> b_rx;
    Opt<std::int32_t> b_tx;
    Opt<bool> analysis;
    Opt<std::uint32_t> app;
};
struct Trace
{
    Opt<bool> on;
    std::string app;
    Opt<std::string> path;
};
struct Cfg
{
    std::vector<Type> types;
    std::vector<Inst> insts;
    Opt<Global> global;
    Opt<Trace> trace;
};

// ---- a JSON tree that can be damaged before it is written
struct J
{
    enum K
    {
        kStr,
        kNum,
        kBool,
        kObj,
        kList
    } k{kObj};
    std::string v;
    std::vector<std::pair<std::string, J>> o;
    std::vector<J> l;
    J& operator[](const std::string& key)
    {
        o.emplace_back(key, J{});
        return o.back().second;
    }
    J* find(const std::string& key)
    {
        for (auto& e : o)
        {
            if (e.first == key)
            {
                return &e.second;
            }
        }
        return nullptr;
    }
    void drop(const std::string& key)
    {
        o.erase(std::remove_if(o.begin(), o.end(), [&key](auto& e) { return e.first == key; }), o.end());
    }
};
J js(const std::string& s) { return {J::kStr, s, {}, {}}; }
template <class T>
J jn(T n) { return {J::kNum, std::to_string(n), {}, {}}; }
J jb(bool b) { return {J::kBool, b ? "true" : "false", {}, {}}; }
J jl() { return {J::kList, "", {}, {}}; }
void write(const J& j, vh::Rng& r, std::string& out)
{
    const auto gap = [&r, &out] {
        if (r.chance(20))
        {
            out += r.chance(50) ? " " : "\n\t";
        }
    };
    gap();
    switch (j.k)
    {
        case J::kStr:
            out += '"';
            out += j.v;
            out += '"';
            break;
        case J::kNum:
        case J::kBool: out += j.v; break;
        case J::kObj:
        {
            std::vector<std::size_t> order(j.o.size());
            for (std::size_t i = 0; i < order.size(); ++i)
            {
                order[i] = i;
            }
            for (std::size_t i = order.size(); i > 1; --i)
            {
                std::swap(order[i - 1], order[r.below(i)]);
            }
            out += '{';
            bool first = true;
            for (const auto i : order)
            {
                if (!first)
                {
                    out += ',';
                }
                first = false;
                gap();
                out += '"' + j.o[i].first + "\":";
                write(j.o[i].second, r, out);
            }
            out += '}';
            break;
        }
        case J::kList:
        {
            out += '[';
            bool first = true;
            for (const auto& e : j.l)
            {
                if (!first)
                {
                    out += ',';
                }
                first = false;
                write(e, r, out);
            }
            out += ']';
            break;
        }
    }
    gap();
}
std::string text(const J& j, vh::Rng& r)
{
    std::string s;
    write(j, r, s);
    return s;
}

// ---- random models
std::string word(vh::Rng& r)
{
    static const char kA[] = "abcdefghijklmnopqrstuvwxyzABCXYZ_";
    static const char kN[] = "abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789";
    std::string s(1, kA[r.below(sizeof kA - 1)]);
    const auto n = r.below(7);
    for (U64 i = 0; i < n; ++i)
    {
        s += kN[r.below(sizeof kN - 1)];
    }
    return s;
}
std::string path(vh::Rng& r)
{
    std::string s = r.chance(70) ? "/" : "";
    const auto n = r.range(1, 3);
    for (U64 i = 0; i < n; ++i)
    {
        s += (i == 0 ? "" : "/") + word(r);
    }
    return s;
}
template <class T>
T num(vh::Rng& r)
{
    constexpr T top = std::numeric_limits<T>::max();
    switch (r.below(5))
    {
        case 0: return static_cast<T>(r.below(3));
        case 1: return static_cast<T>(top - static_cast<T>(r.below(2)));
        case 2: return static_cast<T>(r.below(200));
        default: return static_cast<T>(r.next() & static_cast<U64>(top));
    }
}
template <class F>
auto maybe(vh::Rng& r, unsigned percent, F f) -> Opt<decltype(f())>
{
    if (r.chance(percent))
    {
        return f();
    }
    return {};
}
Opt<bool> flag(vh::Rng& r)
{
    return maybe(r, 60, [&r] { return r.chance(50); });
}
template <class V>
bool has(const V& v, const std::string& n)
{
    return std::any_of(v.begin(), v.end(), [&n](auto& e) { return e.name == n; });
}
Cfg random_cfg(vh::Rng& r, const std::string& mark = "")
{
    Cfg c;
    const auto nt = r.range(mark.empty() ? 0 : 1, 4);
    for (U64 i = 0; i < nt; ++i)
    {
        Type t{};
        t.name = path(r) + mark;
        t.major = num<std::uint32_t>(r);
        t.minor = num<std::uint32_t>(r);
        if (!c.types.empty() && mark.empty() && r.chance(30))  // another version of a type that is there already
        {
            t.name = c.types[0].name;
        }
        if (std::any_of(c.types.begin(), c.types.end(), [&t](auto& e) { return e.name == t.name && e.major == t.major && e.minor == t.minor; }))
        {
            continue;
        }
        t.bound = r.chance(92);
        if (t.bound)
        {
            t.id = num<std::uint16_t>(r);
            std::set<std::uint16_t> ids;
            for (auto* v : {&t.events, &t.fields, &t.methods})
            {
                const auto n = r.below(5);
                for (U64 k = 0; k < n; ++k)
                {
                    El e{r.chance(10) && !t.events.empty() ? t.events[0].name : word(r), num<std::uint16_t>(r)};
                    if (!has(*v, e.name) && ids.insert(e.id).second)
                    {
                        v->push_back(e);
                    }
                }
            }
        }
        c.types.push_back(t);
    }
    const auto ni = r.range(mark.empty() ? 0 : 1, 4);
    std::set<std::string> specs;
    for (U64 i = 0; i < ni; ++i)
    {
        Inst d{};
        d.spec = path(r) + mark;
        if (!specs.insert(d.spec).second)
        {
            continue;
        }
        const Type* t = c.types.empty() || r.chance(5) ? nullptr : &r.pick(c.types);
        d.type = t != nullptr ? t->name : path(r);
        d.major = t != nullptr && !r.chance(3) ? t->major : num<std::uint32_t>(r);
        d.minor = t != nullptr ? t->minor : num<std::uint32_t>(r);
        d.b = r.chance(25);
        d.shm = maybe(r, 50, [&r] { return num<U64>(r); });
        d.ctl_b = maybe(r, 50, [&r] { return num<U64>(r); });
        d.ctl_qm = maybe(r, 50, [&r] { return num<U64>(r); });
        d.id = maybe(r, 80, [&r] { return num<std::uint16_t>(r); });
        d.vm = flag(r);
        d.forwarded = flag(r);
        if (d.forwarded.value_or(false))
        {
            d.vm = true;
        }
        for (auto* v : {&d.events, &d.fields})
        {
            const auto n = r.below(4);
            for (U64 k = 0; k < n; ++k)
            {
                Ev e{};
                const auto* from = t == nullptr ? nullptr : v == &d.events ? &t->events : &t->fields;
                e.name = from == nullptr || from->empty() || r.chance(5) ? word(r) : (*from)[r.below(from->size())].name;
                if (has(*v, e.name))
                {
                    continue;
                }
                e.slots = maybe(r, 70, [&r] { return num<std::uint16_t>(r); });
                e.old_key = v == &d.events && r.chance(20);
                e.subs = maybe(r, 70, [&r] { return num<std::uint8_t>(r); });
                e.enforce = flag(r);
                e.tracing = maybe(r, 60, [&r] { return num<std::uint8_t>(r); });
                if (v == &d.fields)
                {
                    e.get = flag(r);
                    e.set = flag(r);
                }
                v->push_back(e);
            }
        }
        const auto n = r.below(4);
        for (U64 k = 0; k < n; ++k)
        {
            Me m{word(r), maybe(r, 60, [&r] { return num<std::uint8_t>(r); }), flag(r)};
            if (!has(d.methods, m.name))
            {
                d.methods.push_back(m);
            }
        }
        d.strict = flag(r);
        for (auto* u : {&d.consumer, &d.provider})
        {
            if (r.chance(60))
            {
                u->emplace();
                for (const bool b : {false, true})
                {
                    if (r.chance(70))
                    {
                        auto& l = (**u)[b];
                        const auto m = r.below(4) + (r.chance(80) ? 1 : 0);
                        for (U64 k = 0; k < m; ++k)
                        {
                            l.push_back(num<std::uint32_t>(r));
                        }
                    }
                }
            }
        }
        c.insts.push_back(d);
    }
    if (r.chance(80))
    {
        Global g{};
        g.b = flag(r);
        g.queue = r.chance(60);
        if (g.queue)
        {
            g.qm_rx = maybe(r, 60, [&r] { return static_cast<std::int32_t>(num<std::uint32_t>(r)); });
            g.b_rx = maybe(r, 60, [&r] { return static_cast<std::int32_t>(num<std::uint32_t>(r)); });
            g.b_tx = maybe(r, 60, [&r] { return static_cast<std::int32_t>(num<std::uint32_t>(r)); });
        }
        g.analysis = flag(r);
        g.app = maybe(r, 60, [&r] { return num<std::uint32_t>(r); });
        c.global = g;
    }
    if (r.chance(70))
    {
        c.trace = Trace{flag(r), word(r), maybe(r, 60, [&r] { return path(r) + ".json"; })};
    }
    return c;
}

// ---- model to JSON
J version(std::uint32_t a, std::uint32_t b)
{
    J j;
    j["major"] = jn(a);
    j["minor"] = jn(b);
    return j;
}
J tree(const Cfg& c)
{
    J j;
    auto& ts = j["serviceTypes"] = jl();
    for (const auto& t : c.types)
    {
        J o;
        o["serviceTypeName"] = js(t.name);
        o["version"] = version(t.major, t.minor);
        auto bs = jl();
        if (t.bound)
        {
            J b;
            b["binding"] = js("SHM");
            b["serviceId"] = jn(t.id);
            const auto put = [&b](const char* list, const char* name, const char* id, const std::vector<El>& v) {
                auto l = jl();
                for (const auto& e : v)
                {
                    J x;
                    x[name] = js(e.name);
                    x[id] = jn(e.id);
                    l.l.push_back(x);
                }
                if (!v.empty())
                {
                    b[list] = l;
                }
            };
            put("events", "eventName", "eventId", t.events);
            put("fields", "fieldName", "fieldId", t.fields);
            put("methods", "methodName", "methodId", t.methods);
            bs.l.push_back(b);
        }
        o["bindings"] = bs;
        ts.l.push_back(o);
    }
    auto is = jl();
    for (const auto& d : c.insts)
    {
        J o;
        o["instanceSpecifier"] = js(d.spec);
        o["serviceTypeName"] = js(d.type);
        o["version"] = version(d.major, d.minor);
        J b;
        b["binding"] = js("SHM");
        b["asil-level"] = js(d.b ? "B" : "QM");
        const auto opt = [](J& at, const char* k, const auto& v) {
            if (v.has_value())
            {
                at[k] = jn(*v);
            }
        };
        const auto optb = [](J& at, const char* k, const Opt<bool>& v) {
            if (v.has_value())
            {
                at[k] = jb(*v);
            }
        };
        opt(b, "shm-size", d.shm);
        opt(b, "control-asil-b-shm-size", d.ctl_b);
        opt(b, "control-qm-shm-size", d.ctl_qm);
        opt(b, "instanceId", d.id);
        optb(b, "interVmSupport", d.vm);
        optb(b, "interVmForwarded", d.forwarded);
        for (const bool field : {false, true})
        {
            const auto& v = field ? d.fields : d.events;
            auto l = jl();
            for (const auto& e : v)
            {
                J x;
                x[field ? "fieldName" : "eventName"] = js(e.name);
                opt(x, e.old_key ? "maxSamples" : "numberOfSampleSlots", e.slots);
                opt(x, "maxSubscribers", e.subs);
                optb(x, "enforceMaxSamples", e.enforce);
                opt(x, "numberOfIpcTracingSlots", e.tracing);
                optb(x, "useGetIfAvailable", e.get);
                optb(x, "useSetIfAvailable", e.set);
                l.l.push_back(x);
            }
            if (!v.empty())
            {
                b[field ? "fields" : "events"] = l;
            }
        }
        auto l = jl();
        for (const auto& m : d.methods)
        {
            J x;
            x["methodName"] = js(m.name);
            opt(x, "queueSize", m.queue);
            optb(x, "use", m.use);
            l.l.push_back(x);
        }
        b["methods"] = l;
        if (d.strict.has_value())
        {
            b["permission-checks"] = js(*d.strict ? "strict" : "file-permissions-on-empty");
        }
        for (const bool prov : {false, true})
        {
            const auto& u = prov ? d.provider : d.consumer;
            if (u.has_value())
            {
                J x;
                for (const auto& e : *u)
                {
                    auto y = jl();
                    for (const auto id : e.second)
                    {
                        y.l.push_back(jn(id));
                    }
                    x[e.first ? "B" : "QM"] = y;
                }
                b[prov ? "allowedProvider" : "allowedConsumer"] = x;
            }
        }
        auto bl = jl();
        bl.l.push_back(b);
        o["instances"] = bl;
        is.l.push_back(o);
    }
    j["serviceInstances"] = is;
    if (c.global.has_value())
    {
        J g;
        if (c.global->b.has_value())
        {
            g["asil-level"] = js(*c.global->b ? "B" : "QM");
        }
        if (c.global->queue)
        {
            J q;
            if (c.global->qm_rx)
            {
                q["QM-receiver"] = jn(*c.global->qm_rx);
            }
            if (c.global->b_rx)
            {
                q["B-receiver"] = jn(*c.global->b_rx);
            }
            if (c.global->b_tx)
            {
                q["B-sender"] = jn(*c.global->b_tx);
            }
            g["queue-size"] = q;
        }
        if (c.global->analysis)
        {
            g["shm-size-calc-mode"] = js(*c.global->analysis ? "ANALYSIS" : "SIMULATION");
        }
        if (c.global->app)
        {
            g["applicationID"] = jn(*c.global->app);
        }
        j["global"] = g;
    }
    if (c.trace.has_value())
    {
        J t;
        if (c.trace->on)
        {
            t["enable"] = jb(*c.trace->on);
        }
        t["applicationInstanceID"] = js(c.trace->app);
        if (c.trace->path)
        {
            t["traceFilterConfigPath"] = js(*c.trace->path);
        }
        j["tracing"] = t;
    }
    return j;
}

// ---- what was parsed against the model
QualityType q(bool b) { return b ? QualityType::kASIL_B : QualityType::kASIL_QM; }
InstanceSpecifier spec(const std::string& s)
{
    return InstanceSpecifier::Create(std::string{s}).value();
}
void check_event(const LolaEventInstanceDeployment& d, const Ev& e, bool kept_tracing, const char* where)
{
    VH_CHECK(d.GetNumberOfSampleSlotsExcludingTracingSlot() == e.slots, "event-slots", where, ": sample slots of ", e.name);
    VH_CHECK(d.max_subscribers_ == e.subs, "event-subscribers", where, ": subscribers of ", e.name);
    VH_CHECK(d.enforce_max_samples_ == e.enforce.value_or(true), "event-enforce", where, ": enforceMaxSamples of ", e.name);
    VH_CHECK(d.max_concurrent_allocations_ == Opt<std::uint8_t>{std::uint8_t{1}}, "event-allocations", where, ": concurrent allocations of ", e.name);
    const auto tracing = kept_tracing ? e.tracing.value_or(0) : 0;
    VH_CHECK(d.GetNumberOfTracingSlots() == tracing, "event-tracing", where, ": tracing slots of ", e.name, ": ", int{d.GetNumberOfTracingSlots()}, " for ", int{tracing});
    if (!e.slots.has_value() || std::uint32_t{*e.slots} + tracing <= 0xFFFFU)
    {
        const auto all = d.GetNumberOfSampleSlots();
        VH_CHECK(all.has_value() == e.slots.has_value() && (!all || *all == *e.slots + tracing), "event-all-slots", where, ": all slots of ", e.name);
    }
    vh::eval(6);
}
void check_inst(const ServiceInstanceDeployment& s, const Inst& d, bool kept_tracing, const char* where)
{
    VH_CHECK(s.asilLevel_ == q(d.b), "instance-asil", where, ": quality of ", d.spec);
    VH_CHECK(s.instance_specifier_ == spec(d.spec), "instance-specifier", where, ": specifier of ", d.spec);
    VH_CHECK(s.service_ == make_ServiceIdentifierType(d.type, d.major, d.minor), "instance-type", where, ": type of ", d.spec);
    VH_CHECK(s.GetBindingType() == BindingType::kLoLa, "instance-binding", where, ": binding of ", d.spec);
    const auto& l = GetServiceInstanceDeploymentBinding<LolaServiceInstanceDeployment>(s);
    VH_CHECK(l.instance_id_.has_value() == d.id.has_value() && (!d.id || l.instance_id_->GetId() == *d.id), "instance-id", where, ": id of ", d.spec);
    VH_CHECK(l.shared_memory_size_ == d.shm, "instance-shm", where, ": shm-size of ", d.spec);
    VH_CHECK(l.control_asil_b_memory_size_ == d.ctl_b, "instance-control-b", where, ": control size for B of ", d.spec);
    VH_CHECK(l.control_qm_memory_size_ == d.ctl_qm, "instance-control-qm", where, ": control size for QM of ", d.spec);
    VH_CHECK(l.inter_vm_support_ == d.vm.value_or(false), "instance-vm", where, ": interVmSupport of ", d.spec);
    VH_CHECK(l.inter_vm_forwarded_ == d.forwarded.value_or(false), "instance-forwarded", where, ": interVmForwarded of ", d.spec);
    VH_CHECK(l.strict_permissions_ == d.strict.value_or(false), "instance-strict", where, ": permission checks of ", d.spec);
    for (const bool prov : {false, true})
    {
        const auto& have = prov ? l.allowed_provider_ : l.allowed_consumer_;
        const auto& want = prov ? d.provider : d.consumer;
        VH_CHECK(have.size() == (want ? want->size() : 0U), "instance-users", where, ": number of user lists of ", d.spec);
        if (want)
        {
            for (const auto& e : *want)
            {
                const auto it = have.find(q(e.first));
                VH_CHECK(it != have.end() && std::equal(e.second.begin(), e.second.end(), it->second.begin(), it->second.end()), "instance-users", where, ": users of ", d.spec);
            }
        }
    }
    VH_CHECK(l.events_.size() == d.events.size() && l.fields_.size() == d.fields.size() && l.methods_.size() == d.methods.size(), "instance-elements", where, ": number of elements of ", d.spec);
    for (const auto& e : d.events)
    {
        VH_CHECK(l.ContainsEvent(e.name), "instance-elements", where, ": event ", e.name);
        check_event(GetServiceElementInstanceDeployment<ServiceElementType::EVENT>(l, e.name), e, kept_tracing, where);
        VH_CHECK(l.ContainsField(e.name) == has(d.fields, e.name) && l.ContainsMethod(e.name) == has(d.methods, e.name), "instance-contains", where, ": ", e.name);
    }
    for (const auto& e : d.fields)
    {
        VH_CHECK(l.ContainsField(e.name), "instance-elements", where, ": field ", e.name);
        const auto& f = GetServiceElementInstanceDeployment<ServiceElementType::FIELD>(l, e.name);
        check_event(f.lola_event_instance_deployment_, e, kept_tracing, where);
        VH_CHECK(f.use_get_if_available_ == e.get.value_or(true), "field-get", where, ": useGetIfAvailable of ", e.name);
        VH_CHECK(f.use_set_if_available_ == e.set.value_or(true), "field-set", where, ": useSetIfAvailable of ", e.name);
        VH_CHECK(l.ContainsEvent(e.name) == has(d.events, e.name), "instance-contains", where, ": ", e.name);
    }
    for (const auto& e : d.methods)
    {
        VH_CHECK(l.ContainsMethod(e.name), "instance-elements", where, ": method ", e.name);
        const auto& m = GetServiceElementInstanceDeployment<ServiceElementType::METHOD>(l, e.name);
        VH_CHECK(m.queue_size_ == e.queue, "method-queue", where, ": queueSize of ", e.name);
        VH_CHECK(m.enabled_ == e.use.value_or(true), "method-use", where, ": use of ", e.name);
    }
    vh::eval(14);
}
void check_type(const ServiceTypeDeployment& s, const Type& t, const char* where)
{
    const auto* l = std::get_if<LolaServiceTypeDeployment>(&s.binding_info_);
    VH_CHECK((l != nullptr) == t.bound, "type-binding", where, ": binding of ", t.name);
    char h[16];
    std::snprintf(h, sizeof h, "0%04x", t.id);
    VH_CHECK(s.ToHashString() == (t.bound ? std::string{h} : "1"), "type-hash-string", where, ": hash string of ", t.name, ": ", s.ToHashString());
    vh::eval(2);
    if (l == nullptr)
    {
        return;
    }
    VH_CHECK(l->service_id_ == t.id, "type-id", where, ": id of ", t.name);
    VH_CHECK(l->events_.size() == t.events.size() && l->fields_.size() == t.fields.size() && l->methods_.size() == t.methods.size(), "type-elements", where, ": number of elements of ", t.name);
    for (const auto& e : t.events)
    {
        VH_CHECK(l->events_.count(e.name) == 1U && GetServiceElementId<ServiceElementType::EVENT>(*l, e.name) == e.id, "type-element-id", where, ": event ", e.name);
    }
    for (const auto& e : t.fields)
    {
        VH_CHECK(l->fields_.count(e.name) == 1U && GetServiceElementId<ServiceElementType::FIELD>(*l, e.name) == e.id, "type-element-id", where, ": field ", e.name);
    }
    for (const auto& e : t.methods)
    {
        VH_CHECK(l->methods_.count(e.name) == 1U && GetServiceElementId<ServiceElementType::METHOD>(*l, e.name) == e.id, "type-element-id", where, ": method ", e.name);
    }
    vh::eval(5);
}
const Type* type_of(const Cfg& c, const Inst& d)
{
    for (const auto& t : c.types)
    {
        if (t.name == d.type && t.major == d.major && t.minor == d.minor)
        {
            return &t;
        }
    }
    return nullptr;
}
void check_cfg(const Configuration& p, const Cfg& c, vh::Rng& r, const char* where)
{
    const auto& g = p.GetGlobalConfiguration();
    const Global none{};
    const auto& m = c.global ? *c.global : none;
    VH_CHECK(g.GetProcessAsilLevel() == q(m.b.value_or(false)), "global-asil", where, ": quality of the process");
    VH_CHECK(g.GetReceiverMessageQueueSize(QualityType::kASIL_QM) == m.qm_rx.value_or(GlobalConfiguration::DEFAULT_MIN_NUM_MESSAGES_RX_QUEUE), "global-queue", where, ": QM-receiver");
    VH_CHECK(g.GetReceiverMessageQueueSize(QualityType::kASIL_B) == m.b_rx.value_or(GlobalConfiguration::DEFAULT_MIN_NUM_MESSAGES_RX_QUEUE), "global-queue", where, ": B-receiver");
    VH_CHECK(g.GetSenderMessageQueueSize() == m.b_tx.value_or(GlobalConfiguration::DEFAULT_MIN_NUM_MESSAGES_TX_QUEUE), "global-queue", where, ": B-sender");
    VH_CHECK(g.GetShmSizeCalcMode() == (m.analysis.value_or(false) ? ShmSizeCalculationMode::kAnalysis : ShmSizeCalculationMode::kSimulation), "global-calc-mode", where, ": mode");
    VH_CHECK(g.GetApplicationId() == m.app, "global-application", where, ": application id");
    const auto& t = p.GetTracingConfiguration();
    const bool tracing = c.trace && c.trace->on.value_or(false);
    VH_CHECK(t.IsTracingEnabled() == tracing, "tracing-enabled", where, ": enable");
    VH_CHECK(t.GetApplicationInstanceID() == (c.trace ? c.trace->app : ""), "tracing-app", where, ": applicationInstanceID");
    if (c.trace)
    {
        VH_CHECK(t.GetTracingFilterConfigPath() == c.trace->path.value_or("./etc/mw_com_trace_filter.json"), "tracing-path", where, ": path ", t.GetTracingFilterConfigPath());
    }
    VH_CHECK(p.GetNumberOfServiceTypes() == c.types.size() && p.IsServiceTypesEmpty() == c.types.empty(), "type-count", where, ": number of types");
    VH_CHECK(p.GetNumberOfServiceInstances() == c.insts.size() && p.IsServiceInstancesEmpty() == c.insts.empty(), "instance-count", where, ": number of instances");
    bool any_bound = false;
    std::set<std::string_view> names;
    std::map<std::string, std::set<std::string>> events;
    std::map<std::string, std::set<std::string>> fields;
    std::map<std::string, std::set<std::string>> users;
    for (const auto& x : c.types)
    {
        const auto id = make_ServiceIdentifierType(x.name, x.major, x.minor);
        const auto d = p.GetServiceTypeDeployment(id);
        VH_CHECK(d.has_value(), "type-missing", where, ": ", x.name);
        check_type(d->get(), x, where);
        any_bound = any_bound || x.bound;
        names.insert(x.name);
        for (const auto& e : x.events)
        {
            events[x.name].insert(e.name);
        }
        for (const auto& e : x.fields)
        {
            fields[x.name].insert(e.name);
        }
        const auto other = make_ServiceIdentifierType(x.name, x.major, x.minor + 1U);
        const bool there = std::any_of(c.types.begin(), c.types.end(), [&x](auto& y) { return y.name == x.name && y.major == x.major && y.minor == x.minor + 1U; });
        VH_CHECK(p.GetServiceTypeDeployment(other).has_value() == there, "type-other-version", where, ": ", x.name);
    }
    VH_CHECK(!p.GetServiceTypeDeployment(make_ServiceIdentifierType("/not/there/0", 1, 0)).has_value(), "type-invented", where);
    VH_CHECK(!p.GetServiceInstanceDeployment(spec("not/there/at_all")).has_value(), "instance-invented", where);
    VH_CHECK(p.GetServiceTypeNames() == names, "type-names", where, ": names of types");
    const auto lola = p.HasLolaServiceDeployment();
    VH_CHECK(lola.has_value() && *lola == any_bound, "has-lola", where);
    bool valid = true;
    for (const auto& d : c.insts)
    {
        const auto s = p.GetServiceInstanceDeployment(spec(d.spec));
        VH_CHECK(s.has_value(), "instance-missing", where, ": ", d.spec);
        check_inst(s->get(), d, true, where);
        users[d.type].insert(d.spec);
        for (const bool field : {false, true})
        {
            for (const auto& e : field ? d.fields : d.events)
            {
                const tracing::ServiceElementIdentifierView v{d.type, e.name, field ? ServiceElementType::FIELD : ServiceElementType::EVENT};
                VH_CHECK(t.IsServiceElementTracingEnabled(v, d.spec) == (tracing && e.tracing.value_or(0) > 0), "tracing-element", where, ": tracing of ", e.name, " of ", d.spec);
                const auto next = e.name + "x";
                const tracing::ServiceElementIdentifierView w{d.type, next, v.service_element_type};
                if (!has(field ? d.fields : d.events, next))
                {
                    VH_CHECK(!t.IsServiceElementTracingEnabled(w, d.spec), "tracing-invented", where);
                }
            }
        }
        const auto* x = type_of(c, d);
        valid = valid && x != nullptr && x->bound && (!d.b || m.b.value_or(false)) &&
                std::all_of(d.events.begin(), d.events.end(), [x](auto& e) { return has(x->events, e.name); }) &&
                std::all_of(d.fields.begin(), d.fields.end(), [x](auto& e) { return has(x->fields, e.name); });
    }
    VH_CHECK(p.Validate().has_value() == valid, "validate", where, ": consistent is ", valid);
    vh::count(valid ? "consistent" : "inconsistent");
    for (const auto& x : c.types)
    {
        const auto as_view = [](const std::set<std::string>& s) { return std::set<std::string_view>(s.begin(), s.end()); };
        VH_CHECK(p.GetElementNamesOfServiceType(x.name, ServiceElementType::EVENT) == as_view(events[x.name]), "type-event-names", where, ": events of ", x.name);
        VH_CHECK(p.GetElementNamesOfServiceType(x.name, ServiceElementType::FIELD) == as_view(fields[x.name]), "type-field-names", where, ": fields of ", x.name);
        VH_CHECK(p.GetInstancesOfServiceType(x.name) == as_view(users[x.name]), "type-instances", where, ": instances of ", x.name);
    }
    for (const bool b : {false, true})
    {
        std::set<uid_t> want;
        bool all = false;
        for (const auto& d : c.insts)
        {
            for (const auto* u : {&d.consumer, &d.provider})
            {
                if (*u && (*u)->count(b) != 0U)
                {
                    const auto& v = (*u)->at(b);
                    all = all || v.empty();
                    want.insert(v.begin(), v.end());
                }
            }
        }
        if (all)
        {
            want.clear();
        }
        VH_CHECK(p.GetAggregatedAllowedUsers(q(b)) == want, "aggregated-users", where, ": users for ", b ? "B" : "QM");
    }
    vh::eval(16);
    (void)r;
}
Configuration parse(const std::string& s)
{
    auto a = score::json::JsonParser{}.FromBuffer(s);
    VH_NEED(a.has_value(), "test JSON");
    return configuration::Parse(std::move(a).value());
}
std::string shape(const Cfg& c)
{
    std::string s;
    for (const auto& t : c.types)
    {
        s += vh::str("t", t.bound, t.events.size(), t.fields.size(), t.methods.size());
    }
    for (const auto& d : c.insts)
    {
        s += vh::str("i", d.b, bool(d.shm), bool(d.ctl_b), bool(d.ctl_qm), bool(d.id), bool(d.vm), bool(d.strict), d.events.size(), d.fields.size(), d.methods.size(), bool(d.consumer), bool(d.provider));
    }
    return s;
}
void values_run(vh::Rng& r)
{
    const auto c = random_cfg(r);
    const auto s = text(tree(c), r);
    if (r.chance(30))
    {
        const auto p = vh::scratch() + "/tmp/cfg.json";
        {
            std::ofstream f{p, std::ios::trunc};
            f << s;
        }
        const auto cfg = configuration::Parse(p);
        check_cfg(cfg, c, r, "file");
        vh::count("files");
    }
    else
    {
        auto first = parse(s);
        const Configuration cfg{std::move(first)};
        check_cfg(cfg, c, r, "parsed");
        // deployments survive serialization
        for (const auto& t : c.types)
        {
            const auto& d = cfg.GetServiceTypeDeployment(make_ServiceIdentifierType(t.name, t.major, t.minor))->get();
            const auto buf = score::json::JsonWriter{}.ToBuffer(d.Serialize()).value();
            const auto any = score::json::JsonParser{}.FromBuffer(buf);
            const ServiceTypeDeployment again{any.value().As<score::json::Object>().value().get()};
            check_type(again, t, "type again");
            VH_CHECK(again == d, "type-equal", "a type deployment read back differs");
            vh::count("types_again");
        }
        for (const auto& i : c.insts)
        {
            const auto& d = cfg.GetServiceInstanceDeployment(spec(i.spec))->get();
            const auto buf = score::json::JsonWriter{}.ToBuffer(d.Serialize()).value();
            const auto any = score::json::JsonParser{}.FromBuffer(buf);
            const ServiceInstanceDeployment again{any.value().As<score::json::Object>().value().get()};
            check_inst(again, i, false, "instance again");
            const bool traced = std::any_of(i.events.begin(), i.events.end(), [](auto& e) { return e.tracing.value_or(0) > 0; }) ||
                                std::any_of(i.fields.begin(), i.fields.end(), [](auto& e) { return e.tracing.value_or(0) > 0; });
            VH_CHECK((again == d) == !traced, "instance-equal", "an instance deployment read back compares ", again == d, " with tracing slots ", traced);
            VH_CHECK(again == again && d == d && !(d < d), "instance-reflexive", "");
            VH_CHECK(areCompatible(d, again), "instance-compatible", "a deployment is not compatible with itself");
            vh::count("instances_again");
        }
        // identifiers given to others as text
        Configuration other{{}, {}, GlobalConfiguration{}, TracingConfiguration{}};
        InstanceIdentifierAttorney::Set(&other);
        std::set<std::string> used;
        for (const auto& i : c.insts)
        {
            const auto* t = type_of(c, i);
            if (t == nullptr || !used.insert(vh::str(t->name, "|", t->major, "|", t->minor)).second)
            {
                continue;
            }
            const auto& d = cfg.GetServiceInstanceDeployment(spec(i.spec))->get();
            const auto& td = cfg.GetServiceTypeDeployment(d.service_)->get();
            const auto id = make_InstanceIdentifier(d, td);
            const std::string str{id.ToString()};
            auto back = InstanceIdentifier::Create(std::string{str});
            VH_CHECK(back.has_value(), "identifier-refused", "an identifier's own text was refused");
            VH_CHECK(back->ToString() == str, "identifier-text", "text changed");
            const InstanceIdentifierView v{*back};
            check_inst(v.GetServiceInstanceDeployment(), i, false, "identifier");
            check_type(v.GetServiceTypeDeployment(), *t, "identifier");
            const auto sid = v.GetServiceInstanceId();
            VH_CHECK(sid.has_value() == i.id.has_value(), "identifier-instance-id", "instance id");
            VH_CHECK(std::hash<InstanceIdentifier>{}(*back) == std::hash<InstanceIdentifier>{}(id), "identifier-hash", "the same text hashes differently");
            VH_CHECK(v.isCompatibleWith(id), "identifier-compatible", "an identifier read back is not compatible");
            const auto stored = other.GetServiceInstanceDeployment(spec(i.spec));
            VH_CHECK(stored.has_value() && &stored->get() == &v.GetServiceInstanceDeployment(), "identifier-stored", "not stored in the configuration");
            vh::count("identifiers");
        }
        InstanceIdentifierAttorney::Set(nullptr);
    }
    vh::distinct(vh::hash_str(shape(c)));
    vh::count("configurations");
}

// ---- one broken rule refuses the configuration
struct Spot
{
    J* j;
    std::string key;
};
void scalars(J& j, const std::string& key, std::vector<Spot>& out)
{
    if (j.k == J::kObj)
    {
        for (auto& e : j.o)
        {
            scalars(e.second, e.first, out);
        }
    }
    else if (j.k == J::kList)
    {
        for (auto& e : j.l)
        {
            scalars(e, key, out);
        }
    }
    else
    {
        out.push_back({&j, key});
    }
}
void objects(J& j, const std::string& key, std::vector<Spot>& out)
{
    if (j.k == J::kObj)
    {
        out.push_back({&j, key});
        for (auto& e : j.o)
        {
            objects(e.second, e.first, out);
        }
    }
    else if (j.k == J::kList)
    {
        out.push_back({&j, key});
        for (auto& e : j.l)
        {
            objects(e, key + "[]", out);
        }
    }
}
std::string range_end(const std::string& key)
{
    static const std::map<std::string, std::string> kEnd{
        {"major", "4294967296"}, {"minor", "4294967296"}, {"eventId", "65536"}, {"fieldId", "65536"}, {"methodId", "65536"}, {"serviceId", "65536"}, {"instanceId", "65536"},
        {"numberOfSampleSlots", "65536"}, {"maxSamples", "65536"}, {"maxSubscribers", "256"}, {"numberOfIpcTracingSlots", "256"}, {"queueSize", "256"}, {"applicationID", "4294967296"},
        {"QM-receiver", "2147483648"}, {"B-receiver", "2147483648"}, {"B-sender", "2147483648"}, {"QM", "4294967296"}, {"B", "4294967296"}};
    const auto i = kEnd.find(key);
    return i == kEnd.end() ? "18446744073709551616" : i->second;
}
// Breaks one rule; empty if this tree offers no place for the rule that was picked.
std::string damage(J& j, vh::Rng& r)
{
    std::vector<Spot> sc;
    std::vector<Spot> ob;
    scalars(j, "", sc);
    objects(j, "", ob);
    const auto some = [&r](std::vector<Spot>& v, auto f) -> Spot {
        std::vector<Spot> w;
        for (auto& s : v)
        {
            if (f(s))
            {
                w.push_back(s);
            }
        }
        return w.empty() ? Spot{nullptr, ""} : r.pick(w);
    };
    switch (r.below(16))
    {
        case 0:  // wrong kind of value
        case 1:
        {
            const auto s = some(sc, [](auto&) { return true; });
            if (s.j == nullptr)
            {
                return "";
            }
            const auto was = s.j->k;
            switch (r.below(3))
            {
                case 0: *s.j = was == J::kStr ? jn(7) : js("7"); break;
                case 1: *s.j = was == J::kBool ? jn(1) : jb(true); break;
                default: *s.j = r.chance(50) ? J{} : jl();
            }
            return "kind of " + s.key;
        }
        case 2:  // out of range
        case 3:
        {
            const auto s = some(sc, [](auto& x) { return x.j->k == J::kNum; });
            if (s.j == nullptr)
            {
                return "";
            }
            const bool is_signed = s.key == "QM-receiver" || s.key == "B-receiver" || s.key == "B-sender";
            s.j->v = r.chance(50) ? range_end(s.key) : is_signed ? "-2147483649" : "-1";
            return "range of " + s.key;
        }
        case 4:
        {
            const auto s = some(sc, [](auto& x) { return x.j->k == J::kNum; });
            if (s.j == nullptr)
            {
                return "";
            }
            s.j->v = "1.5";
            return "fraction for " + s.key;
        }
        case 5:  // unknown word
        {
            const auto s = some(sc, [](auto& x) { return x.key == "asil-level" || x.key == "binding" || x.key == "shm-size-calc-mode" || x.key == "permission-checks"; });
            if (s.j == nullptr)
            {
                return "";
            }
            static const char* kW[] = {"", "A", "qm", "b", "D", "shm", "SHM ", "SOME/IP", "Strict", "simulation", "ESTIMATION", "file-permissions"};
            s.j->v = kW[r.below(12)];
            return "word for " + s.key + " '" + s.j->v + "'";
        }
        case 6:
        {
            const auto s = some(ob, [](auto& x) { return (x.key == "allowedConsumer" || x.key == "allowedProvider") && !x.j->o.empty(); });
            if (s.j == nullptr)
            {
                return "";
            }
            r.pick(s.j->o).first = r.chance(50) ? "C" : "qm";
            return "quality of " + s.key;
        }
        case 7:  // something needed is missing
        case 8:
        {
            static const char* kNeeded[] = {"serviceTypeName", "version", "major", "minor", "bindings", "instances", "serviceId", "eventName", "eventId", "fieldName", "fieldId", "methodName", "methodId", "binding", "instanceSpecifier", "serviceTypes", "serviceInstances", "applicationInstanceID"};
            std::vector<std::pair<J*, std::string>> places;
            for (auto& o : ob)
            {
                for (const auto* k : kNeeded)
                {
                    if (o.j->find(k) != nullptr)
                    {
                        places.emplace_back(o.j, k);
                    }
                }
                if (o.key == "instances[]")
                {
                    places.emplace_back(o.j, "asil-level");
                }
            }
            auto& p = r.pick(places);
            p.first->drop(p.second);
            return "missing " + p.second;
        }
        case 9:  // the same name twice
        {
            const auto s = some(ob, [](auto& x) { return x.j->k == J::kList && !x.j->l.empty() && (x.key == "events" || x.key == "fields" || x.key == "methods"); });
            if (s.j == nullptr)
            {
                return "";
            }
            auto copy = r.pick(s.j->l);
            for (const auto* k : {"eventId", "fieldId", "methodId"})
            {
                if (auto* id = copy.find(k))
                {
                    id->v = "12345";
                }
            }
            copy.drop("maxSubscribers");
            s.j->l.push_back(copy);
            return "name twice in " + s.key;
        }
        case 10:  // the same id twice in one type
        {
            const auto s = some(ob, [](auto& x) { return x.key == "bindings[]"; });
            if (s.j == nullptr)
            {
                return "";
            }
            std::vector<J*> ids;
            for (const auto* k : {"events", "fields", "methods"})
            {
                if (auto* l = s.j->find(k))
                {
                    for (auto& e : l->l)
                    {
                        for (const auto* n : {"eventId", "fieldId", "methodId"})
                        {
                            if (auto* id = e.find(n))
                            {
                                ids.push_back(id);
                            }
                        }
                    }
                }
            }
            if (ids.size() < 2U)
            {
                return "";
            }
            auto& a = r.pick(ids);
            auto& b = r.pick(ids);
            if (a == b)
            {
                return "";
            }
            a->v = b->v;
            return "id twice";
        }
        case 11:  // the same instance or type twice
        {
            auto* l = j.find(r.chance(50) ? "serviceTypes" : "serviceInstances");
            if (l->l.empty())
            {
                return "";
            }
            auto copy = r.pick(l->l);
            if (auto* v = copy.find("instanceSpecifier"))
            {
                copy.find("serviceTypeName")->v += "z";
            }
            l->l.insert(l->l.begin() + static_cast<std::ptrdiff_t>(r.below(l->l.size() + 1)), copy);
            return "entry twice";
        }
        case 12:
        {
            const auto s = some(ob, [](auto& x) { return x.key == "instances"; });
            if (s.j == nullptr)
            {
                return "";
            }
            if (r.chance(50))
            {
                s.j->l.clear();
                return "no deployment";
            }
            auto copy = s.j->l[0];
            copy.drop("instanceId");
            copy.drop("events");  // the names of traced elements would be refused for another reason
            copy.drop("fields");
            s.j->l.push_back(copy);
            return "two deployments";
        }
        case 13:
        {
            const auto s = some(ob, [](auto& x) { return x.key == "instances[]"; });
            if (s.j == nullptr)
            {
                return "";
            }
            s.j->drop("interVmForwarded");
            s.j->drop("interVmSupport");
            (*s.j)["interVmForwarded"] = jb(true);
            if (r.chance(50))
            {
                (*s.j)["interVmSupport"] = jb(false);
            }
            return "forwarded without support";
        }
        case 14:
        {
            const auto s = some(ob, [](auto& x) { return (x.key == "events[]" || x.key == "fields[]") && x.j->find("eventId") == nullptr && x.j->find("fieldId") == nullptr; });
            if (s.j == nullptr)
            {
                return "";
            }
            if (s.key == "events[]" && r.chance(50))
            {
                s.j->drop("maxSamples");
                s.j->drop("numberOfSampleSlots");
                (*s.j)["maxSamples"] = jn(5);
                (*s.j)["numberOfSampleSlots"] = jn(5);
                return "both names of the number of samples";
            }
            (*s.j)["maxConcurrentAllocations"] = jn(r.below(3));
            return "maxConcurrentAllocations";
        }
        default:
        {
            const auto s = some(sc, [](auto& x) { return x.key == "instanceSpecifier"; });
            if (s.j == nullptr)
            {
                return "";
            }
            static const char* kBad[] = {"", "/", "a/", "a//b", "1a", "a-b", "a b", "-a", "//a", "a.b"};
            s.j->v = kBad[r.below(10)];
            return "specifier '" + s.j->v + "'";
        }
    }
}
void broken_run(vh::Rng& r)
{
    J j;
    std::string what;
    for (int i = 0; i < 50 && what.empty(); ++i)
    {
        j = tree(random_cfg(r));
        what = damage(j, r);
    }
    VH_NEED(!what.empty(), "damage");
    auto s = text(j, r);
    const auto p = vh::scratch() + "/tmp/broken.json";
    if (r.chance(6))
    {
        if (r.chance(30))
        {
            ::unlink(p.c_str());
            what = "no such file";
        }
        else
        {
            s = text(tree(random_cfg(r)), r);
            s.resize(s.find_last_of('}'));
            what = "cut off";
        }
    }
    if (what != "no such file")
    {
        std::ofstream f{p, std::ios::trunc};
        f << s;
    }
    const auto c = vh::run_child([&p] {
        verif::g_contract_hook = [](const char*, int, const char*, const char*) { ::_exit(40); };
        std::set_terminate([] { ::_exit(41); });
        const auto cfg = configuration::Parse(p);
        ::_exit(42);
    });
    if (c.exited && c.code == 42)
    {
        vh::violation("accepted", "accepted although broken: " + what + ": " + vh::esc(s.substr(0, 3000)));
    }
    if (!(c.exited && (c.code == 40 || c.code == 41)))
    {
        if (c.sig == SIGABRT && c.err.find("VERIF-") != std::string::npos)
        {
        }
        else
        {
            (void)!::write(2, c.err.data(), c.err.size());
            vh::violation("crash", vh::str("damaged configuration (", what, ") ends in code ", c.code, " signal ", c.sig));
        }
    }
    vh::eval();
    vh::count("refused");
    vh::distinct(vh::hash_str(what.substr(0, what.find('\''))));
}

// ---- a configuration that grows while it is used
void growth_run(vh::Rng& r)
{
    const auto base = random_cfg(r, "_base");
    Configuration cfg{parse(text(tree(base), r))};
    InstanceIdentifierAttorney::Set(&cfg);
    constexpr std::size_t kWriters = 3;
    constexpr std::size_t kSteps = 4;
    struct Step
    {
        Cfg model;
        std::unique_ptr<Configuration> extra;  // to be merged
        std::string identifier;                // or to be created from text
        std::size_t inst{0};
        std::atomic<bool> done{false};
    };
    std::vector<std::unique_ptr<Step>> steps;
    std::size_t types = base.types.size();
    std::size_t insts = base.insts.size();
    for (std::size_t i = 0; i < kWriters * kSteps; ++i)
    {
        auto s = std::make_unique<Step>();
        s->model = random_cfg(r, vh::str("_m", i));
        s->extra = std::make_unique<Configuration>(parse(text(tree(s->model), r)));
        if (r.chance(50))
        {
            for (std::size_t k = 0; k < s->model.insts.size() && s->identifier.empty(); ++k)
            {
                const auto& d = s->model.insts[k];
                if (type_of(s->model, d) != nullptr)
                {
                    const auto& sd = s->extra->GetServiceInstanceDeployment(spec(d.spec))->get();
                    s->identifier = std::string{make_InstanceIdentifier(sd, s->extra->GetServiceTypeDeployment(sd.service_)->get()).ToString()};
                    s->inst = k;
                }
            }
        }
        types += s->identifier.empty() ? s->model.types.size() : 1U;
        insts += s->identifier.empty() ? s->model.insts.size() : 1U;
        steps.push_back(std::move(s));
    }
    std::atomic<bool> stop{false};
    std::atomic<U64> seen{0};
    std::vector<std::thread> readers;
    for (std::size_t k = 0; k < 3; ++k)
    {
        readers.emplace_back([&, seed = r.next()] {
            vh::Rng t{seed};
            std::map<std::string, const void*> at;
            std::vector<std::pair<std::string_view, std::string>> views;
            while (!stop.load(std::memory_order_relaxed))
            {
                for (const auto& n : cfg.GetServiceTypeNames())
                {
                    if (views.size() < 300U)
                    {
                        views.emplace_back(n, std::string{n});
                    }
                }
                const auto look = [&](const Type& ty, const char* where) {
                    const auto d = cfg.GetServiceTypeDeployment(make_ServiceIdentifierType(ty.name, ty.major, ty.minor));
                    VH_CHECK(d.has_value(), "grown-type-missing", where, ": ", ty.name);
                    check_type(d->get(), ty, where);
                    const void*& a = at["t" + vh::str(ty.name, ty.major, "|", ty.minor)];
                    VH_CHECK(a == nullptr || a == &d->get(), "grown-moved", where, ": a type deployment moved");
                    a = &d->get();
                };
                const auto look_i = [&](const Inst& in, bool traced, const char* where) {
                    const auto d = cfg.GetServiceInstanceDeployment(spec(in.spec));
                    VH_CHECK(d.has_value(), "grown-instance-missing", where, ": ", in.spec);
                    check_inst(d->get(), in, traced, where);
                    const void*& a = at["i" + in.spec];
                    VH_CHECK(a == nullptr || a == &d->get(), "grown-moved", where, ": an instance deployment moved");
                    a = &d->get();
                };
                look(base.types[t.below(base.types.size())], "base while growing");
                look_i(base.insts[t.below(base.insts.size())], true, "base while growing");
                auto& s = *steps[t.below(steps.size())];
                if (s.done.load(std::memory_order_acquire))
                {
                    seen.fetch_add(1, std::memory_order_relaxed);
                    if (s.identifier.empty())
                    {
                        look(s.model.types[t.below(s.model.types.size())], "merged");
                        look_i(s.model.insts[t.below(s.model.insts.size())], true, "merged");
                    }
                    else
                    {
                        look(*type_of(s.model, s.model.insts[s.inst]), "created");
                        look_i(s.model.insts[s.inst], false, "created");
                    }
                }
                VH_CHECK(cfg.GetNumberOfServiceTypes() <= types && cfg.GetNumberOfServiceInstances() <= insts, "grown-too-much", "more entries than were added");
                (void)cfg.GetInstancesOfServiceType(base.types[0].name);
                (void)cfg.GetAggregatedAllowedUsers(QualityType::kASIL_QM);
            }
            for (const auto& v : views)
            {
                VH_CHECK(v.first == v.second, "grown-name", "a name handed out changed");
            }
        });
    }
    std::vector<std::thread> writers;
    for (std::size_t w = 0; w < kWriters; ++w)
    {
        writers.emplace_back([&, w, seed = r.next()] {
            vh::Rng t{seed};
            for (std::size_t k = 0; k < kSteps; ++k)
            {
                auto& s = *steps[w * kSteps + k];
                vh::jitter(t, 80);
                if (s.identifier.empty())
                {
                    VH_CHECK(cfg.MergeServiceEntries(*s.extra).has_value(), "merge-refused", "entries with new names refused");
                    vh::count("merged");
                }
                else
                {
                    const auto id = InstanceIdentifier::Create(std::string{s.identifier});
                    VH_CHECK(id.has_value(), "create-refused", "an identifier was refused");
                    const InstanceIdentifierView v{*id};
                    check_inst(v.GetServiceInstanceDeployment(), s.model.insts[s.inst], false, "created");
                    vh::count("created");
                }
                s.done.store(true, std::memory_order_release);
            }
        });
    }
    for (auto& t : writers)
    {
        t.join();
    }
    ::usleep(2000);
    stop.store(true, std::memory_order_relaxed);
    for (auto& t : readers)
    {
        t.join();
    }
    VH_CHECK(cfg.GetNumberOfServiceTypes() == types, "grown-count", "types: ", cfg.GetNumberOfServiceTypes(), " instead of ", types);
    VH_CHECK(cfg.GetNumberOfServiceInstances() == insts, "grown-count", "instances: ", cfg.GetNumberOfServiceInstances(), " instead of ", insts);
    for (const auto& s : steps)
    {
        if (s->identifier.empty())
        {
            for (const auto& d : s->model.insts)
            {
                check_inst(cfg.GetServiceInstanceDeployment(spec(d.spec))->get(), d, true, "at the end");
            }
        }
    }
    // names that are there already are refused
    const auto again = cfg.MergeServiceEntries(*steps[r.below(steps.size())]->extra);
    VH_CHECK(!again.has_value(), "merge-duplicate", "entries that exist were merged again");
    Cfg only;
    only.types.clear();
    only.insts = {base.insts[0]};
    const auto dup = cfg.MergeServiceEntries(parse(text(tree(only), r)));
    VH_CHECK(!dup.has_value(), "merge-duplicate-instance", "an instance that exists was merged again");
    InstanceIdentifierAttorney::Set(nullptr);
    vh::count("growth_runs");
    vh::count("seen_while_growing", seen.load());
    vh::eval();
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 120);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        values_run(r);
    }
    const auto m = vh::arg("broken", 120);
    for (std::uint64_t i = 0; i < m; ++i)
    {
        broken_run(r);
    }
    const auto g = vh::arg("growth", 12);
    for (std::uint64_t i = 0; i < g; ++i)
    {
        growth_run(r);
    }
    vh::sample("random models written as JSON, parsed and compared; one broken rule at a time; merges and identifiers created while others look up");
    vh::finish();
}
