// Tracing: a filter file enables exactly the trace points it names; traced samples stay referenced until the trace
// library is done with them and no longer; the shared-memory objects it reads from are registered while they are used.
#include "vh.h"

#include "score/analysis/tracing/common/interface_types/types.h"
#include "score/json/json_parser.h"
#include "score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h"
#include "score/mw/com/impl/configuration/config_parser.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/tracing/configuration/tracing_filter_config.h"
#include "score/mw/com/impl/tracing/configuration/tracing_filter_config_parser.h"
#include "score/mw/com/impl/tracing/trace_error.h"
#include "score/mw/com/impl/tracing/tracing_runtime.h"
#include "score/mw/com/impl/tracing/type_erased_sample_ptr.h"

#include <algorithm>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <memory>
#include <optional>

using namespace score::mw::com::impl;
namespace tr = score::mw::com::impl::tracing;
namespace at = score::analysis::tracing;
using tr::ProxyEventTracePointType;
using tr::ProxyFieldTracePointType;
using tr::SkeletonEventTracePointType;
using tr::SkeletonFieldTracePointType;
namespace
{
// ---- a configuration with traced elements
struct El
{
    std::string name;
    bool field{false};
    std::uint16_t id{0};
};
struct Ty
{
    std::string name;
    std::uint16_t id{0};
    std::uint32_t major{1};
    std::uint32_t minor{0};
    std::vector<El> els;
};
struct In
{
    std::string spec;
    std::size_t type{0};
    std::uint16_t id{0};
    std::map<std::size_t, unsigned> slots;  // element of the type: tracing slots
};
struct Cfg
{
    std::vector<Ty> types;
    std::vector<In> insts;
    bool on{true};
    unsigned slots(const In& i, std::size_t e) const
    {
        const auto it = i.slots.find(e);
        return it == i.slots.end() ? 0 : it->second;
    }
};
const std::string kAlpha = "abcdefghijklmnopqrstuvwxyz";
std::string word(vh::Rng& r, const std::string& prefix)
{
    auto s = prefix;
    for (auto n = r.chance(40) ? 20 + r.below(60) : r.below(4); n > 0; --n)
    {
        s += kAlpha[r.below(kAlpha.size())];
    }
    return s;
}
Cfg random_cfg(vh::Rng& r, unsigned max_slots = 6)
{
    Cfg c;
    c.on = r.chance(85);
    const auto nt = 1 + r.below(3);
    std::uint16_t id = 1;
    for (std::size_t t = 0; t < nt; ++t)
    {
        Ty y;
        y.name = word(r, vh::str("/svc", t));
        y.id = static_cast<std::uint16_t>(100 + t * 7 + r.below(5));
        y.major = static_cast<std::uint32_t>(1 + r.below(3));
        y.minor = static_cast<std::uint32_t>(r.below(3));
        const auto ne = 1 + r.below(4);
        for (std::size_t e = 0; e < ne; ++e)
        {
            // elements of different types share names
            y.els.push_back({r.chance(60) ? vh::str("e", e) : word(r, vh::str("e", e)), r.chance(40), id++});
        }
        c.types.push_back(y);
    }
    const auto ni = 1 + r.below(5);
    for (std::size_t i = 0; i < ni; ++i)
    {
        In n;
        n.spec = word(r, vh::str("/inst", i));
        n.type = r.below(nt);
        n.id = static_cast<std::uint16_t>(10 + i);
        for (std::size_t e = 0; e < c.types[n.type].els.size(); ++e)
        {
            if (r.chance(85))
            {
                n.slots[e] = r.chance(25) ? 0 : static_cast<unsigned>(1 + r.below(max_slots));
            }
        }
        c.insts.push_back(n);
    }
    return c;
}
std::string text(const Cfg& c)
{
    std::ostringstream o;
    const auto list = [&o](const auto& v, const auto& f) {
        const char* sep = "";
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            std::ostringstream x;
            if (f(x, i))
            {
                o << sep << x.str();
                sep = ",";
            }
        }
    };
    o << R"({"serviceTypes":[)";
    list(c.types, [&](std::ostream& x, std::size_t t) {
        const auto& y = c.types[t];
        x << R"({"serviceTypeName":")" << y.name << R"(","version":{"major":)" << y.major << R"(,"minor":)" << y.minor
          << R"(},"bindings":[{"binding":"SHM","serviceId":)" << y.id;
        for (const bool f : {false, true})
        {
            const char* sep = "";
            x << (f ? R"(,"fields":[)" : R"(,"events":[)");
            for (const auto& e : y.els)
            {
                if (e.field == f)
                {
                    x << sep << (f ? R"({"fieldName":")" : R"({"eventName":")") << e.name << (f ? R"(","fieldId":)" : R"(","eventId":)") << e.id << '}';
                    sep = ",";
                }
            }
            x << ']';
        }
        x << "}]}";
        return true;
    });
    o << R"(],"serviceInstances":[)";
    list(c.insts, [&](std::ostream& x, std::size_t i) {
        const auto& n = c.insts[i];
        const auto& y = c.types[n.type];
        x << R"({"instanceSpecifier":")" << n.spec << R"(","serviceTypeName":")" << y.name << R"(","version":{"major":)" << y.major << R"(,"minor":)" << y.minor
          << R"(},"instances":[{"binding":"SHM","asil-level":"QM","instanceId":)" << n.id;
        for (const bool f : {false, true})
        {
            const char* sep = "";
            x << (f ? R"(,"fields":[)" : R"(,"events":[)");
            for (const auto& e : n.slots)
            {
                const auto& el = y.els[e.first];
                if (el.field == f)
                {
                    x << sep << (f ? R"({"fieldName":")" : R"({"eventName":")") << el.name << R"(","numberOfSampleSlots":5,"maxSubscribers":3)";
                    if (e.second > 0)
                    {
                        x << R"(,"numberOfIpcTracingSlots":)" << e.second;
                    }
                    x << '}';
                    sep = ",";
                }
            }
            x << ']';
        }
        x << "}]}";
        return true;
    });
    o << R"(],"tracing":{"enable":)" << (c.on ? "true" : "false") << R"(,"applicationInstanceID":"app"}})";
    return o.str();
}
Configuration parse(const std::string& s)
{
    const score::json::JsonParser p{};
    auto j = p.FromBuffer(s);
    VH_NEED(j.has_value(), "configuration: " + s);
    return configuration::Parse(std::move(j).value());
}

// ---- filter files
struct Flag
{
    const char* block;  // for fields
    const char* key;
    int kind;  // 0 proxy event, 1 skeleton event, 2 proxy field, 3 skeleton field
    int point;
};
#define PE(x) 0, static_cast<int>(ProxyEventTracePointType::x)
#define SE(x) 1, static_cast<int>(SkeletonEventTracePointType::x)
#define PF(x) 2, static_cast<int>(ProxyFieldTracePointType::x)
#define SF(x) 3, static_cast<int>(SkeletonFieldTracePointType::x)
const std::vector<Flag> kEvent{
    {"", "trace_subscribe_send", PE(SUBSCRIBE)},
    {"", "trace_unsubscribe_send", PE(UNSUBSCRIBE)},
    {"", "trace_subscription_state_changed", PE(SUBSCRIBE_STATE_CHANGE)},
    {"", "trace_subscription_state_change_handler_registered", PE(SET_SUBSCRIPTION_STATE_CHANGE_HANDLER)},
    {"", "trace_subscription_state_change_handler_deregistered", PE(UNSET_SUBSCRIPTION_STATE_CHANGE_HANDLER)},
    {"", "trace_subscription_state_change_handler_callback", PE(SUBSCRIPTION_STATE_CHANGE_HANDLER_CALLBACK)},
    {"", "trace_get_new_samples", PE(GET_NEW_SAMPLES)},
    {"", "trace_get_new_samples_callback", PE(GET_NEW_SAMPLES_CALLBACK)},
    {"", "trace_receive_handler_registered", PE(SET_RECEIVE_HANDLER)},
    {"", "trace_receive_handler_deregistered", PE(UNSET_RECEIVE_HANDLER)},
    {"", "trace_receive_handler_callback", PE(RECEIVE_HANDLER_CALLBACK)},
    {"", "trace_send_allocate", SE(SEND_WITH_ALLOCATE)},
    {"", "trace_send", SE(SEND)},
};
const std::vector<Flag> kField{
    {"notifier", "trace_subscribe_send", PF(SUBSCRIBE)},
    {"notifier", "trace_unsubscribe_send", PF(UNSUBSCRIBE)},
    {"notifier", "trace_subscription_state_changed", PF(SUBSCRIBE_STATE_CHANGE)},
    {"notifier", "trace_subscription_state_change_handler_registered", PF(SET_SUBSCRIPTION_STATE_CHANGE_HANDLER)},
    {"notifier", "trace_subscription_state_change_handler_deregistered", PF(UNSET_SUBSCRIPTION_STATE_CHANGE_HANDLER)},
    {"notifier", "trace_subscription_state_change_handler_callback", PF(SUBSCRIPTION_STATE_CHANGE_HANDLER_CALLBACK)},
    {"notifier", "trace_get_new_samples", PF(GET_NEW_SAMPLES)},
    {"notifier", "trace_get_new_samples_callback", PF(GET_NEW_SAMPLES_CALLBACK)},
    {"notifier", "trace_receive_handler_registered", PF(SET_RECEIVE_HANDLER)},
    {"notifier", "trace_receive_handler_deregistered", PF(UNSET_RECEIVE_HANDLER)},
    {"notifier", "trace_receive_handler_callback", PF(RECEIVE_HANDLER_CALLBACK)},
    {"notifier", "trace_update", SF(UPDATE)},
    {"notifier", "trace_update", SF(UPDATE_WITH_ALLOCATE)},
    {"getter", "trace_request_send", PF(GET)},
    {"getter", "trace_response_received", PF(GET_RESULT)},
    {"getter", "trace_request_received", SF(GET_CALL)},
    {"getter", "trace_response_send", SF(GET_CALL_RESULT)},
    {"setter", "trace_request_send", PF(SET)},
    {"setter", "trace_response_received", PF(SET_RESULT)},
    {"setter", "trace_request_received", SF(SET_CALL)},
    {"setter", "trace_response_send", SF(SET_CALL_RESULT)},
};
const char* const kOdd[] = {"trace_subscribe_received", "trace_unsubscribe_received"};
using Point = std::tuple<std::string, std::string, bool, int, int>;  // type, element, field, kind, point

std::string filter(const Cfg& c, vh::Rng& r, std::set<Point>& on)
{
    std::ostringstream o;
    o << R"({"services":[)";
    const auto n = r.below(5);
    const char* s0 = "";
    for (std::uint64_t s = 0; s < n; ++s)
    {
        const bool known = r.chance(85);
        const auto& ty = c.types[r.below(c.types.size())];
        const auto name = known ? ty.name : word(r, "/other");
        o << s0 << R"({"shortname_path":")" << name << '"';
        s0 = ",";
        for (const bool field : {false, true})
        {
            if (r.chance(15))
            {
                continue;
            }
            o << (field ? R"(,"fields":[)" : R"(,"events":[)");
            const char* s1 = "";
            for (auto k = r.below(5); k > 0; --k)
            {
                // of this kind, of the other kind, or unknown
                const auto& el = ty.els[r.below(ty.els.size())];
                const auto en = r.chance(85) ? el.name : word(r, "x");
                o << s1 << R"({"shortname":")" << en << '"';
                s1 = ",";
                static const std::vector<unsigned> kPercent{0, 10, 50, 100};
                const auto percent = r.pick(kPercent);
                std::map<std::string, std::map<std::string, bool>> blocks;
                for (const auto& f : field ? kField : kEvent)
                {
                    auto& b = blocks[f.block];
                    if (b.count(f.key) == 0)
                    {
                        if (!r.chance(percent))
                        {
                            if (r.chance(30))
                            {
                                b[f.key] = false;
                            }
                            continue;
                        }
                        b[f.key] = true;
                    }
                    if (b[f.key] && known)
                    {
                        on.insert(Point{name, en, field, f.kind, f.point});
                    }
                }
                // the two points of one key go together
                if (field && blocks["notifier"].count("trace_update") != 0 && blocks["notifier"]["trace_update"] && known)
                {
                    on.insert(Point{name, en, true, 3, static_cast<int>(SkeletonFieldTracePointType::UPDATE)});
                    on.insert(Point{name, en, true, 3, static_cast<int>(SkeletonFieldTracePointType::UPDATE_WITH_ALLOCATE)});
                }
                for (const auto& b : blocks)
                {
                    const bool own = !b.first.empty();
                    if (own && b.second.empty() && r.chance(50))
                    {
                        continue;
                    }
                    if (own)
                    {
                        o << ",\"" << b.first << "\":{";
                    }
                    const char* s2 = own ? "" : ",";
                    for (const auto& f : b.second)
                    {
                        o << s2 << '"' << f.first << "\":" << (f.second ? "true" : "false");
                        s2 = ",";
                    }
                    if (r.chance(20) && (b.first == "notifier" || !own))
                    {
                        o << s2 << '"' << kOdd[r.below(2)] << "\":true";
                    }
                    if (own)
                    {
                        o << '}';
                    }
                }
                o << '}';
            }
            o << ']';
        }
        if (r.chance(20))
        {
            o << R"(,"methods":[{"shortname":"m","trace_request_send":true}])";
        }
        o << '}';
    }
    o << "]}";
    return o.str();
}
bool enabled(const tr::TracingFilterConfig& f, const std::string& type, const std::string& el, const std::string& inst, int kind, int point)
{
    // the texts asked with are not those that were stored
    const std::string a{type};
    const std::string b{el};
    const std::string c{inst};
    switch (kind)
    {
        case 0: return f.IsTracePointEnabled(a, b, c, static_cast<ProxyEventTracePointType>(point));
        case 1: return f.IsTracePointEnabled(a, b, c, static_cast<SkeletonEventTracePointType>(point));
        case 2: return f.IsTracePointEnabled(a, b, c, static_cast<ProxyFieldTracePointType>(point));
        default: return f.IsTracePointEnabled(a, b, c, static_cast<SkeletonFieldTracePointType>(point));
    }
}
void filter_run(vh::Rng& r)
{
    const auto c = random_cfg(r, r.chance(20) ? 255 : 6);
    auto conf = parse(text(c));
    std::set<Point> on;
    const auto s = filter(c, r, on);
    const auto read = [&]() -> score::Result<tr::TracingFilterConfig> {
        if (r.chance(50))
        {
            const auto p = vh::scratch() + "/tmp/filter.json";
            {
                std::ofstream f{p, std::ios::trunc};
                f << s;
            }
            return tr::Parse(std::string_view{p}, conf);
        }
        const score::json::JsonParser p{};
        auto j = p.FromBuffer(s);
        VH_NEED(j.has_value(), "filter: " + s);
        return tr::Parse(std::move(j).value(), conf);
    };
    auto got = read();
    VH_CHECK(got.has_value(), "filter-read", "a filter file was refused: ", s);
    auto f = std::move(got).value();
    std::size_t slots = 0;
    std::size_t points = 0;
    for (const auto& in : c.insts)
    {
        for (std::size_t t = 0; t < c.types.size(); ++t)
        {
            const auto& ty = c.types[t];
            for (std::size_t e = 0; e < ty.els.size(); ++e)
            {
                const auto& el = ty.els[e];
                bool done = false;
                for (const bool field : {false, true})
                {
                    for (const auto& k : field ? kField : kEvent)
                    {
                        const bool want = c.on && in.type == t && el.field == field && c.slots(in, e) > 0 && on.count(Point{ty.name, el.name, field, k.kind, k.point}) != 0;
                        const bool is = enabled(f, ty.name, el.name, in.spec, k.kind, k.point);
                        // an element of the same name and the other kind has its own answer
                        VH_CHECK(is == want, "filter", k.key, " of ", ty.name, " ", el.name, " at ", in.spec, " is ", is ? "enabled" : "disabled", ": ", s.substr(0, 1500));
                        points += is ? 1U : 0U;
                        if (want && (k.kind == 1 || (k.kind == 3 && k.point <= static_cast<int>(SkeletonFieldTracePointType::UPDATE_WITH_ALLOCATE))))
                        {
                            done = true;
                        }
                    }
                }
                slots += done ? c.slots(in, e) : 0U;
            }
        }
    }
    VH_CHECK(!enabled(f, "/nowhere", "e0", c.insts[0].spec, 1, 1) && !enabled(f, c.types[0].name, "e0", "/nowhere", 1, 1), "filter-unknown", "enabled for what does not exist");
    const auto n = f.GetNumberOfTracingSlots(conf);
    VH_CHECK(n == slots, "filter-slots", n, " tracing slots instead of ", slots);
    const auto g{std::move(f)};
    for (const auto& p : on)
    {
        for (const auto& in : c.insts)
        {
            const auto& ty = c.types[in.type];
            for (std::size_t e = 0; e < ty.els.size(); ++e)
            {
                if (ty.name == std::get<0>(p) && ty.els[e].name == std::get<1>(p) && ty.els[e].field == std::get<2>(p))
                {
                    VH_CHECK(enabled(g, ty.name, ty.els[e].name, in.spec, std::get<3>(p), std::get<4>(p)) == (c.on && c.slots(in, e) > 0), "filter-moved", "a moved filter answers differently");
                }
            }
        }
    }
    vh::count("filters");
    vh::count("points_enabled", points);
    vh::count("slots_needed", slots);
    vh::eval();
    vh::distinct(vh::comb(points, slots * 1000 + c.insts.size()));
}
// a filter that needs more slots than can be numbered
void filter_limit(vh::Rng& r)
{
    Cfg c;
    c.types.push_back({"/svc", 1, 1, 0, {{"e", r.chance(50), 1}}});
    const std::size_t n = 257;  // 257 * 255 = 65535
    const bool over = r.chance(50);
    for (std::size_t i = 0; i < n + (over ? 1 : 0); ++i)
    {
        c.insts.push_back({vh::str("/i", i), 0, static_cast<std::uint16_t>(i), {{0, i == n ? static_cast<unsigned>(1 + r.below(255)) : 255U}}});
    }
    auto conf = parse(text(c));
    const auto s = c.types[0].els[0].field ? R"({"services":[{"shortname_path":"/svc","fields":[{"shortname":"e","notifier":{"trace_update":true}}]}]})"
                                           : R"({"services":[{"shortname_path":"/svc","events":[{"shortname":"e","trace_send":true,"trace_send_allocate":true}]}]})";
    const score::json::JsonParser p{};
    auto j = p.FromBuffer(s);
    const auto f = tr::Parse(std::move(j).value(), conf).value();
    const auto res = vh::run_child([&] {
        std::set_terminate([] { ::_exit(41); });
        const auto k = f.GetNumberOfTracingSlots(conf);
        ::_exit(k == 65535 ? 42 : 43);
    });
    VH_CHECK(res.exited && res.code == (over ? 41 : 42), "filter-limit", over ? "65536 or more slots were accepted" : "65535 slots were not counted", " ", res.code);
    vh::eval();
    vh::count("limits");
}

// ---- the trace library, as a monitor
struct Token  // a traced sample
{
    std::atomic<int>* held{nullptr};
    explicit Token(std::atomic<int>& h) : held{&h} { held->fetch_add(1); }
    Token(Token&& o) noexcept : held{o.held} { o.held = nullptr; }
    Token(const Token&) = delete;
    Token& operator=(const Token&) = delete;
    ~Token()
    {
        if (held != nullptr)
        {
            held->fetch_sub(1);
        }
    }
};
struct Sample
{
    std::atomic<int> held{0};
    std::size_t inst{0};
    std::size_t el{0};
    std::uint32_t data_id{0};
    std::size_t offset{0};
    std::size_t size{0};
    int result{0};  // what the library will answer
    bool reached{false};
    bool loss{false};
    std::uint32_t context{0};
};
thread_local Sample* t_sample = nullptr;
struct Library : at::TraceBackend
{
    const Cfg& c;
    std::mutex m;
    std::condition_variable cv;
    std::map<at::ShmObjectHandle, int> handles;  // handle: fd
    std::set<int> open_fds;
    std::map<std::uint32_t, Sample*> pending;
    std::deque<std::uint32_t> queue;
    std::map<std::pair<std::size_t, std::size_t>, std::pair<std::uint32_t, std::uint32_t>> ranges;
    std::map<int, std::deque<int>> reg_answers;  // fd: answers to registrations
    std::atomic<std::uint64_t> traced{0};
    std::atomic<std::uint64_t> locals{0};
    std::atomic<std::uint64_t> regs{0};
    std::optional<at::TraceDoneCallBackType> cb;
    at::ShmObjectHandle next{5};
    bool refuse_client{false};
    bool refuse_cb{false};
    std::atomic<bool> dead{false};  // after a terminal error nothing may be asked any more
    explicit Library(const Cfg& x) : c{x} {}
    static at::ErrorCode code(int k)
    {
        return k == 1 ? at::ErrorCode::kNotEnoughMemoryRecoverable : (k == 2 ? at::ErrorCode::kGenericErrorFatal : at::ErrorCode::kTerminalFatal);
    }
    at::RegisterClientResult RegisterClient(at::BindingType b, const std::string& s) override
    {
        VH_CHECK(b == at::BindingType::kLoLa && s == "app", "client", "registered as ", s);
        if (refuse_client)
        {
            return score::MakeUnexpected(at::ErrorCode::kGenericErrorFatal);
        }
        return at::TraceClientId{9};
    }
    at::RegisterTraceDoneCallBackResult RegisterTraceDoneCB(at::TraceClientId id, at::TraceDoneCallBackType f) override
    {
        VH_CHECK(id == 9, "client", "another client");
        if (refuse_cb)
        {
            return score::MakeUnexpected(at::ErrorCode::kNotEnoughMemoryRecoverable);
        }
        cb.emplace(std::move(f));
        return {};
    }
    at::RegisterSharedMemoryObjectResult RegisterShmObject(at::TraceClientId id, at::ShmFileDescriptor fd) override
    {
        VH_CHECK(id == 9, "client", "another client");
        const std::lock_guard<std::mutex> l{m};
        regs.fetch_add(1);
        VH_CHECK(!dead.load(), "after-disable", "RegisterShmObject after a terminal error");
        VH_CHECK(open_fds.count(fd) == 1, "shm-stale", "a shared-memory object that is gone is registered again, fd ", fd);
        for (const auto& h : handles)
        {
            VH_CHECK(h.second != fd, "shm-twice", "a shared-memory object is registered twice");
        }
        auto& a = reg_answers[fd];
        const int k = a.empty() ? 0 : a.front();
        if (!a.empty())
        {
            a.pop_front();
        }
        if (k != 0)
        {
            if (k == 3)
            {
                dead.store(true);
            }
            return score::MakeUnexpected(code(k));
        }
        handles[next] = fd;
        return next++;
    }
    at::RegisterSharedMemoryObjectResult RegisterShmObject(at::TraceClientId, const std::string&) override { return at::ShmObjectHandle{1}; }
    at::UnregisterSharedMemoryObjectResult UnregisterShmObject(at::TraceClientId id, at::ShmObjectHandle h) override
    {
        VH_CHECK(id == 9, "client", "another client");
        const std::lock_guard<std::mutex> l{m};
        VH_CHECK(handles.erase(h) == 1, "shm-unregister", "a handle that is not registered is given back");
        return {};
    }
    void identify(const at::AraComMetaInfo& m, std::size_t inst, std::size_t el) const
    {
        const auto& e = m.properties.service_instance_element;
        const auto& in = c.insts[inst];
        const auto& ty = c.types[in.type];
        const auto& d = ty.els[el];
        VH_CHECK(e.service_id == ty.id && e.instance_id == in.id && e.major == ty.major && e.minor == ty.minor, "trace-who", "ids of another service");
        const auto* const ev = std::get_if<at::ServiceInstanceElement::EventId>(&e.element);
        const auto* const fi = std::get_if<at::ServiceInstanceElement::FieldId>(&e.element);
        VH_CHECK(d.field ? (fi != nullptr && fi->v == d.id) : (ev != nullptr && ev->v == d.id), "trace-who", "id of another element");
    }
    at::TraceResult Trace(at::TraceClientId id, const at::AraComMetaInfo& meta, at::ShmDataChunkList& l, at::TraceContextId ctx) override
    {
        Sample* const s = t_sample;
        VH_CHECK(id == 9 && s != nullptr && !s->reached, "trace-call", "an unexpected call");
        VH_CHECK(!dead.load() || s->result == 9, "after-disable", "Trace after a terminal error");
        s->reached = true;
        s->loss = meta.data_loss;
        s->context = ctx;
        identify(meta, s->inst, s->el);
        VH_CHECK(meta.properties.trace_point_data_id.has_value() && *meta.properties.trace_point_data_id == s->data_id, "trace-id", "another sample id");
        VH_CHECK(l.list.size() == 1 && l.list[0].size == s->size && l.list[0].start.offset == s->offset, "trace-where", "offset ", l.list[0].start.offset, " instead of ", s->offset);
        VH_CHECK(s->held.load() == 1, "trace-held", "the sample is referenced ", s->held.load(), " times when it is traced");
        const std::lock_guard<std::mutex> lock{m};
        const auto h = handles.find(l.list[0].start.shm_object_handle);
        VH_CHECK(h != handles.end() && h->second == static_cast<int>(100 + s->inst), "trace-object", "a shared-memory object of something else");
        const auto rg = ranges.at({s->inst, s->el});
        VH_CHECK(ctx >= rg.first && ctx < rg.first + rg.second, "trace-context", "context ", ctx, " is none of the slots of the element");
        VH_CHECK(pending.count(ctx) == 0, "trace-context-twice", "context ", ctx, " is in use");
        traced.fetch_add(1);
        if (s->result != 0)
        {
            if (s->result == 3)
            {
                dead.store(true);
            }
            return score::MakeUnexpected(code(s->result));
        }
        pending[ctx] = s;
        queue.push_back(ctx);
        cv.notify_all();
        return {};
    }
    int local_answer{0};
    bool local_loss{false};
    at::TraceResult Trace(at::TraceClientId id, const at::AraComMetaInfo& meta, at::LocalDataChunkList& l) override
    {
        Sample* const s = t_sample;
        VH_CHECK(id == 9 && s != nullptr && !s->reached, "trace-call", "an unexpected call");
        s->reached = true;
        s->loss = meta.data_loss;
        identify(meta, s->inst, s->el);
        VH_CHECK(l.list.size() == 1 && l.list[0].size == s->size && l.list[0].start == static_cast<void*>(s), "trace-where", "other data");
        locals.fetch_add(1);
        if (s->result == 3)
        {
            dead.store(true);
        }
        return s->result == 0 ? at::TraceResult{} : at::TraceResult{score::MakeUnexpected(code(s->result))};
    }
    // the library is done with one sample
    bool finish_one(vh::Rng& r, bool any = true)
    {
        std::uint32_t ctx = 0;
        Sample* s = nullptr;
        {
            const std::lock_guard<std::mutex> l{m};
            if (queue.empty())
            {
                return false;
            }
            const auto i = any ? r.below(queue.size()) : 0;
            ctx = queue[i];
            queue.erase(queue.begin() + static_cast<std::ptrdiff_t>(i));
            s = pending.at(ctx);
            VH_CHECK(s->held.load() == 1, "released-early", "a sample is referenced ", s->held.load(), " times while the library reads it");
            pending.erase(ctx);
        }
        (*cb)(ctx);
        // slots of one element may be taken again at once, the sample is what has been let go
        VH_CHECK(s->held.load() == 0, "not-released", "a sample stays referenced after the library was done");
        vh::count("released");
        return true;
    }
};

struct World
{
    Cfg c;
    std::string json;
    Configuration conf;
    Library lib;
    std::unique_ptr<lola::tracing::TracingRuntime> low;
    std::unique_ptr<tr::TracingRuntime> top;
    std::deque<std::unique_ptr<Sample>> samples;
    std::map<std::pair<std::size_t, std::size_t>, tr::ServiceElementTracingData> data;
    std::vector<char> memory = std::vector<char>(1U << 16);
    static Cfg pick(vh::Rng& r)
    {
        auto c = random_cfg(r, 4);
        c.on = true;
        return c;
    }
    unsigned total() const
    {
        unsigned n = 0;
        for (const auto& in : c.insts)
        {
            for (const auto& s : in.slots)
            {
                n += s.second;
            }
        }
        return n;
    }
    explicit World(vh::Rng& r) : c{pick(r)}, json{text(c)}, conf{parse(json)}, lib{c} { at::TraceBackend::current() = &lib; }
    ~World() { at::TraceBackend::current() = nullptr; }
    void start()
    {
        low = std::make_unique<lola::tracing::TracingRuntime>(static_cast<std::uint16_t>(total()), conf);
        std::unordered_map<BindingType, tr::IBindingTracingRuntime*> m{{BindingType::kLoLa, low.get()}};
        top = std::make_unique<tr::TracingRuntime>(std::move(m));
    }
    tr::ServiceElementInstanceIdentifierView name(std::size_t i, std::size_t e) const
    {
        const auto& t = c.types[c.insts[i].type];
        return {{t.name, t.els[e].name, t.els[e].field ? ServiceElementType::FIELD : ServiceElementType::EVENT}, c.insts[i].spec};
    }
    tr::ServiceElementInstanceIdentifierView object(std::size_t i) const
    {
        return {{c.types[c.insts[i].type].name, lola::tracing::TracingRuntime::kDummyElementNameForShmRegisterCallback,
                 lola::tracing::TracingRuntime::kDummyElementTypeForShmRegisterCallback},
                c.insts[i].spec};
    }
    // as SkeletonEvent does when it is created
    void enrol(std::size_t i)
    {
        for (const auto& s : c.insts[i].slots)
        {
            if (s.second == 0)
            {
                continue;
            }
            const auto d = top->RegisterServiceElement(BindingType::kLoLa, static_cast<std::uint8_t>(s.second));
            VH_CHECK(d.number_of_service_element_tracing_slots == s.second, "range-size", "another number of slots");
            const std::lock_guard<std::mutex> l{lib.m};
            for (const auto& o : lib.ranges)
            {
                VH_CHECK(d.service_element_range_start >= o.second.first + o.second.second || o.second.first >= d.service_element_range_start + s.second, "range-overlap",
                         "two elements share tracing slots: ", d.service_element_range_start, "+", s.second, " and ", o.second.first, "+", o.second.second);
            }
            VH_CHECK(d.service_element_range_start + s.second <= total(), "range-end", "slots behind the last one");
            lib.ranges[{i, s.first}] = {d.service_element_range_start, s.second};
            data[{i, s.first}] = d;
        }
    }
    void offer(std::size_t i, std::deque<int> answers)
    {
        {
            const std::lock_guard<std::mutex> l{lib.m};
            lib.open_fds.insert(static_cast<int>(100 + i));
            lib.reg_answers[static_cast<int>(100 + i)] = std::move(answers);
        }
        top->RegisterShmObject(BindingType::kLoLa, object(i), static_cast<int>(100 + i), memory.data());
    }
    void withdraw(std::size_t i)
    {
        top->UnregisterShmObject(BindingType::kLoLa, object(i));
        const std::lock_guard<std::mutex> l{lib.m};
        lib.open_fds.erase(static_cast<int>(100 + i));
        for (auto h = lib.handles.begin(); h != lib.handles.end(); ++h)
        {
            if (h->second == static_cast<int>(100 + i))
            {
                VH_CHECK(lib.dead.load(), "shm-kept", "the library still holds a shared-memory object that is gone");
                lib.handles.erase(h);
                break;
            }
        }
    }
    score::Result<void> trace(std::size_t i, std::size_t e, const tr::ServiceElementTracingData& d, Sample& s, vh::Rng& r)
    {
        s.inst = i;
        s.el = e;
        s.data_id = static_cast<std::uint32_t>(r.next());
        s.offset = r.below(memory.size() - 64);
        s.size = 1 + r.below(64);
        const bool field = c.types[c.insts[i].type].els[e].field;
        const bool alloc = r.chance(50);
        tr::ITracingRuntime::TracePointType p{};
        if (field)
        {
            p = alloc ? SkeletonFieldTracePointType::UPDATE_WITH_ALLOCATE : SkeletonFieldTracePointType::UPDATE;
        }
        else
        {
            p = alloc ? SkeletonEventTracePointType::SEND_WITH_ALLOCATE : SkeletonEventTracePointType::SEND;
        }
        t_sample = &s;
        auto res = top->Trace(BindingType::kLoLa, d, name(i, e), p, s.data_id, tr::TypeErasedSamplePtr{Token{s.held}}, memory.data() + s.offset, s.size);
        t_sample = nullptr;
        return res;
    }
    score::Result<void> local(std::size_t i, std::size_t e, Sample& s, vh::Rng& r)
    {
        s.inst = i;
        s.el = e;
        s.size = r.below(100);
        const bool field = c.types[c.insts[i].type].els[e].field;
        tr::ITracingRuntime::TracePointType p{};
        if (field)
        {
            p = static_cast<ProxyFieldTracePointType>(1 + r.below(15));
        }
        else
        {
            p = static_cast<ProxyEventTracePointType>(1 + r.below(11));
        }
        t_sample = &s;
        auto res = top->Trace(BindingType::kLoLa, name(i, e), p, std::nullopt, &s, s.size);
        t_sample = nullptr;
        return res;
    }
};

// ---- one thread: every answer is known
void exact_run(vh::Rng& r)
{
    World w{r};
    w.lib.refuse_client = r.chance(4);
    w.lib.refuse_cb = r.chance(4);
    w.start();
    auto& top = *w.top;
    bool on = !w.lib.refuse_client && !w.lib.refuse_cb;
    VH_CHECK(top.IsTracingEnabled() == on, "start", "tracing is ", top.IsTracingEnabled());
    std::vector<bool> offered(w.c.insts.size(), false);
    // 0 not registered, 1 registered, 2 to be tried again, 3 given up
    std::vector<int> shm(w.c.insts.size(), 0);
    if (on)
    {
        for (std::size_t i = 0; i < w.c.insts.size(); ++i)
        {
            w.enrol(i);
        }
    }
    bool loss = false;
    const auto steps = 60 + r.below(120);
    std::size_t used = 0;
    (void)used;
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const auto i = r.below(w.c.insts.size());
        VH_CHECK(top.IsTracingEnabled() == on, "enabled", "tracing is ", top.IsTracingEnabled(), " instead of ", on);
        switch (r.below(12))
        {
            case 0:  // offer or withdraw
            case 1:
                if (!offered[i])
                {
                    std::deque<int> a;
                    if (r.chance(40))
                    {
                        a.push_back(static_cast<int>(1 + r.below(r.chance(5) ? 3 : 2)));
                        if (r.chance(50))
                        {
                            a.push_back(static_cast<int>(r.below(r.chance(5) ? 4 : 3)));
                        }
                    }
                    const int first = a.empty() ? 0 : a.front();
                    const auto before = w.lib.regs.load();
                    w.offer(i, a);
                    VH_CHECK(w.lib.regs.load() == before + (on ? 1 : 0), "shm-asked", "registration was asked ", w.lib.regs.load() - before, " times");
                    offered[i] = true;
                    if (on)
                    {
                        shm[i] = first == 0 ? 1 : (first == 1 ? 2 : 3);
                        on = first != 3;
                    }
                    vh::count(first == 0 ? "offers" : "offers_with_trouble");
                }
                else
                {
                    w.withdraw(i);
                    // samples of a service that is not offered any more are let go
                    for (const auto& s : w.c.insts[i].slots)
                    {
                        const auto d = w.data.find({i, s.first});
                        if (d != w.data.end() && s.second > 0)
                        {
                            w.low->ClearTypeErasedSamplePtrs(d->second);
                            const std::lock_guard<std::mutex> l{w.lib.m};
                            const auto rg = w.lib.ranges.at({i, s.first});
                            for (auto x = rg.first; x < rg.first + rg.second; ++x)
                            {
                                const auto p = w.lib.pending.find(x);
                                if (p != w.lib.pending.end())
                                {
                                    VH_CHECK(p->second->held.load() == 0, "not-cleared", "a sample stays referenced after its slots were cleared");
                                    w.lib.pending.erase(p);
                                    w.lib.queue.erase(std::find(w.lib.queue.begin(), w.lib.queue.end(), x));
                                    vh::count("cleared");
                                }
                            }
                        }
                    }
                    offered[i] = false;
                    shm[i] = 0;
                }
                break;
            case 2:
            case 3:
                (void)w.lib.finish_one(r);
                break;
            case 4:  // a late answer for a slot that is free
                if (w.lib.cb.has_value() && w.total() > 0)
                {
                    const auto x = static_cast<std::uint32_t>(r.below(w.total()));
                    if (w.lib.pending.count(x) == 0)
                    {
                        (*w.lib.cb)(x);
                        vh::count("late");
                    }
                }
                break;
            case 5:
                if (r.chance(20))
                {
                    top.SetDataLossFlag(BindingType::kLoLa);
                    loss = on || loss;
                }
                break;
            case 6:  // data of a proxy
            {
                if (w.c.types[w.c.insts[i].type].els.empty() || w.c.insts[i].slots.empty())
                {
                    break;
                }
                const auto e = r.below(w.c.types[w.c.insts[i].type].els.size());
                Sample s;
                s.result = r.chance(30) ? static_cast<int>(1 + r.below(r.chance(3) ? 3 : 2)) : 0;
                const auto res = w.local(i, e, s, r);
                VH_CHECK(s.reached == on, "local-reached", "the library was ", s.reached ? "" : "not ", "called");
                if (!on)
                {
                    VH_CHECK(!res.has_value() && res.error() == tr::TraceErrorCode::TraceErrorDisableAllTracePoints, "local-off", "another answer");
                    break;
                }
                VH_CHECK(s.loss == loss, "loss-bit", "data loss is reported as ", s.loss, " instead of ", loss);
                loss = s.result == 0 ? false : (s.result == 3 ? loss : true);
                if (s.result <= 1)
                {
                    VH_CHECK(res.has_value(), "local-answer", "failed");
                }
                else
                {
                    VH_CHECK(!res.has_value() && res.error() == (s.result == 3 ? tr::TraceErrorCode::TraceErrorDisableAllTracePoints : tr::TraceErrorCode::TraceErrorDisableTracePointInstance),
                             "local-answer", "another answer");
                }
                on = s.result != 3;
                break;
            }
            default:
            {
                const auto& sl = w.c.insts[i].slots;
                if (sl.empty() || w.data.empty())
                {
                    break;
                }
                auto it = sl.begin();
                std::advance(it, static_cast<std::ptrdiff_t>(r.below(sl.size())));
                if (it->second == 0)
                {
                    break;
                }
                const auto& d = w.data.at({i, it->first});
                w.samples.push_back(std::make_unique<Sample>());
                auto& s = *w.samples.back();
                s.result = r.chance(25) ? static_cast<int>(1 + r.below(r.chance(3) ? 3 : 2)) : 0;
                const auto rg = w.lib.ranges.at({i, it->first});
                unsigned busy = 0;
                for (auto x = rg.first; x < rg.first + rg.second; ++x)
                {
                    busy += w.lib.pending.count(x) != 0 ? 1U : 0U;
                }
                const auto before = w.lib.regs.load();
                // what a second registration will answer
                const auto& q = w.lib.reg_answers[static_cast<int>(100 + i)];
                const int second = q.empty() ? 0 : q.front();
                const auto res = w.trace(i, it->first, d, s, r);
                const auto asked = w.lib.regs.load() - before;
                if (!on)
                {
                    VH_CHECK(!res.has_value() && res.error() == tr::TraceErrorCode::TraceErrorDisableAllTracePoints && !s.reached && s.held.load() == 0, "off", "traced although disabled");
                    break;
                }
                VH_CHECK(asked == (shm[i] == 2 ? 1U : 0U), "shm-again", "registration was tried ", asked, " times in state ", shm[i]);
                if (shm[i] == 2)
                {
                    shm[i] = second == 0 ? 1 : (second == 3 ? 2 : 3);
                    vh::count(second == 0 ? "registered_again" : "given_up");
                    if (second == 3)
                    {
                        on = false;
                        VH_CHECK(!res.has_value() && res.error() == tr::TraceErrorCode::TraceErrorDisableAllTracePoints && s.held.load() == 0, "terminal", "another answer");
                        break;
                    }
                }
                if (shm[i] != 1)
                {
                    VH_CHECK(!res.has_value() && res.error() == tr::TraceErrorCode::TraceErrorDisableTracePointInstance && !s.reached && s.held.load() == 0, "no-object",
                             "a sample without registered object was traced");
                    vh::count("no_object");
                    break;
                }
                if (busy == rg.second)
                {
                    VH_CHECK(res.has_value() && !s.reached && s.held.load() == 0, "full", "a sample without free slot was traced");
                    loss = true;
                    vh::count("no_slot");
                    break;
                }
                VH_CHECK(s.reached, "reached", "a sample was not traced");
                VH_CHECK(s.loss == loss, "loss-bit", "data loss is reported as ", s.loss, " instead of ", loss);
                VH_CHECK(s.held.load() == (s.result == 0 ? 1 : 0), "held", "a sample is referenced ", s.held.load(), " times after answer ", s.result);
                loss = s.result == 0 ? false : (s.result == 3 ? loss : true);
                if (s.result <= 1)
                {
                    VH_CHECK(res.has_value(), "answer", "failed");
                }
                else
                {
                    VH_CHECK(!res.has_value() && res.error() == (s.result == 3 ? tr::TraceErrorCode::TraceErrorDisableAllTracePoints : tr::TraceErrorCode::TraceErrorDisableTracePointInstance),
                             "answer", "another answer");
                }
                on = s.result != 3;
                vh::count("traced");
                break;
            }
        }
        vh::eval();
    }
    vh::distinct(vh::comb(w.lib.traced.load(), w.lib.regs.load() * 100 + w.c.insts.size()));
    while (w.lib.cb.has_value() && w.lib.finish_one(r))
    {
    }
    for (const auto& s : w.samples)
    {
        VH_CHECK(s->held.load() == 0, "leak", "a sample stays referenced");
    }
    vh::count("exact_runs");
}

// ---- threads: each element belongs to one thread, as it does for a user
void threads_run(vh::Rng& r)
{
    World w{r};
    w.start();
    struct Own
    {
        std::size_t i;
        std::size_t e;
    };
    std::vector<Own> own;
    const auto shared_start = r.chance(50);
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    std::atomic<bool> stop{false};
    // elements are enrolled by threads of their own, as skeletons are created by any thread
    std::mutex dm;
    const auto n = w.c.insts.size();
    for (std::size_t i = 0; i < n; ++i)
    {
        ts.emplace_back([&w, &ready, &dm, i, n, seed = r.next(), shared_start] {
            vh::Rng q{seed};
            ready.fetch_add(1);
            while (ready.load() < static_cast<int>(n))
            {
            }
            std::vector<std::pair<std::size_t, tr::ServiceElementTracingData>> got;
            for (const auto& s : w.c.insts[i].slots)
            {
                if (s.second > 0)
                {
                    got.emplace_back(s.first, w.top->RegisterServiceElement(BindingType::kLoLa, static_cast<std::uint8_t>(s.second)));
                }
            }
            {
                const std::lock_guard<std::mutex> l{dm};
                for (const auto& g : got)
                {
                    const auto num = g.second.number_of_service_element_tracing_slots;
                    for (const auto& o : w.lib.ranges)
                    {
                        VH_CHECK(g.second.service_element_range_start >= o.second.first + o.second.second || o.second.first >= g.second.service_element_range_start + num,
                                 "range-overlap", "two elements share tracing slots");
                    }
                    w.lib.ranges[{i, g.first}] = {g.second.service_element_range_start, num};
                    w.data[{i, g.first}] = g.second;
                }
            }
            if (!shared_start)
            {
                w.offer(i, q.chance(50) ? std::deque<int>{1} : std::deque<int>{});
            }
        });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    ts.clear();
    if (shared_start)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            w.offer(i, r.chance(70) ? std::deque<int>{1} : std::deque<int>{});
        }
    }
    for (const auto& d : w.data)
    {
        own.push_back({d.first.first, d.first.second});
    }
    if (own.empty())
    {
        return;
    }
    std::vector<std::deque<std::unique_ptr<Sample>>> kept(own.size());
    std::atomic<std::size_t> begin{0};
    std::thread done{[&w, &stop, seed = r.next()] {
        vh::Rng q{seed};
        while (true)
        {
            const bool last = stop.load();
            if (!w.lib.finish_one(q))
            {
                if (last)
                {
                    break;
                }
                std::this_thread::yield();
            }
            vh::jitter(q, 10);
        }
    }};
    const auto calls = 20 + r.below(60);
    for (std::size_t o = 0; o < own.size(); ++o)
    {
        ts.emplace_back([&, o, seed = r.next()] {
            vh::Rng q{seed};
            const auto [i, e] = own[o];
            const auto d = w.data.at({i, e});
            begin.fetch_add(1);
            while (begin.load() < own.size())
            {
            }
            for (std::uint64_t k = 0; k < calls; ++k)
            {
                if (q.chance(20))
                {
                    Sample s;
                    s.result = q.chance(20) ? 1 : 0;
                    const auto res = w.local(i, e, s, q);
                    VH_CHECK(s.reached && res.has_value(), "local-answer", "failed");
                }
                else
                {
                    kept[o].push_back(std::make_unique<Sample>());
                    auto& s = *kept[o].back();
                    s.result = q.chance(15) ? 1 : 0;
                    const auto res = w.trace(i, e, d, s, q);
                    VH_CHECK(res.has_value(), "answer", "a trace call failed");
                    if (!s.reached || s.result != 0)
                    {
                        VH_CHECK(s.held.load() == 0, "held", "a sample that is not traced stays referenced");
                    }
                    vh::count(s.reached ? "traced" : "no_slot");
                }
                vh::jitter(q, 5);
            }
        });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    stop.store(true);
    done.join();
    for (const auto& k : kept)
    {
        for (const auto& s : k)
        {
            VH_CHECK(s->held.load() == 0, "leak", "a sample stays referenced");
        }
    }
    for (std::size_t i = 0; i < n; ++i)
    {
        w.withdraw(i);
    }
    vh::eval();
    vh::distinct(vh::comb(w.lib.traced.load(), w.lib.locals.load()));
    vh::count("thread_runs");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    vh::Rng r{vh::seed()};
    const auto f = vh::arg("filters", 150);
    for (std::uint64_t i = 0; i < f; ++i)
    {
        filter_run(r);
    }
    for (std::uint64_t i = 0; i < vh::arg("limits", 3); ++i)
    {
        filter_limit(r);
    }
    const auto n = vh::arg("exact", 150);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        exact_run(r);
    }
    const auto t = vh::arg("threads", 25);
    for (std::uint64_t i = 0; i < t; ++i)
    {
        threads_run(r);
    }
    vh::sample("random filter files against random configurations; samples traced, refused, released late or cleared by a monitored trace library");
    vh::finish();
}
