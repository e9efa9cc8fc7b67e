// Names and identifiers: equality, order and hash of every identifier agree with what it identifies, text forms are
// exact and can be read back, and what is no valid name is refused.
#include "vh.h"

#include "score/json/json_parser.h"
#include "score/json/json_writer.h"
#include "score/mw/com/gateway/gateway_application/configuration/gateway_configuration.h"
#include "score/mw/com/impl/binding_type.h"
#include "score/mw/com/impl/bindings/lola/element_fq_id.h"
#include "score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/methods/unique_method_identifier.h"
#include "score/mw/com/impl/bindings/lola/proxy_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/skeleton_instance_identifier.h"
#include "score/mw/com/impl/configuration/quality_type.h"
#include "score/mw/com/impl/configuration/service_instance_deployment.h"
#include "score/mw/com/impl/configuration/service_type_deployment.h"
#include "score/mw/com/impl/configuration/shm_size_calc_mode.h"
#include "score/mw/com/impl/enriched_instance_identifier.h"
#include "score/mw/com/impl/find_service_handle.h"
#include "score/mw/com/impl/handle_type.h"
#include "score/mw/com/impl/instance_identifier.h"
#include "score/mw/com/impl/instance_specifier.h"
#include "score/mw/com/impl/method_type.h"
#include "score/mw/com/impl/tracing/configuration/hash_helper_utility.h"
#include "score/mw/com/impl/tracing/configuration/service_element_identifier.h"
#include "score/mw/com/impl/tracing/configuration/service_element_identifier_view.h"
#include "score/mw/com/impl/tracing/configuration/service_element_instance_identifier_view.h"
#include "score/mw/com/impl/tracing/configuration/trace_point_key.h"

#include <forward_list>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <sstream>
#include <unordered_map>

using namespace score::mw::com::impl;
namespace
{
namespace tr = score::mw::com::impl::tracing;
using lola::ElementFqId;

bool ends(const std::function<void()>& f, const char* what)
{
    const auto c = vh::run_child([&f] {
        verif::g_contract_hook = [](const char*, int, const char*, const char*) { ::_exit(40); };
        std::set_terminate([] { ::_exit(41); });
        f();
        ::_exit(42);
    });
    vh::eval();
    vh::count("refused");
    if (c.exited && (c.code == 40 || c.code == 41))
    {
        return true;
    }
    if (c.exited && c.code == 42)
    {
        return false;
    }
    if (c.sig == SIGABRT && c.err.find("VERIF-") != std::string::npos)
    {
        return true;
    }
    (void)!::write(2, c.err.data(), c.err.size());
    vh::violation("crash", vh::str(what, " ends in code ", c.code, " signal ", c.sig));
}
#define VH_ENDS(what, ...) VH_CHECK(ends([&] { __VA_ARGS__; }, what), "accepted", what, " was accepted")

struct None
{
};
template <class T, class = void>
struct HasLess : std::false_type
{
};
template <class T>
struct HasLess<T, std::void_t<decltype(std::declval<const T&>() < std::declval<const T&>())>> : std::true_type
{
};
template <class T, class = void>
struct HasNe : std::false_type
{
};
template <class T>
struct HasNe<T, std::void_t<decltype(operator!=(std::declval<const T&>(), std::declval<const T&>()))>> : std::true_type
{
};
// What a set of values has to obey: == compares what is identified (key), < orders it, hash follows ==.
// total: < distinguishes all that == distinguishes
template <bool kHash, class T, class K>
void laws(const char* name, const std::vector<std::pair<T, K>>& v, bool total = true, bool key_order = true)
{
    const std::size_t n = v.size();
    std::set<K> keys;
    std::set<std::size_t> hashes;
    for (std::size_t i = 0; i < n; ++i)
    {
        for (std::size_t j = 0; j < n; ++j)
        {
            const auto& a = v[i].first;
            const auto& b = v[j].first;
            const bool same = v[i].second == v[j].second;
            VH_CHECK((a == b) == same, "equality", name, ": == is ", (a == b), " but should be ", same, " (", i, ",", j, ")");
            if constexpr (HasNe<T>::value)
            {
                VH_CHECK(operator!=(a, b) == !same, "inequality", name, ": != is ", !same ? "false" : "true");
            }
            if constexpr (HasLess<T>::value)
            {
                const bool lt = a < b;
                const bool gt = b < a;
                VH_CHECK(!(lt && gt), "order-both", name, ": both are less than the other");
                VH_CHECK(!same || (!lt && !gt), "order-equal", name, ": equal values are ordered");
                VH_CHECK(!total || same || lt || gt, "order-none", name, ": unequal values are not ordered");
                VH_CHECK(!key_order || lt == (v[i].second < v[j].second), "order-key", name, ": < does not follow its parts");
                for (std::size_t k = 0; k < n; ++k)
                {
                    const auto& c = v[k].first;
                    if (lt && b < c)
                    {
                        VH_CHECK(a < c, "order-transitive", name, ": a<b<c but not a<c");
                    }
                    if (!lt && !gt && !(b < c) && !(c < b))
                    {
                        VH_CHECK(!(a < c) && !(c < a), "order-weak", name, ": a~b~c but a and c are ordered");
                    }
                }
            }
            if constexpr (kHash)
            {
                VH_CHECK(!same || std::hash<T>{}(a) == std::hash<T>{}(b), "hash", name, ": equal values have different hashes");
            }
        }
        keys.insert(v[i].second);
        if constexpr (kHash)
        {
            hashes.insert(std::hash<T>{}(v[i].first));
        }
        T copy{v[i].first};
        VH_CHECK(copy == v[i].first, "copy", name, ": a copy differs");
        T moved{std::move(copy)};
        VH_CHECK(moved == v[i].first, "move", name, ": a moved value differs");
        auto other = v[(i + 1) % n].first;
        other = v[i].first;
        VH_CHECK(other == v[i].first, "assign", name, ": an assigned value differs");
        vh::eval();
        vh::count("values");
    }
    if constexpr (kHash)
    {
        // not required of a hash, but without it lookups get slow without bound
        VH_CHECK(2 * hashes.size() >= keys.size(), "hash-spread", name, ": ", hashes.size(), " hashes for ", keys.size(), " values");
        std::unordered_map<T, K> m;
        for (const auto& e : v)
        {
            m.emplace(e.first, e.second);
        }
        VH_CHECK(m.size() == keys.size(), "hash-map", name, ": a map holds ", m.size(), " of ", keys.size());
        for (const auto& e : v)
        {
            const auto it = m.find(e.first);
            VH_CHECK(it != m.end() && it->second == e.second, "hash-find", name, ": not found again");
        }
    }
    vh::distinct(vh::comb(vh::hash_str(name), keys.size()));
}

const std::string kAlpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
std::string word(vh::Rng& r, std::size_t max = 12)
{
    std::string s{kAlpha[r.below(kAlpha.size())]};
    const auto n = r.below(max);
    const std::string rest = kAlpha + "0123456789_/";
    while (s.size() < n)
    {
        const char c = rest[r.below(rest.size())];
        if (!(c == '/' && s.back() == '/'))
        {
            s += c;
        }
    }
    if (s.back() == '/')
    {
        s += 'x';
    }
    return s;
}
// few different values, many collisions, boundaries
template <class T>
T num(vh::Rng& r)
{
    switch (r.below(5))
    {
        case 0: return 0;
        case 1: return 1;
        case 2: return std::numeric_limits<T>::max();
        case 3: return static_cast<T>(T{1} << r.below(std::numeric_limits<T>::digits));
        default: return static_cast<T>(r.next());
    }
}
template <class T>
T small(vh::Rng& r)
{
    return r.chance(60) ? static_cast<T>(r.below(3)) : num<T>(r);
}
std::string hex(std::uint64_t v, int width)
{
    std::ostringstream o;
    o << std::hex;
    o.width(width);
    o.fill('0');
    o << v;
    return o.str();
}
template <class T>
T again(const T& v)  // through its text form
{
    const score::json::JsonWriter w{};
    const auto text = w.ToBuffer(v.Serialize());
    VH_NEED(text.has_value(), "ToBuffer");
    const score::json::JsonParser p{};
    auto j = p.FromBuffer(text.value());
    VH_NEED(j.has_value(), "FromBuffer");
    return T{j.value().template As<score::json::Object>().value().get()};
}
template <class T>
void refuses_version(const T& v, const char* name)
{
    auto o = v.Serialize();
    VH_CHECK(o.find("serializationVersion") != o.end(), "version", name, " has no serialization version");
    o["serializationVersion"] = score::json::Any{std::uint32_t{T::serializationVersion + 1U}};
    VH_ENDS(name, const T t{o}; (void)t);
}

// ---- versions, service types, instances
void types_run(vh::Rng& r)
{
    std::vector<std::pair<ServiceVersionType, std::pair<std::uint32_t, std::uint32_t>>> vers;
    for (int i = 0; i < 12; ++i)
    {
        const auto a = small<std::uint32_t>(r);
        const auto b = small<std::uint32_t>(r);
        auto t = make_ServiceVersionType(a, b);
        const ServiceVersionTypeView w{t};
        VH_CHECK(w.getMajor() == a && w.getMinor() == b, "version-parts", a, ".", b, " became ", w.getMajor(), ".", w.getMinor());
        VH_CHECK((t == std::make_pair(a, b)), "version-pair", "not equal to its parts");
        VH_CHECK(!(t == std::make_pair(a + 1U, b)) && !(t == std::make_pair(a, b + 1U)), "version-pair", "equal to other parts");
        VH_CHECK(again(t) == t, "version-text", "differs after its text form");
        vers.emplace_back(std::move(t), std::make_pair(a, b));
    }
    laws<false>("ServiceVersionType", vers);
    for (const auto& a : vers)
    {
        for (const auto& b : vers)
        {
            VH_CHECK((a.first.ToString() == b.first.ToString()) == (a.second == b.second), "version-string", "ToString does not follow equality");
        }
    }
    using Key = std::tuple<std::string, std::uint32_t, std::uint32_t>;
    std::vector<std::pair<ServiceIdentifierType, Key>> ids;
    std::vector<std::string> names{"/a", word(r), word(r), "/a/b", word(r, 60)};
    for (int i = 0; i < 14; ++i)
    {
        const auto n = r.pick(names);
        const auto a = small<std::uint32_t>(r);
        const auto b = small<std::uint32_t>(r);
        auto t = r.chance(20) ? make_ServiceIdentifierType(n) : make_ServiceIdentifierType(n, a, b);
        const ServiceIdentifierTypeView w{t};
        const ServiceVersionType version = w.GetVersion();
        const ServiceVersionTypeView wv{version};
        VH_CHECK(w.getInternalTypeName() == n && t.ToString() == n, "type-name", n, " became ", std::string{t.ToString()});
        VH_CHECK((wv.getMajor() == a && wv.getMinor() == b) || (wv.getMajor() == 1 && wv.getMinor() == 0), "type-version", "lost");
        VH_CHECK(again(t) == t, "type-text", "differs after its text form");
        Key k{n, wv.getMajor(), wv.getMinor()};
        ids.emplace_back(std::move(t), std::move(k));
    }
    laws<true>("ServiceIdentifierType", ids);
    for (const auto& a : ids)
    {
        for (const auto& b : ids)
        {
            VH_CHECK((a.first.ToHashString() == b.first.ToHashString()) == (a.second == b.second), "type-hash-string", "does not follow equality");
        }
    }
    std::vector<std::pair<LolaServiceInstanceId, std::uint16_t>> li;
    std::vector<std::pair<ServiceInstanceId, std::pair<int, std::uint16_t>>> si;
    for (int i = 0; i < 14; ++i)
    {
        const auto v = small<std::uint16_t>(r);
        LolaServiceInstanceId id{v};
        VH_CHECK(id.GetId() == v, "instance-id", v, " became ", id.GetId());
        VH_CHECK(id.ToHashString() == hex(v, 4), "instance-hash-string", v, " became ", std::string{id.ToHashString()});
        VH_CHECK(again(id) == id, "instance-text", "differs after its text form");
        const ServiceInstanceId s{id};
        VH_CHECK(s.ToHashString() == "0" + hex(v, 4), "instance-hash-string", v, " became ", std::string{s.ToHashString()});
        VH_CHECK(s.ToHashString().size() <= ServiceInstanceId::hashStringSize, "instance-hash-size", "too long");
        VH_CHECK(again(s) == s && again(s).ToHashString() == s.ToHashString(), "instance-text", "differs after its text form");
        VH_CHECK(GetServiceInstanceIdBinding<LolaServiceInstanceId>(s).GetId() == v, "instance-binding", "lost");
        li.emplace_back(std::move(id), v);
        si.emplace_back(s, std::make_pair(1, v));
    }
    const ServiceInstanceId blank{score::cpp::blank{}};
    VH_CHECK(blank.ToHashString() == "1", "instance-hash-string", "blank became ", std::string{blank.ToHashString()});
    si.emplace_back(blank, std::make_pair(0, 0));
    laws<false>("LolaServiceInstanceId", li);
    laws<false>("ServiceInstanceId", si, true, false);
    std::vector<std::pair<ServiceTypeDeployment, std::uint32_t>> td;
    for (int i = 0; i < 8; ++i)
    {
        const auto v = small<std::uint16_t>(r);
        ServiceTypeDeployment d{LolaServiceTypeDeployment{v, {}, {}, {}}};
        VH_CHECK(d.ToHashString() == "0" + hex(v, 4), "service-hash-string", v, " became ", std::string{d.ToHashString()});
        VH_CHECK(again(d) == d, "service-text", "differs after its text form");
        td.emplace_back(std::move(d), v);
    }
    td.emplace_back(ServiceTypeDeployment{score::cpp::blank{}}, 0x10000U);
    VH_CHECK(td.back().first.ToHashString() == "1", "service-hash-string", "blank");
    laws<false>("ServiceTypeDeployment", td);
    if (r.chance(10))
    {
        refuses_version(li[0].first, "LolaServiceInstanceId of another version");
        refuses_version(si[0].first, "ServiceInstanceId of another version");
        refuses_version(td[0].first, "ServiceTypeDeployment of another version");
        VH_ENDS("the LoLa id of a blank instance", (void)GetServiceInstanceIdBinding<LolaServiceInstanceId>(blank));
        for (const char* key : {"serializationVersion"})
        {
            auto a = vers[0].first.Serialize();
            a[key] = score::json::Any{std::uint32_t{2}};
            VH_ENDS("ServiceVersionType of another version", const ServiceVersionType t{a}; (void)t);
            auto b = ids[0].first.Serialize();
            b[key] = score::json::Any{std::uint32_t{2}};
            VH_ENDS("ServiceIdentifierType of another version", const ServiceIdentifierType t{b}; (void)t);
        }
    }
}

// ---- instance specifiers
bool is_valid(const std::string& s)
{
    if (s.empty() || s.back() == '/')
    {
        return false;
    }
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        const char c = s[i];
        const bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '/';
        if (!letter && !(i > 0 && c >= '0' && c <= '9'))
        {
            return false;
        }
        if (i > 0 && c == '/' && s[i - 1] == '/')
        {
            return false;
        }
    }
    return true;
}
void specifier_run(vh::Rng& r)
{
    std::vector<std::pair<InstanceSpecifier, std::string>> v;
    for (int i = 0; i < 60; ++i)
    {
        auto s = r.chance(50) ? word(r, r.chance(10) ? 300 : 6) : std::string{};
        const auto edits = r.below(3);
        for (std::uint64_t e = 0; e < edits; ++e)
        {
            static const std::string odd{"/_019azAZ@[`{ -.:\\\x80\xc3\xff\0\n/", 25};
            const char c = r.chance(80) ? odd[r.below(odd.size())] : static_cast<char>(r.below(256));
            switch (r.below(4))
            {
                case 0: s.insert(s.begin() + static_cast<std::ptrdiff_t>(r.below(s.size() + 1)), c); break;
                case 1: s += c; break;
                case 2: s.insert(s.begin(), c); break;
                default:
                    if (!s.empty())
                    {
                        s[r.below(s.size())] = c;
                    }
            }
        }
        const bool ok = is_valid(s);
        auto x = InstanceSpecifier::Create(std::string{s});
        VH_CHECK(x.has_value() == ok, "specifier", "'", vh::esc(s), "' is ", ok ? "refused" : "accepted");
        vh::count(ok ? "names_accepted" : "names_refused");
        vh::eval();
        vh::distinct(vh::hash_str(s.substr(0, 3)) ^ s.size());
        if (!ok)
        {
            continue;
        }
        VH_CHECK(x.value().ToString() == s, "specifier-text", "'", s, "' became '", std::string{x.value().ToString()}, "'");
        if (v.size() < 14)
        {
            v.emplace_back(x.value(), s);
        }
    }
    if (v.size() < 2)
    {
        return;
    }
    laws<true>("InstanceSpecifier", v);
    for (const auto& a : v)
    {
        for (const auto& b : v)
        {
            const std::string_view t{b.second};
            const bool same = a.second == b.second;
            VH_CHECK((a.first == t) == same && (t == a.first) == same && (a.first != t) == !same && (t != a.first) == !same, "specifier-view",
                     "comparison of '", a.second, "' with text '", b.second, "'");
        }
    }
}

// ---- identifiers and handles of service instances
struct Dep
{
    std::unique_ptr<ServiceInstanceDeployment> d;
    std::size_t type{0};
    std::string spec;
    int kind{0};
    std::optional<std::uint16_t> id;
    QualityType asil{};
    bool strict{false};
};
void instances_run(vh::Rng& r)
{
    struct Ty
    {
        ServiceIdentifierType ident;
        ServiceTypeDeployment dep;
        std::uint16_t id;
    };
    std::vector<std::unique_ptr<Ty>> types;
    for (int i = 0; i < 3; ++i)
    {
        const auto id = small<std::uint16_t>(r);
        types.push_back(std::make_unique<Ty>(Ty{make_ServiceIdentifierType(i == 2 ? "/t1" : vh::str("/t", i), static_cast<std::uint32_t>(i == 2 ? 2 : 1), 0),
                                                ServiceTypeDeployment{LolaServiceTypeDeployment{id, {}, {}, {}}}, id}));
    }
    std::vector<Dep> deps;
    for (int i = 0; i < 12; ++i)
    {
        Dep d;
        d.type = r.below(types.size());
        d.spec = r.chance(70) ? "/one" : vh::str("/s", i);
        d.asil = r.chance(50) ? QualityType::kASIL_B : QualityType::kASIL_QM;
        d.strict = r.chance(40);
        if (r.chance(80))
        {
            d.id = static_cast<std::uint16_t>(r.chance(70) ? r.below(2) : r.next());
        }
        LolaServiceInstanceDeployment::EventInstanceMapping ev;
        d.kind = r.chance(50) ? static_cast<int>(r.below(3)) : 0;
        for (int e = 0; e < d.kind; ++e)
        {
            ev.emplace(vh::str("e", e), LolaEventInstanceDeployment{std::uint16_t{4}, std::uint8_t{2}, std::uint8_t{1}, true, 0});
        }
        const auto id = d.id ? std::optional<LolaServiceInstanceId>{LolaServiceInstanceId{*d.id}} : std::nullopt;
        d.d = std::make_unique<ServiceInstanceDeployment>(types[d.type]->ident, LolaServiceInstanceDeployment{id, ev, {}, {}, d.strict}, d.asil,
                                                          InstanceSpecifier::Create(std::string{d.spec}).value());
        deps.push_back(std::move(d));
    }
    // what is identified: service type, binding data, quality
    using Key = std::tuple<std::string, std::uint32_t, int, std::uint32_t, int, bool, int>;
    const auto key = [&](const Dep& d) {
        return Key{std::string{types[d.type]->ident.ToString()}, d.type == 2 ? 2U : 1U, d.id ? 1 : 0, d.id.value_or(0), d.kind, d.strict, static_cast<int>(d.asil)};
    };
    std::vector<std::pair<InstanceIdentifier, Key>> ids;
    for (const auto& d : deps)
    {
        ids.emplace_back(make_InstanceIdentifier(*d.d, types[d.type]->dep), key(d));
        const InstanceIdentifierView w{ids.back().first};
        VH_CHECK(&w.GetServiceInstanceDeployment() == d.d.get() && &w.GetServiceTypeDeployment() == &types[d.type]->dep, "identifier-parts", "lost");
        const auto i = w.GetServiceInstanceId();
        VH_CHECK(i.has_value() == d.id.has_value() && (!i || GetServiceInstanceIdBinding<LolaServiceInstanceId>(*i).GetId() == *d.id), "identifier-id", "lost");
    }
    laws<false>("InstanceIdentifier", ids, false, false);
    for (std::size_t i = 0; i < ids.size(); ++i)
    {
        for (std::size_t j = 0; j < ids.size(); ++j)
        {
            const auto& a = ids[i].first;
            const auto& b = ids[j].first;
            const bool text = a.ToString() == b.ToString();
            VH_CHECK(text == (a == b && deps[i].spec == deps[j].spec), "identifier-string", "ToString does not follow what is identified");
            if (text)
            {
                VH_CHECK(std::hash<InstanceIdentifier>{}(a) == std::hash<InstanceIdentifier>{}(b), "identifier-hash-text", "one text, two hashes");
            }
            else if (a == b)
            {
                vh::count("same_instance_two_names");
            }
            const bool compatible = deps[i].asil == deps[j].asil && deps[i].id == deps[j].id;
            const bool any = deps[i].asil == deps[j].asil && (!deps[i].id || !deps[j].id);
            const bool said = InstanceIdentifierView{a}.isCompatibleWith(b);
            VH_CHECK(said == InstanceIdentifierView{a}.isCompatibleWith(InstanceIdentifierView{b}), "compatible-view", "two answers");
            VH_CHECK(said == InstanceIdentifierView{b}.isCompatibleWith(a), "compatible-symmetric", "two answers");
            VH_CHECK(said == (compatible || any), "compatible", "compatible is ", said, " ids ", deps[i].id.value_or(99), " ", deps[j].id.value_or(99));
        }
    }
    using HKey = std::pair<Key, std::uint32_t>;
    std::vector<std::pair<HandleType, HKey>> hs;
    for (std::size_t i = 0; i < ids.size(); ++i)
    {
        const std::uint16_t id = deps[i].id.value_or(static_cast<std::uint16_t>(r.below(3)));
        auto h = deps[i].id && r.chance(80) ? make_HandleType(ids[i].first) : make_HandleType(ids[i].first, ServiceInstanceId{LolaServiceInstanceId{id}});
        VH_CHECK(GetServiceInstanceIdBinding<LolaServiceInstanceId>(h.GetInstanceId()).GetId() == id, "handle-id", "lost");
        VH_CHECK(h.GetInstanceIdentifier() == ids[i].first && &h.GetServiceInstanceDeployment() == deps[i].d.get() &&
                     &h.GetServiceTypeDeployment() == &types[deps[i].type]->dep,
                 "handle-parts", "lost");
        const EnrichedInstanceIdentifier e{h};
        VH_CHECK(e.GetBindingSpecificInstanceId<LolaServiceInstanceId>() == std::optional<std::uint16_t>{id}, "enriched-id", "lost");
        VH_CHECK(e.GetBindingSpecificServiceId<LolaServiceTypeDeployment>() == std::optional<std::uint16_t>{types[deps[i].type]->id}, "enriched-service", "lost");
        VH_CHECK(e.GetQualityType() == deps[i].asil && e.GetInstanceIdentifier() == ids[i].first, "enriched-parts", "lost");
        const EnrichedInstanceIdentifier q{e, QualityType::kASIL_QM};
        VH_CHECK(q.GetQualityType() == QualityType::kASIL_QM && q.GetInstanceId() == e.GetInstanceId() && (q == e) == (deps[i].asil == QualityType::kASIL_QM),
                 "enriched-quality", "not replaced");
        const EnrichedInstanceIdentifier plain{ids[i].first};
        VH_CHECK(plain.GetInstanceId().has_value() == deps[i].id.has_value(), "enriched-plain", "id");
        if (r.chance(3))
        {
            if (!deps[i].id)
            {
                VH_ENDS("a handle without any instance id", (void)make_HandleType(ids[i].first));
                const EnrichedInstanceIdentifier with{ids[i].first, ServiceInstanceId{LolaServiceInstanceId{id}}};
                VH_CHECK(with == e, "enriched-with", "differs from that of the handle");
            }
            else
            {
                VH_ENDS("a second instance id", const EnrichedInstanceIdentifier x{ids[i].first, ServiceInstanceId{LolaServiceInstanceId{id}}}; (void)x);
            }
        }
        hs.emplace_back(std::move(h), HKey{ids[i].second, id});
    }
    // the hash of a handle covers ids only, so handles of one service and instance share it
    laws<false>("HandleType", hs, false, false);
    std::set<std::size_t> hash;
    std::set<std::pair<std::uint16_t, std::uint32_t>> idpairs;
    for (std::size_t i = 0; i < hs.size(); ++i)
    {
        for (std::size_t j = 0; j < hs.size(); ++j)
        {
            const bool h = std::hash<HandleType>{}(hs[i].first) == std::hash<HandleType>{}(hs[j].first);
            VH_CHECK(h || !(hs[i].first == hs[j].first), "hash", "equal handles have different hashes");
        }
        hash.insert(std::hash<HandleType>{}(hs[i].first));
        idpairs.insert({types[deps[i].type]->id, hs[i].second.second});
    }
    VH_CHECK(2 * hash.size() >= idpairs.size(), "hash-spread", "HandleType");
    std::set<HandleType> sorted;
    for (const auto& h : hs)
    {
        (void)sorted.insert(h.first);
    }
    for (const auto& h : hs)
    {
        VH_CHECK(sorted.count(h.first) == 1, "ordered-set", "a handle is not found again");
    }
    std::vector<std::pair<FindServiceHandle, std::size_t>> fs;
    for (int i = 0; i < 10; ++i)
    {
        const auto u = small<std::size_t>(r);
        fs.emplace_back(make_FindServiceHandle(u), u);
        VH_CHECK(FindServiceHandleView{fs.back().first}.getUid() == u, "search-uid", "lost");
    }
    laws<true>("FindServiceHandle", fs);
    vh::count("instances_runs");
}

// ---- ids inside the LoLa binding
void lola_run(vh::Rng& r)
{
    using EK = std::tuple<std::uint16_t, std::uint16_t, std::uint16_t>;
    std::vector<std::pair<ElementFqId, EK>> es;
    std::map<std::string, ElementFqId> texts;
    for (int i = 0; i < 14; ++i)
    {
        const auto s = small<std::uint16_t>(r);
        const auto e = small<std::uint16_t>(r);
        const auto n = small<std::uint16_t>(r);
        const auto t = static_cast<std::uint8_t>(r.below(3));
        const ElementFqId id{s, e, n, t};
        const ElementFqId twin{s, e, n, static_cast<ServiceElementType>(t)};
        VH_CHECK(id.service_id_ == s && id.element_id_ == e && id.instance_id_ == n && id.element_type_ == twin.element_type_, "element-parts", "lost");
        VH_CHECK(lola::IsElementEvent(id) == (t == 1) && lola::IsElementField(id) == (t == 2), "element-kind", "kind ", int{t});
        VH_CHECK(id.ToString() == vh::str("ElementFqId{S:", s, ", E:", e, ", I:", n, ", T:", int{t}, "}"), "element-text", id.ToString());
        es.emplace_back(id, EK{s, n, e});
    }
    laws<true>("ElementFqId", es);
    using PK = std::pair<std::uint32_t, std::uint16_t>;
    std::vector<std::pair<lola::ProxyInstanceIdentifier, PK>> ps;
    std::vector<std::pair<lola::SkeletonInstanceIdentifier, PK>> ss;
    std::vector<std::pair<lola::UniqueMethodIdentifier, PK>> us;
    std::vector<std::pair<lola::ProxyMethodInstanceIdentifier, std::pair<PK, PK>>> ms;
    for (int i = 0; i < 16; ++i)
    {
        const auto a = small<std::uint32_t>(r);
        const auto c = small<std::uint16_t>(r);
        ps.emplace_back(lola::ProxyInstanceIdentifier{a, c}, PK{a, c});
        const auto s = small<std::uint16_t>(r);
        ss.emplace_back(lola::SkeletonInstanceIdentifier{s, c}, PK{s, c});
        const auto m = static_cast<std::uint16_t>(r.below(4));
        us.emplace_back(lola::UniqueMethodIdentifier{s, static_cast<MethodType>(m)}, PK{s, m});
        const auto& p = ps[r.below(ps.size())];
        const auto& u = us[r.below(us.size())];
        ms.emplace_back(lola::ProxyMethodInstanceIdentifier{p.first, u.first}, std::make_pair(p.second, u.second));
    }
    laws<true>("ProxyInstanceIdentifier", ps);
    laws<true>("SkeletonInstanceIdentifier", ss);
    laws<true>("UniqueMethodIdentifier", us);
    laws<true>("ProxyMethodInstanceIdentifier", ms);
    if (r.chance(5))
    {
        const auto t = static_cast<std::uint8_t>(3 + r.below(253));
        VH_ENDS("an element of a kind that does not exist", const ElementFqId x(1, 1, 1, t); (void)x);
    }
}

// ---- keys of tracing
void tracing_run(vh::Rng& r)
{
    std::vector<std::string> names{"", "a", "ab", "b", word(r), word(r, 100)};
    using SK = std::tuple<std::string, std::string, int>;
    std::vector<std::pair<tr::ServiceElementIdentifier, SK>> own;
    std::vector<std::pair<tr::ServiceElementIdentifierView, SK>> view;
    std::vector<std::pair<tr::ServiceElementInstanceIdentifierView, std::pair<SK, std::string>>> inst;
    std::vector<std::pair<tr::TracePointKey, std::pair<SK, int>>> key;
    std::list<std::string> keep;  // equal texts at different places
    const auto stored = [&keep](const std::string& s) -> std::string_view { return keep.emplace_back(s.c_str(), s.size()); };
    for (int i = 0; i < 14; ++i)
    {
        const auto a = r.pick(names);
        const auto b = r.pick(names);
        const auto c = r.pick(names);
        const auto t = static_cast<int>(r.below(4));
        const auto p = static_cast<int>(small<std::uint8_t>(r));
        const auto et = static_cast<ServiceElementType>(t);
        own.emplace_back(tr::ServiceElementIdentifier{a, b, et}, SK{a, b, t});
        const tr::ServiceElementIdentifierView v{stored(a), stored(b), et};
        view.emplace_back(v, SK{a, b, t});
        inst.emplace_back(tr::ServiceElementInstanceIdentifierView{v, stored(c)}, std::make_pair(SK{a, b, t}, c));
        key.emplace_back(tr::TracePointKey{v, static_cast<std::uint8_t>(p)}, std::make_pair(SK{a, b, t}, p));
        VH_CHECK(std::hash<tr::ServiceElementIdentifier>{}(own.back().first) == std::hash<tr::ServiceElementIdentifierView>{}(v), "trace-hash",
                 "owner and view have different hashes");
    }
    laws<true>("ServiceElementIdentifier", own);
    laws<true>("ServiceElementIdentifierView", view);
    laws<true>("ServiceElementInstanceIdentifierView", inst);
    laws<true>("TracePointKey", key);
    if (r.chance(15))
    {
        // 1024 bytes are the limit, kind included
        const auto first = r.below(1024);
        for (const int over : {0, 1, static_cast<int>(1 + r.below(3000))})
        {
            const std::string a(first, 'a');
            const std::string b(1023 - first + static_cast<std::size_t>(over), 'b');
            const tr::ServiceElementIdentifierView v{a, b, ServiceElementType::EVENT};
            const tr::ServiceElementIdentifier o{a, b, ServiceElementType::EVENT};
            if (over == 0)
            {
                (void)std::hash<tr::ServiceElementIdentifierView>{}(v);
                (void)std::hash<tr::ServiceElementIdentifier>{}(o);
                (void)std::hash<tr::ServiceElementInstanceIdentifierView>{}({v, ""});
                const std::string_view shorter{b.data(), b.size() - (b.empty() ? 0 : 1)};
                if (!b.empty())
                {
                    (void)std::hash<tr::TracePointKey>{}({{a, shorter, ServiceElementType::EVENT}, 1});
                }
            }
            else
            {
                VH_ENDS("a traced element with too long names", (void)std::hash<tr::ServiceElementIdentifierView>{}(v));
                VH_ENDS("a traced element with too long names", (void)std::hash<tr::ServiceElementIdentifier>{}(o));
                const std::string_view cut{b.data(), b.size() - static_cast<std::size_t>(over)};
                VH_ENDS("a traced instance with too long names",
                        (void)std::hash<tr::ServiceElementInstanceIdentifierView>{}({{a, cut, ServiceElementType::EVENT}, std::string_view{b}.substr(0, static_cast<std::size_t>(over) < b.size() ? static_cast<std::size_t>(over) : b.size())}));
                VH_ENDS("a trace point with too long names", (void)std::hash<tr::TracePointKey>{}({{a, b, ServiceElementType::EVENT}, 1}));
            }
        }
    }
}

// ---- sums with overflow
template <class T, class C>
void sum_one(vh::Rng& r)
{
    C in;
    std::vector<T> plain;
    const auto n = r.below(9);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        plain.push_back(r.chance(50) ? static_cast<T>(r.below(50)) : num<T>(r));
    }
    in = C(plain.begin(), plain.end());
    const T init = r.chance(50) ? T{0} : num<T>(r);
    unsigned __int128 sum = init;
    bool over = false;
    for (const T x : plain)
    {
        if (sum + x > std::numeric_limits<T>::max())
        {
            over = true;
            break;
        }
        sum += x;
    }
    const auto got = tr::configuration::Accumulate(in.begin(), in.end(), init);
    VH_CHECK(got.second == over, "sum-overflow", "overflow is ", got.second, " instead of ", over);
    VH_CHECK(over || got.first == static_cast<T>(sum), "sum", static_cast<std::uint64_t>(got.first), " instead of ", static_cast<std::uint64_t>(sum));
    static_assert(std::is_same_v<decltype(got.first), const T> || std::is_same_v<decltype(got.first), T>);
    vh::count(over ? "overflows" : "sums");
    vh::eval();
    vh::distinct(vh::comb(sizeof(T) * 100 + n, over));
}
void sums_run(vh::Rng& r)
{
    for (int i = 0; i < 30; ++i)
    {
        sum_one<std::uint64_t, std::vector<std::uint64_t>>(r);
        sum_one<std::uint32_t, std::forward_list<std::uint32_t>>(r);
        sum_one<std::size_t, std::list<std::size_t>>(r);
    }
}

// ---- texts of enumerations
template <class T>
std::string printed(T v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
void enums_run(vh::Rng& r)
{
    const std::vector<std::tuple<QualityType, std::string, std::string>> q{
        {QualityType::kInvalid, "kInvalid", "Invalid"}, {QualityType::kASIL_QM, "kASIL_QM", "QM"}, {QualityType::kASIL_B, "kASIL_B", "B"}};
    for (const auto& [v, text, print] : q)
    {
        VH_CHECK(ToString(v) == text && FromString(text) == v, "quality-text", text);
        VH_CHECK(printed(v) == print, "quality-print", printed(v), " instead of ", print);
        for (const auto& e : q)
        {
            VH_CHECK(areCompatible(v, std::get<0>(e)) == (v == std::get<0>(e)), "quality-compatible", text);
        }
    }
    int unknown = 0;
    do
    {
        unknown = static_cast<int>(r.below(256));
    } while (unknown == static_cast<int>(QualityType::kInvalid) || unknown == static_cast<int>(QualityType::kASIL_QM) ||
             unknown == static_cast<int>(QualityType::kASIL_B));
    VH_CHECK(printed(static_cast<QualityType>(unknown)) == "(unknown)", "quality-print", "unknown");
    VH_CHECK(printed(ShmSizeCalculationMode::kSimulation) == "SIMULATION" && printed(ShmSizeCalculationMode::kAnalysis) == "ANALYSIS", "mode-print", "mode");
    int other = 0;
    do
    {
        other = static_cast<int>(r.below(256));
    } while (other == static_cast<int>(ShmSizeCalculationMode::kSimulation) || other == static_cast<int>(ShmSizeCalculationMode::kAnalysis));
    VH_CHECK(printed(static_cast<ShmSizeCalculationMode>(other)) == "(unknown)", "mode-print", "unknown");
    VH_CHECK(to_string(MethodType::kMethod) == "Method" && to_string(MethodType::kGet) == "Get" && to_string(MethodType::kSet) == "Set" &&
                 to_string(MethodType::kUnknown) == "Unknown" && to_string(static_cast<MethodType>(4 + r.below(250))) == "Invalid",
             "method-text", "method type");
    if (r.chance(10))
    {
        VH_ENDS("a quality that does not exist", (void)ToString(static_cast<QualityType>(unknown)));
        auto bad = r.pick(q);
        auto text = std::get<1>(bad);
        switch (r.below(4))
        {
            case 0: text += "x"; break;
            case 1: text.pop_back(); break;
            case 2: text[1] = static_cast<char>(text[1] ^ 0x20); break;
            default: text = std::get<2>(bad);
        }
        VH_ENDS("the name of a quality that does not exist", (void)FromString(text));
    }
    // these go over process boundaries and into the text form of identifiers
    VH_CHECK(static_cast<int>(BindingType::kLoLa) == 0 && static_cast<int>(BindingType::kFake) == 1 && static_cast<int>(BindingType::kSomeIp) == 2, "binding-value", "renumbered");
    VH_CHECK(static_cast<int>(ServiceElementType::INVALID) == 0 && static_cast<int>(ServiceElementType::EVENT) == 1 && static_cast<int>(ServiceElementType::FIELD) == 2 &&
                 static_cast<int>(ServiceElementType::METHOD) == 3,
             "element-value", "renumbered");
    // a gateway configuration holds what it was given
    const auto list = [&r] {
        std::vector<std::string> l(r.below(5));
        for (auto& s : l)
        {
            s = word(r, 40);
        }
        return l;
    };
    const auto f = list();
    const auto g = list();
    const auto id = word(r, 40);
    const auto path = word(r, 100);
    const score::mw::com::gateway::GatewayConfiguration c{f, g, id, path};
    const auto d{c};
    VH_CHECK(d.GetForwardedServices() == f && d.GetReceivedServices() == g && d.GetTransportLayerId() == id && d.GetTransportConfigPath() == path, "gateway", "a value got lost");
    vh::eval();
    vh::count("texts");
}

// Identifiers of one service instance that was configured under two names are equal, but their hashes differ.
void finding()
{
    const ServiceTypeDeployment t{LolaServiceTypeDeployment{1, {}, {}, {}}};
    const auto ident = make_ServiceIdentifierType("/t", 1, 0);
    const auto dep = [&](const char* name) {
        return ServiceInstanceDeployment{ident, LolaServiceInstanceDeployment{LolaServiceInstanceId{7}}, QualityType::kASIL_QM,
                                         InstanceSpecifier::Create(std::string{name}).value()};
    };
    const auto a = dep("/one");
    const auto b = dep("/two");
    const auto x = make_InstanceIdentifier(a, t);
    const auto y = make_InstanceIdentifier(b, t);
    VH_CHECK(!(x == y) || std::hash<InstanceIdentifier>{}(x) == std::hash<InstanceIdentifier>{}(y), "identifier-hash",
             "two InstanceIdentifiers of one service instance under two instance specifiers are equal but have different hashes");
    vh::eval();
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    if (vh::arg("finding", 0) != 0)
    {
        finding();
        vh::finish();
    }
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 250);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        types_run(r);
        specifier_run(r);
        instances_run(r);
        lola_run(r);
        tracing_run(r);
        sums_run(r);
        enums_run(r);
    }
    vh::sample("random identifiers with few distinct parts, all pairs and triples compared; random names; text forms read back");
    vh::finish();
}
