#include "com_util.h"
using namespace cu;
template <typename T>
class If : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Event<Sample> ev{*this, "ev"};
    typename T::template Field<std::uint64_t, com::WithGetter, com::WithSetter, com::WithNotifier> fd{*this, "fd"};
    typename T::template Method<std::uint64_t(std::uint64_t, std::uint32_t)> me{*this, "me"};
};
using Sk = com::AsSkeleton<If>;
using Px = com::AsProxy<If>;
const char* cfg = R"({
"serviceTypes":[{"serviceTypeName":"/s/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":42,
 "events":[{"eventName":"ev","eventId":1}],"fields":[{"fieldName":"fd","fieldId":2}],"methods":[{"methodName":"me","methodId":3}]}]}],
"serviceInstances":[{"instanceSpecifier":"s/inst","serviceTypeName":"/s/If","version":{"major":1,"minor":0},"instances":[{"instanceId":7,"asil-level":"QM","binding":"SHM",
 "events":[{"eventName":"ev","numberOfSampleSlots":10,"maxSubscribers":3}],"fields":[{"fieldName":"fd","numberOfSampleSlots":5,"maxSubscribers":3,"useGetIfAvailable":true,"useSetIfAvailable":true}],
 "methods":[{"methodName":"me","queueSize":1}]}]}],
"global":{"asil-level":"QM"}})";
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::scratch();
    const std::string p = vh::scratch() + "/cfg.json";
    write_file(p, cfg);
    auto* ready = vh::shared<std::atomic<int>>();
    pid_t prov = fork();
    if (prov == 0)
    {
        com::runtime::InitializeRuntime(com::runtime::RuntimeConfiguration{p});
        auto r = Sk::Create(spec("s/inst"));
        if (!r.has_value()) { std::fprintf(stderr, "create fail\n"); _exit(1); }
        auto sk = std::move(r).value();
        sk.fd.Update(5);
        (void)sk.me.RegisterHandler([](std::uint64_t& r, const std::uint64_t& a, const std::uint32_t& b) { r = a + b; });
        (void)sk.fd.RegisterSetHandler([](std::uint64_t& v) { v += 1; });
        auto o = sk.OfferService();
        if (!o.has_value()) { std::fprintf(stderr, "offer fail %s\n", std::string(o.error().Message()).c_str()); _exit(1); }
        *ready = 1;
        while (*ready == 1) usleep(1000);
        for (int i = 1; i <= 5; ++i) { auto s = sk.ev.Allocate(); fill(*s.value(), i); (void)sk.ev.Send(std::move(s).value()); }
        *ready = 3;
        while (*ready != 4) usleep(1000);
        sk.StopOfferService();
        _exit(0);
    }
    com::runtime::InitializeRuntime(com::runtime::RuntimeConfiguration{p});
    while (*ready != 1) { usleep(1000); if (waitpid(prov, nullptr, WNOHANG) != 0) { std::fprintf(stderr, "provider died\n"); return 1; } }
    auto h = Px::FindService(spec("s/inst"));
    std::fprintf(stderr, "found %zu\n", h.has_value() ? h.value().size() : 999);
    auto px = Px::Create(h.value().front());
    if (!px.has_value()) { std::fprintf(stderr, "proxy fail %s\n", std::string(px.error().Message()).c_str()); return 1; }
    auto x = std::move(px).value();
    (void)x.ev.Subscribe(4);
    (void)x.fd.Subscribe(2);
    *ready = 2;
    while (*ready != 3) usleep(1000);
    auto n = x.ev.GetNewSamples([](auto s) { std::fprintf(stderr, "got %llu %d\n", (unsigned long long)s->id, intact(*s)); }, 4);
    std::fprintf(stderr, "n=%zu\n", n.value());
    auto f = x.fd.GetNewSamples([](auto s) { std::fprintf(stderr, "field %llu\n", (unsigned long long)*s); }, 2);
    auto m = x.me(3, 4);
    std::fprintf(stderr, "method %d %llu\n", m.has_value(), m.has_value() ? (unsigned long long)*m.value() : 0);
    auto g = x.fd.Get();
    std::fprintf(stderr, "get %d %llu\n", g.has_value(), g.has_value() ? (unsigned long long)*g.value() : 0);
    auto s2 = x.fd.Set(77);
    std::fprintf(stderr, "set %d %llu\n", s2.has_value(), s2.has_value() ? (unsigned long long)*s2.value() : 0);
    *ready = 4;
    int st = 0;
    waitpid(prov, &st, 0);
    std::fprintf(stderr, "prov st %d\n", st);
    vh::finish();
}
