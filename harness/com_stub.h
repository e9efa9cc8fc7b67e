// A runtime without a process around it: messaging is recorded, nothing is sent.
#ifndef COM_STUB_H
#define COM_STUB_H
#include "vh.h"
#include "score/mw/com/impl/bindings/lola/i_runtime.h"
#include "score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.h"
#include "score/mw/com/impl/bindings/lola/rollback_synchronization.h"
#include "score/mw/com/impl/i_runtime.h"
#include "score/mw/com/impl/runtime.h"
#include <map>
#include <mutex>
#include <optional>
#include <vector>
#include <unistd.h>
namespace cs
{
namespace im = score::mw::com::impl;
namespace lo = score::mw::com::impl::lola;
struct Messaging final : lo::IMessagePassingService
{
    struct Reg
    {
        im::QualityType asil;
        lo::ElementFqId id;
        std::weak_ptr<im::ScopedEventReceiveHandler> handler;
        pid_t pid;
    };
    struct Outdated
    {
        im::QualityType asil;
        pid_t old_pid;
        pid_t target;
    };
    std::mutex m;
    std::map<HandlerRegistrationNoType, Reg> regs;
    std::vector<Outdated> outdated;
    HandlerRegistrationNoType next{7};
    std::uint64_t registers{0}, unregisters{0}, reregisters{0}, errors{0};

    void NotifyEvent(const im::QualityType, const lo::ElementFqId) noexcept override {}
    HandlerRegistrationNoType RegisterEventNotification(const im::QualityType a, const lo::ElementFqId e, std::weak_ptr<im::ScopedEventReceiveHandler> c,
                                                        const pid_t p) noexcept override
    {
        const std::lock_guard<std::mutex> l{m};
        ++registers;
        regs.emplace(next, Reg{a, e, std::move(c), p});
        return next++;
    }
    void ReregisterEventNotification(const im::QualityType a, const lo::ElementFqId e, const pid_t p) noexcept override
    {
        const std::lock_guard<std::mutex> l{m};
        ++reregisters;
        bool found = false;
        for (auto& r : regs)
        {
            if (r.second.asil == a && r.second.id == e)
            {
                r.second.pid = p;
                found = true;
            }
        }
        errors += found ? 0U : 1U;
    }
    void UnregisterEventNotification(const im::QualityType a, const lo::ElementFqId e, const HandlerRegistrationNoType n, const pid_t) noexcept override
    {
        const std::lock_guard<std::mutex> l{m};
        ++unregisters;
        const auto it = regs.find(n);
        if (it == regs.end() || it->second.asil != a || !(it->second.id == e))
        {
            ++errors;
            return;
        }
        regs.erase(it);
    }
    score::Result<lo::MethodSubscriptionRegistrationGuard> RegisterOnServiceMethodSubscribedHandler(const im::QualityType, const lo::SkeletonInstanceIdentifier,
                                                                                                    ServiceMethodSubscribedHandler, AllowedConsumerUids) override
    {
        vh::inconclusive("stub: not used");
    }
    score::Result<lo::MethodUnsubscriptionRegistrationGuard> RegisterOnServiceMethodUnsubscribedHandler(const im::QualityType, const lo::SkeletonInstanceIdentifier,
                                                                                                        ServiceMethodUnsubscribedHandler) override
    {
        vh::inconclusive("stub: not used");
    }
    score::Result<lo::MethodCallRegistrationGuard> RegisterMethodCallHandler(const im::QualityType, const lo::ProxyMethodInstanceIdentifier, MethodCallHandler,
                                                                             const uid_t) override
    {
        vh::inconclusive("stub: not used");
    }
    void NotifyOutdatedNodeId(const im::QualityType a, const pid_t o, const pid_t t) noexcept override
    {
        const std::lock_guard<std::mutex> l{m};
        outdated.push_back({a, o, t});
    }
    void RegisterEventNotificationExistenceChangedCallback(const im::QualityType, const lo::ElementFqId, HandlerStatusChangeCallback) noexcept override {}
    void UnregisterEventNotificationExistenceChangedCallback(const im::QualityType, const lo::ElementFqId) noexcept override {}
    score::Result<void> SubscribeServiceMethod(const im::QualityType, const lo::SkeletonInstanceIdentifier&, const lo::ProxyInstanceIdentifier&, const pid_t) override
    {
        return {};
    }
    score::Result<void> UnsubscribeServiceMethod(const im::QualityType, const lo::SkeletonInstanceIdentifier&, const lo::ProxyInstanceIdentifier&, const pid_t) override
    {
        return {};
    }
    score::Result<void> CallMethod(const im::QualityType, const lo::ProxyMethodInstanceIdentifier&, const std::size_t, const pid_t) override { return {}; }
    void UnregisterOnServiceMethodSubscribedHandler(const im::QualityType, lo::SkeletonInstanceIdentifier) override {}
    void UnregisterOnServiceMethodUnsubscribedHandler(const im::QualityType, lo::SkeletonInstanceIdentifier) override {}
    void UnregisterMethodCallHandler(const im::QualityType, lo::ProxyMethodInstanceIdentifier) override {}
};
struct LolaRuntime final : lo::IRuntime
{
    Messaging msg;
    std::unique_ptr<lo::RollbackSynchronization> sync{std::make_unique<lo::RollbackSynchronization>()};
    pid_t pid{::getpid()};
    im::BindingType GetBindingType() const noexcept override { return im::BindingType::kLoLa; }
    im::IServiceDiscoveryClient& GetServiceDiscoveryClient() & noexcept override { std::abort(); }
    im::tracing::IBindingTracingRuntime* GetTracingRuntime() noexcept override { return nullptr; }
    lo::IMessagePassingService& GetLolaMessaging() & noexcept override { return msg; }
    bool HasAsilBSupport() const noexcept override { return true; }
    im::ShmSizeCalculationMode GetShmSizeCalculationMode() const noexcept override { return im::ShmSizeCalculationMode::kSimulation; }
    lo::RollbackSynchronization& GetRollbackSynchronization() & noexcept override { return *sync; }
    pid_t GetPid() const noexcept override { return pid; }
    im::GlobalConfiguration::ApplicationId GetApplicationId() const noexcept override { return 0; }
};
struct Runtime final : im::IRuntime
{
    mutable LolaRuntime lola;
    Runtime() { im::Runtime::InjectMock(this); }
    ~Runtime() override { im::Runtime::InjectMock(nullptr); }
    std::vector<im::InstanceIdentifier> resolve(const im::InstanceSpecifier&) const override { return {}; }
    im::IBindingRuntime* GetBindingRuntime(const im::BindingType) const noexcept override { return &lola; }
    im::IServiceDiscovery& GetServiceDiscovery() & noexcept override { std::abort(); }
    im::tracing::ITracingRuntime* GetTracingRuntime() const noexcept override { return nullptr; }
    const im::tracing::ITracingFilterConfig* GetTracingFilterConfig() const override { return nullptr; }
};
}  // namespace cs
#endif
