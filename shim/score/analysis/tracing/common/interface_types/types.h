// Stand-in of the generic trace library: every call is forwarded to a backend a monitor installs.
#ifndef VERIF_SHIM_TRACING_H
#define VERIF_SHIM_TRACING_H
#include <cstdint>
#include <functional>
#include <mutex>
#include <string>
#include <utility>
#include <variant>
#include <vector>
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/language/safecpp/scoped_function/copyable_scoped_function.h"
#include "score/optional.hpp"
#include "score/result/result.h"
namespace score::analysis::tracing
{
using TraceClientId = std::uint8_t;
using TraceContextId = std::uint32_t;
using ShmObjectHandle = std::int32_t;
using ShmFileDescriptor = std::int32_t;
enum class BindingType : std::uint8_t { kLoLa, kVector, kUndefined };
enum class TracePointType : std::uint8_t
{
    kSkelEventSnd, kSkelEventSndA, kSkelFieldUpd, kSkelFieldUpdA, kSkelFieldGetCall, kSkelFieldGetCallResult,
    kSkelFieldSetCall, kSkelFieldSetCallResult, kSkelMethCall, kSkelMethCallResult,
    kProxyEventSub, kProxyEventUnsub, kProxyEventSubstateChange, kProxyEventSetChghdl, kProxyEventUnsetChghdl,
    kProxyEventChghdl, kProxyEventSetRechdl, kProxyEventUnsetRechdl, kProxyEventRechdl, kProxyEventGetSamples,
    kProxyEventSampleCb, kProxyFieldSub, kProxyFieldUnsub, kProxyFieldSubstateChange, kProxyFieldSetChghdl,
    kProxyFieldUnsetChghdl, kProxyFieldChghdl, kProxyFieldSetRechdl, kProxyFieldUnsetRechdl, kProxyFieldRechdl,
    kProxyFieldGetSamples, kProxyFieldSampleCb, kProxyFieldGet, kProxyFieldGetResult, kProxyFieldSet,
    kProxyFieldSetResult
};
class ServiceInstanceElement
{
  public:
    using ServiceIdType = std::uint32_t;
    using InstanceIdType = std::uint32_t;
    using VersionType = std::uint32_t;
    struct EventId { std::uint32_t v; };
    struct FieldId { std::uint32_t v; };
    struct MethodId { std::uint32_t v; };
    using StdVariantType = std::variant<std::monostate, EventId, FieldId, MethodId>;
    ServiceInstanceElement(ServiceIdType s, VersionType ma, VersionType mi, InstanceIdType i, StdVariantType e)
        : service_id{s}, major{ma}, minor{mi}, instance_id{i}, element{e}
    {
    }
    ServiceIdType service_id;
    VersionType major;
    VersionType minor;
    InstanceIdType instance_id;
    StdVariantType element;
};
class AraComProperties
{
  public:
    using TracePointDataId = std::uint32_t;
    AraComProperties(TracePointType t, ServiceInstanceElement e, score::cpp::optional<TracePointDataId> d)
        : trace_point_type{t}, service_instance_element{e}, trace_point_data_id{d}
    {
    }
    TracePointType trace_point_type;
    ServiceInstanceElement service_instance_element;
    score::cpp::optional<TracePointDataId> trace_point_data_id;
};
class AraComMetaInfo
{
  public:
    explicit AraComMetaInfo(AraComProperties p) : properties{p} {}
    void SetDataLossBit() noexcept { data_loss = true; }
    AraComProperties properties;
    bool data_loss{false};
};
struct SharedMemoryLocation
{
    ShmObjectHandle shm_object_handle;
    std::size_t offset;
};
struct SharedMemoryChunk
{
    SharedMemoryLocation start;
    std::size_t size;
};
struct LocalDataChunk
{
    const void* start;
    std::size_t size;
};
class ShmDataChunkList
{
  public:
    explicit ShmDataChunkList(SharedMemoryChunk c) : list{c} {}
    std::vector<SharedMemoryChunk> list;
};
class LocalDataChunkList
{
  public:
    explicit LocalDataChunkList(LocalDataChunk c) : list{c} {}
    std::vector<LocalDataChunk> list;
};
enum class ErrorCode : score::result::ErrorCode
{
    kNoErrorRecoverable = 1,
    kNotEnoughMemoryRecoverable,
    kLastRecoverable,
    kGenericErrorFatal,
    kTerminalFatal
};
class TraceDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "trace error"; }
};
inline constexpr TraceDomain trace_domain{};
constexpr score::result::Error MakeError(ErrorCode c, std::string_view m = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(c), trace_domain, m};
}
constexpr bool IsErrorRecoverable(ErrorCode e) noexcept { return e >= ErrorCode::kNoErrorRecoverable && e <= ErrorCode::kLastRecoverable; }
constexpr bool IsErrorFatal(ErrorCode e) noexcept { return !IsErrorRecoverable(e); }
using TraceResult = score::ResultBlank;
using RegisterClientResult = score::Result<TraceClientId>;
using RegisterSharedMemoryObjectResult = score::Result<ShmObjectHandle>;
using UnregisterSharedMemoryObjectResult = score::ResultBlank;
using RegisterTraceDoneCallBackResult = score::ResultBlank;
using TraceDoneCallBackType = score::safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;
class TraceBackend
{
  public:
    virtual ~TraceBackend() = default;
    virtual RegisterClientResult RegisterClient(BindingType, const std::string&) { return TraceClientId{1}; }
    virtual RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId, ShmFileDescriptor) { return ShmObjectHandle{1}; }
    virtual RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId, const std::string&) { return ShmObjectHandle{1}; }
    virtual UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId, ShmObjectHandle) { return {}; }
    virtual RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId, TraceDoneCallBackType) { return {}; }
    virtual TraceResult Trace(TraceClientId, const AraComMetaInfo&, ShmDataChunkList&, TraceContextId) { return {}; }
    virtual TraceResult Trace(TraceClientId, const AraComMetaInfo&, LocalDataChunkList&) { return {}; }
    static TraceBackend*& current()
    {
        static TraceBackend def;
        static TraceBackend* c{&def};
        return c;
    }
};
class GenericTraceAPI
{
  public:
    static RegisterClientResult RegisterClient(BindingType b, const std::string& s) { return TraceBackend::current()->RegisterClient(b, s); }
    template <class X>
    static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, X x) { return TraceBackend::current()->RegisterShmObject(c, x); }
    static UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId c, ShmObjectHandle h) { return TraceBackend::current()->UnregisterShmObject(c, h); }
    static RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId c, TraceDoneCallBackType cb) { return TraceBackend::current()->RegisterTraceDoneCB(c, std::move(cb)); }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, ShmDataChunkList& l, TraceContextId id) { return TraceBackend::current()->Trace(c, m, l, id); }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, LocalDataChunkList& l) { return TraceBackend::current()->Trace(c, m, l); }
};
}  // namespace score::analysis::tracing
#endif
