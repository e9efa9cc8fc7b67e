// Self-describing messages for the message_passing workloads.
#ifndef MP_UTIL_H
#define MP_UTIL_H
#include "vh.h"

#include "score/message_passing/client_factory.h"
#include "score/message_passing/engine.h"
#include "score/message_passing/i_connection_handler.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/server_factory.h"

#include <condition_variable>
#include <deque>
#include <memory>
#include <optional>
#include <unordered_map>

namespace mp = score::message_passing;
using Bytes = std::vector<std::uint8_t>;
using Span = score::cpp::span<const std::uint8_t>;
using Err = score::os::Error;
using State = mp::IClientConnection::State;
using Reason = mp::IClientConnection::StopReason;

inline int code_of(const Err& e) { return e.GetOsDependentErrorCode(); }

struct Head
{
    std::uint32_t magic;
    std::uint16_t client;
    std::uint16_t thread;
    std::uint32_t session;
    std::uint32_t kind;  // 0 send, 1 request, 2 reply, 3 notification
    std::uint64_t seq;   // per (client, session, thread, kind)
    std::uint64_t all;   // per (client, session, thread)
    std::uint32_t len;
    std::uint32_t sum;
};
constexpr std::uint32_t kMagic = 0x5C0FE11AU;
constexpr std::size_t kHead = sizeof(Head);

inline std::uint32_t body_byte(const Head& h, std::size_t i)
{
    return static_cast<std::uint32_t>(
        (h.seq * 131U + h.client * 17U + h.thread * 29U + h.kind * 7U + h.session * 3U + i * 13U + (i >> 8U)) & 0xFFU);
}
inline std::uint32_t head_sum(Head h)
{
    h.sum = 0;
    const auto* p = reinterpret_cast<const std::uint8_t*>(&h);
    std::uint32_t s = 1;
    for (std::size_t i = 0; i < sizeof h; ++i)
    {
        s = s * 16777619U + p[i];
    }
    return s;
}
inline Bytes make_msg(Head h, std::size_t len)
{
    h.magic = kMagic;
    h.len = static_cast<std::uint32_t>(len);
    h.sum = head_sum(h);
    Bytes b(len);
    std::memcpy(b.data(), &h, sizeof h);
    for (std::size_t i = kHead; i < len; ++i)
    {
        b[i] = static_cast<std::uint8_t>(body_byte(h, i));
    }
    return b;
}
// nullopt if the bytes are not exactly one message as some sender made it
inline std::optional<Head> parse_msg(const std::uint8_t* p, std::size_t n, std::string& why)
{
    Head h{};
    if (n < kHead)
    {
        why = vh::str("length ", n, " is shorter than any message sent");
        return {};
    }
    std::memcpy(&h, p, sizeof h);
    if (h.magic != kMagic || h.sum != head_sum(h))
    {
        why = vh::str("header damaged in a message of length ", n);
        return {};
    }
    if (h.len != n)
    {
        why = vh::str("sent with length ", h.len, ", arrived with ", n);
        return {};
    }
    for (std::size_t i = kHead; i < n; ++i)
    {
        if (p[i] != static_cast<std::uint8_t>(body_byte(h, i)))
        {
            why = vh::str("byte ", i, " of ", n, " differs");
            return {};
        }
    }
    return h;
}
inline std::string unique_name(const char* base)
{
    static std::atomic<unsigned> n{0};
    return vh::str("vf_", base, "_", ::getpid(), "_", n.fetch_add(1), "_", vh::now_ns() % 1000000000ULL);
}
inline std::shared_ptr<mp::Engine> make_engine()
{
    auto* r = score::cpp::pmr::get_default_resource();
    return score::cpp::pmr::make_shared<mp::Engine>(r, r, mp::LoggingCallback{});
}
#endif
