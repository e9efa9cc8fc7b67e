// C27: what two gateways tell each other over their transport arrives intact and in order, acknowledgements are true,
// and neither a bad peer nor a broken connection nor a shutdown at a bad moment does lasting harm.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h"
#include "score/mw/com/gateway/transport_layer/sample/message_framer.h"
#include "score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h"
#include "score/mw/com/gateway/transport_layer/sample/pending_request_tracker.h"
#include "verif_seam.h"
#include "vh.h"
#undef VH_CHECK
#define VH_CHECK(cond, key, ...)                   \
    do                                             \
    {                                              \
        if (!(cond))                               \
        {                                          \
            vh::violation(key, format(__VA_ARGS__)); \
        }                                          \
    } while (false)
template <class... A>
std::string format(const char* f, A... a)
{
    if constexpr (sizeof...(a) == 0)
    {
        return f;
    }
    else
    {
        std::string s(2048, 0);
        s.resize(static_cast<std::size_t>(std::min(2047, std::snprintf(&s[0], s.size(), f, a...))));
        return s;
    }
}
using namespace score::mw::com::gateway;
namespace impl = score::mw::com::impl;
using Clock = std::chrono::steady_clock;
using vh::Rng;

namespace
{
std::atomic<int> g_fault_every{0};  // one of so many sendto calls fails
std::atomic<std::uint64_t> g_fault_n{0};
int os_hook(const char* op, const char*, int)
{
    const int e = g_fault_every.load(std::memory_order_relaxed);
    if (e > 0 && std::strcmp(op, "sendto") == 0)
    {
        const auto n = g_fault_n.fetch_add(1, std::memory_order_relaxed);
        if (vh::mix(n * 977 + vh::seed()) % static_cast<unsigned>(e) == 0)
        {
            vh::count("sends_failed");
            return (n & 1) ? EINTR : ENOBUFS;
        }
    }
    return 0;
}

// ---- messages ----------------------------------------------------------------------------------------------------
struct Msg
{
    MessageType type{};
    std::string spec, name;
    impl::ServiceElementType et{};
    std::vector<std::pair<std::string, impl::DataTypeMetaInfo>> elems;
    std::uint32_t ctl{}, data{}, seq{};
    bool operator==(const Msg& o) const
    {
        if (type != o.type || spec != o.spec || name != o.name || et != o.et || ctl != o.ctl || data != o.data ||
            elems.size() != o.elems.size())
        {
            return false;
        }
        for (std::size_t i = 0; i < elems.size(); ++i)
        {
            if (elems[i].first != o.elems[i].first || elems[i].second.size != o.elems[i].second.size ||
                elems[i].second.alignment != o.elems[i].second.alignment)
            {
                return false;
            }
        }
        return true;
    }
    std::string text() const
    {
        std::string s = "type " + std::to_string(static_cast<int>(type)) + " spec " + vh::esc(spec).substr(0, 80) + " element " +
                        std::to_string(static_cast<int>(et)) + " name " + vh::esc(name).substr(0, 60) + " (" +
                        std::to_string(name.size()) + ") sizes " + std::to_string(ctl) + "/" + std::to_string(data);
        for (auto& e : elems)
        {
            s += " [" + vh::esc(e.first).substr(0, 30) + " " + std::to_string(e.second.size) + "/" + std::to_string(e.second.alignment) + "]";
        }
        return s;
    }
};
const MessageType kTypes[] = {MessageType::kProvideServiceRequest, MessageType::kOfferServiceRequest,
                              MessageType::kStopOfferServiceRequest, MessageType::kRegisterNotificationRequest,
                              MessageType::kUnregisterNotificationRequest, MessageType::kUpdateNotification};

std::string word(Rng& r, std::size_t n, bool any)
{
    static const char ok[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
    {
        s += any ? static_cast<char>(1 + r.below(255)) : ok[r.below(sizeof ok - 1)];
    }
    return s;
}
/// the message number n of thread t in session s; everything in it follows from these
Msg make(std::uint64_t s, int t, int n, int type = -1, bool small = false)
{
    Rng r{vh::comb(vh::comb(s, static_cast<std::uint64_t>(t)), static_cast<std::uint64_t>(n))};
    Msg m;
    const auto pick = r.below(10);
    m.type = type >= 0 ? kTypes[type] : pick < 5 ? MessageType::kUpdateNotification : kTypes[pick - 5];
    m.spec = "t" + std::to_string(t) + "/n" + std::to_string(n) + "/" + word(r, 1 + r.below(small ? 8 : 120), false);
    if (m.type == MessageType::kProvideServiceRequest)
    {
        const int k = static_cast<int>(r.below(10));
        for (int i = 0; i < k; ++i)
        {
            m.elems.push_back({word(r, 1 + r.below(40), true), {r.next(), r.next()}});
        }
        m.ctl = static_cast<std::uint32_t>(r.next());
        m.data = static_cast<std::uint32_t>(r.next());
    }
    else if (m.type != MessageType::kOfferServiceRequest && m.type != MessageType::kStopOfferServiceRequest)
    {
        m.name = word(r, 1 + r.below(small ? 20 : 600), true);
        m.et = static_cast<impl::ServiceElementType>(r.below(4));
    }
    return m;
}
std::unique_ptr<TransportMessage> build(const Msg& m)
{
    auto sp = score::mw::com::InstanceSpecifier::Create(std::string{m.spec});
    VH_NEED(sp.has_value(), "specifier refused: %s", m.spec.c_str());
    switch (m.type)
    {
        case MessageType::kProvideServiceRequest:
        {
            std::vector<score::mw::com::EventInfo> v;
            for (auto& e : m.elems)
            {
                v.push_back(score::mw::com::EventInfo{e.first, e.second});
            }
            return std::make_unique<ProvideServiceRequest>(std::move(*sp), std::move(v), m.ctl, m.data);
        }
        case MessageType::kOfferServiceRequest: return std::make_unique<OfferServiceRequest>(std::move(*sp));
        case MessageType::kStopOfferServiceRequest: return std::make_unique<StopOfferServiceRequest>(std::move(*sp));
        case MessageType::kRegisterNotificationRequest:
            return std::make_unique<RegisterNotificationRequest>(std::move(*sp), m.et, m.name);
        case MessageType::kUnregisterNotificationRequest:
            return std::make_unique<UnregisterNotificationRequest>(std::move(*sp), m.et, m.name);
        default: return std::make_unique<UpdateNotification>(std::move(*sp), m.et, m.name);
    }
}
Msg read(const TransportMessage& x)
{
    Msg m;
    m.type = x.GetType();
    m.seq = x.GetSequenceNumber();
    if (auto* p = dynamic_cast<const ProvideServiceRequest*>(&x))
    {
        m.spec = p->GetInstanceSpecifier();
        m.ctl = p->GetShmControlSize();
        m.data = p->GetShmDataSize();
        for (auto& e : p->GetServiceElements())
        {
            m.elems.push_back({std::string{e.name}, e.data_type_meta_info});
        }
    }
    else if (auto* o = dynamic_cast<const OfferServiceRequest*>(&x))
    {
        m.spec = o->GetInstanceSpecifier();
    }
    else if (auto* so = dynamic_cast<const StopOfferServiceRequest*>(&x))
    {
        m.spec = so->GetInstanceSpecifier();
    }
    else if (auto* e = dynamic_cast<const ServiceElementMessage*>(&x))
    {
        m.spec = e->GetInstanceSpecifier();
        m.et = e->GetElementType();
        m.name = e->GetElementName();
    }
    return m;
}

// ---- encoding ----------------------------------------------------------------------------------------------------
void codec(Rng& r)
{
    std::array<std::uint8_t, MessageFramer::kMaxPayloadSize> big;
    for (int i = 0; i < 300; ++i)
    {
        std::vector<std::uint8_t> wire;
        Msg m;
        {
            // the sender's strings are gone by the time the message is read, as they are on another machine
            m = make(r.next(), 1, i, static_cast<int>(r.below(6)));
            Msg own = m;
            auto x = build(own);
            const auto n = x->Serialize({big.data(), big.size()});
            VH_CHECK(n != 0 && n <= big.size(), "encode", "a message of at most 1024 bytes was not encoded: %s", m.text().c_str());
            wire.assign(big.begin(), big.begin() + static_cast<long>(n));
            // exactly the space it needs is enough, a byte less is not, and nothing beyond is touched
            std::vector<std::uint8_t> exact(n);
            VH_CHECK(x->Serialize({exact.data(), exact.size()}) == n && exact == wire, "encode-exact", "encoding into exactly %zu bytes differs", n);
            std::vector<std::uint8_t> less(r.below(n));
            VH_CHECK(x->Serialize({less.data(), less.size()}) == 0, "encode-small", "a message of %zu bytes was encoded into %zu", n, less.size());
        }
        auto y = MessageFramer::CreateMessageForType(m.type);
        VH_CHECK(y && y->Deserialize({wire.data(), wire.size()}), "decode", "an encoded message is refused: %s", m.text().c_str());
        const Msg back = read(*y);
        VH_CHECK(back == m, "corrupt", "decoded: %s\nencoded: %s", back.text().c_str(), m.text().c_str());
        vh::count("round_trips");
        // cut short: refused
        std::vector<std::uint8_t> cut(wire.begin(), wire.begin() + static_cast<long>(r.below(wire.size())));
        auto z = MessageFramer::CreateMessageForType(m.type);
        if (!cut.empty())
        {
            VH_CHECK(!z->Deserialize({cut.data(), cut.size()}), "decode-cut", "a message of %zu bytes was accepted with %zu of them", wire.size(), cut.size());
        }
        // damaged: whatever comes out, no harm
        std::vector<std::uint8_t> bad = wire;
        for (auto k = 1 + r.below(6); k > 0; --k)
        {
            bad[r.below(bad.size())] = static_cast<std::uint8_t>(r.next());
        }
        auto w = MessageFramer::CreateMessageForType(r.chance(50) ? m.type : kTypes[r.below(6)]);
        if (w->Deserialize({bad.data(), bad.size()}))
        {
            (void)read(*w).text();
            vh::count("damaged_read");
        }
        else
        {
            vh::count("damaged_refused");
        }
        vh::eval(5);
        vh::distinct(vh::comb(static_cast<std::uint64_t>(m.type), wire.size()));
    }
    // the acknowledgement
    for (int i = 0; i < 20; ++i)
    {
        const auto s = static_cast<std::uint32_t>(r.next());
        AckResponse a{s}, b;
        const auto n = a.Serialize({big.data(), big.size()});
        VH_CHECK(n != 0 && b.Deserialize({big.data(), n}) && b.GetAckedSequence() == s, "ack-codec", "acknowledgement of %u reads %u", s, b.GetAckedSequence());
    }
}

// ---- framing -----------------------------------------------------------------------------------------------------
void framing(Rng& r)
{
    int fd[2];
    VH_NEED(::socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0, "socketpair");
    const std::uint64_t s = r.next();
    const int n = 40 + static_cast<int>(r.below(60));
    std::string stream;
    std::vector<std::size_t> ends;
    std::vector<Msg> ms;
    {
        int p[2];
        VH_NEED(::socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair");
        MessageFramer f;
        for (int i = 0; i < n; ++i)
        {
            Msg m = make(s, 2, i, static_cast<int>(r.below(6)));
            auto x = build(m);
            m.seq = static_cast<std::uint32_t>(r.next());
            x->SetSequenceNumber(m.seq);
            const auto res = f.SendMessage(p[0], *x);
            VH_CHECK(res.has_value(), "frame-send", "a message was not sent on a working socket");
            char b[4096];
            const auto k = ::recv(p[1], b, sizeof b, MSG_DONTWAIT);
            std::string got;
            for (auto q = k; q > 0; q = ::recv(p[1], b, sizeof b, MSG_DONTWAIT))
            {
                got.append(b, static_cast<std::size_t>(q));
            }
            stream += got;
            ends.push_back(stream.size());
            ms.push_back(m);
        }
        ::close(p[0]);
        ::close(p[1]);
    }
    // what becomes of it at the end: complete, cut, or followed by something else
    const auto how = r.below(4);
    std::size_t whole = ms.size();
    if (how == 1)
    {
        const auto at = r.below(stream.size());
        stream.resize(at);
        whole = 0;
        while (whole < ends.size() && ends[whole] <= at)
        {
            ++whole;
        }
    }
    else if (how >= 2)
    {
        MessageHeader h;
        h.type = how == 2 ? MessageType::kAckResponse : static_cast<MessageType>(std::array<int, 8>{0, 6, 7, 0x3f, 0x41, 0x7f, 0x81, 0xff}[r.below(8)]);
        h.sequence = static_cast<std::uint32_t>(r.next());
        h.payload_size = how == 2 ? 1025 + static_cast<std::uint32_t>(r.next() % 0xf0000000U) : static_cast<std::uint32_t>(r.below(50));
        std::uint8_t b[MessageHeader::kWireSize];
        h.SerializeToBuffer(b);
        stream.append(reinterpret_cast<char*>(b), sizeof b);
        stream.append(r.below(3000), '\x11');
    }
    std::thread w{[&, wr = Rng{r.next()}]() mutable {
        std::size_t at = 0;
        while (at < stream.size())
        {
            const auto k = std::min<std::size_t>(stream.size() - at, 1 + wr.below(wr.chance(50) ? 20 : 900));
            const auto q = ::send(fd[0], stream.data() + at, k, MSG_NOSIGNAL);
            if (q <= 0)
            {
                break;
            }
            at += static_cast<std::size_t>(q);
            if (wr.chance(10))
            {
                vh::jitter(wr, 50);
            }
        }
        ::shutdown(fd[0], SHUT_WR);
    }};
    MessageFramer f;
    std::size_t got = 0;
    for (;;)
    {
        auto x = f.ReceiveMessage(fd[1]);
        if (!x)
        {
            break;
        }
        VH_CHECK(got < whole, "frame-extra", "message %zu of a stream that holds %zu (end %d)", got, whole, static_cast<int>(how));
        const Msg m = read(*x);
        VH_CHECK(m == ms[got] && m.seq == ms[got].seq, "frame-corrupt", "message %zu read: %s\nwritten: %s", got, m.text().c_str(), ms[got].text().c_str());
        ++got;
    }
    ::shutdown(fd[1], SHUT_RDWR);
    w.join();
    VH_CHECK(got == whole, "frame-lost", "%zu messages read of %zu whole ones (end %d)", got, whole, static_cast<int>(how));
    vh::count("frames", got);
    vh::eval(got);
    ::close(fd[0]);
    ::close(fd[1]);
    // anything at all from the other side
    VH_NEED(::socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0, "socketpair");
    std::string junk;
    for (auto k = r.below(4000); k > 0; --k)
    {
        junk += static_cast<char>(r.chance(40) ? 0 : r.chance(50) ? r.below(8) : r.next());
    }
    VH_NEED(::send(fd[0], junk.data(), junk.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(junk.size()), "send");
    ::shutdown(fd[0], SHUT_WR);
    while (auto x = f.ReceiveMessage(fd[1]))
    {
        (void)read(*x).text();
        vh::count("junk_messages");
    }
    vh::count("junk_streams");
    ::close(fd[0]);
    ::close(fd[1]);
}

// ---- pending requests --------------------------------------------------------------------------------------------
void tracker(Rng& r)
{
    PendingRequestTracker t;
    std::atomic<bool> up{true};
    const int threads = 2 + static_cast<int>(r.below(4)), n = 60;
    std::mutex m;
    std::deque<std::uint32_t> todo;
    std::atomic<int> left{threads};
    std::vector<std::vector<std::uint32_t>> seqs(static_cast<std::size_t>(threads));
    std::vector<std::thread> ts;
    std::mutex am;
    std::map<std::uint32_t, bool> acked;
    for (int k = 0; k < threads; ++k)
    {
        ts.emplace_back([&, k, tr = Rng{r.next()}]() mutable {
            for (int i = 0; i < n; ++i)
            {
                const auto s = t.GetNextSequenceNumber();
                seqs[static_cast<std::size_t>(k)].push_back(s);
                t.RegisterPendingRequest(s);
                const bool want = tr.chance(93);
                if (want)
                {
                    std::lock_guard<std::mutex> l{m};
                    todo.push_back(s);
                }
                vh::jitter(tr, 20);
                const auto t0 = vh::now_ns();
                const auto res = t.WaitForAck(s, std::chrono::milliseconds(want ? 20000 : 3), up);
                const auto took = (vh::now_ns() - t0) / 1000000;
                if (want)
                {
                    VH_CHECK(res.has_value(), "ack-missed", "request %u was acknowledged, the waiter was told otherwise after %llu ms", s,
                             static_cast<unsigned long long>(took));
                    std::lock_guard<std::mutex> l{am};
                    VH_CHECK(acked[s], "ack-early", "request %u taken as acknowledged before it was", s);
                }
                else
                {
                    VH_CHECK(!res.has_value(), "ack-invented", "request %u was never acknowledged", s);
                    VH_CHECK(res.error() == TransportErrorc::kTimeout && took >= 2, "ack-timeout", "request %u failed otherwise than by its time limit", s);
                }
                VH_CHECK(t.HasPendingRequest(s), "pending", "request %u is pending until it is erased", s);
                t.ErasePendingRequest(s);
                VH_CHECK(!t.HasPendingRequest(s), "pending", "request %u is still pending after it was erased", s);
                VH_CHECK(!t.WaitForAck(s, std::chrono::milliseconds(1), up).has_value(), "ack-unknown", "an erased request was acknowledged");
                vh::count("tracked");
            }
            --left;
        });
    }
    std::thread ack{[&, ar = Rng{r.next()}]() mutable {
        while (left > 0)
        {
            std::uint32_t s = 0;
            bool have = false;
            {
                std::lock_guard<std::mutex> l{m};
                if (!todo.empty())
                {
                    s = todo.front();
                    todo.pop_front();
                    have = true;
                }
            }
            if (have)
            {
                vh::jitter(ar, 30);
                {
                    std::lock_guard<std::mutex> l{am};
                    acked[s] = true;
                }
                t.Acknowledge(s);
                t.Acknowledge(s + 100000);
            }
            else
            {
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
        }
    }};
    for (auto& x : ts)
    {
        x.join();
    }
    ack.join();
    std::map<std::uint32_t, int> uniq;
    for (auto& v : seqs)
    {
        for (auto s : v)
        {
            VH_CHECK(++uniq[s] == 1, "sequence-twice", "sequence number %u was given out twice", s);
        }
    }
    // nobody waits on when the connection ends
    std::vector<std::thread> ws;
    std::atomic<int> waiting{0};
    for (int k = 0; k < 3; ++k)
    {
        ws.emplace_back([&, k] {
            const auto s = t.GetNextSequenceNumber();
            t.RegisterPendingRequest(s);
            ++waiting;
            const auto res = t.WaitForAck(s, std::chrono::milliseconds(30000), up);
            VH_CHECK(!res.has_value() && res.error() == TransportErrorc::kNotConnected, "ack-disconnect", "a waiter was not told that the connection ended");
        });
    }
    while (waiting < 3)
    {
        std::this_thread::yield();
    }
    vh::jitter(r, 60);
    const auto t0 = vh::now_ns();
    up = false;
    t.NotifyAll();
    for (auto& w : ws)
    {
        w.join();
    }
    VH_CHECK(vh::now_ns() - t0 < 15000000000ULL, "ack-disconnect-late", "a waiter slept on for its whole time limit after the connection ended");
    vh::count("disconnects_told", 3);
    vh::eval(static_cast<std::uint64_t>(threads * n));
}

// ---- two gateways ------------------------------------------------------------------------------------------------
int g_port_base = 0;
std::atomic<int> g_port_next{0};
/// A block of ports of which no other process running this takes any: who holds the UDP port of that number has it.
void claim_ports(Rng& r)
{
    const int first = static_cast<int>(r.below(40));
    for (int i = 0; i < 40; ++i)
    {
        const int base = 10000 + 500 * ((first + i) % 40);
        const int s = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        a.sin_port = htons(static_cast<std::uint16_t>(base));
        if (::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0)
        {
            g_port_base = base;
            return;
        }
        ::close(s);
    }
    vh::inconclusive("no free block of ports");
}
int new_port()
{
    for (int i = 0; i < 400; ++i)
    {
        const int p = g_port_base + 1 + g_port_next.fetch_add(1) % 498;
        const int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        const int one = 1;
        ::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = INADDR_ANY;
        a.sin_port = htons(static_cast<std::uint16_t>(p));
        const bool ok = ::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
        ::close(s);
        if (ok)
        {
            return p;
        }
    }
    vh::inconclusive("no free port");
}

/// Forwards one direction; cuts, delays and tears apart what passes.
class Relay
{
  public:
    Relay(int to, std::uint64_t seed) : r_{seed}, to_{to}
    {
        for (int i = 0; i < 50; ++i)
        {
            port = new_port();
            l_ = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            const int one = 1;
            ::setsockopt(l_, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
            auto a = addr(port);
            if (::bind(l_, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && ::listen(l_, 4) == 0)
            {
                t_ = std::thread{[this] { run(); }};
                return;
            }
            ::close(l_);
        }
        vh::inconclusive("no port to listen on");
    }
    ~Relay()
    {
        stop_ = true;
        t_.join();
        ::close(l_);
    }
    void cut() { cut_ = 1; }
    void cut_after(int bytes) { after_ = bytes; }
    void stall(int ms) { stall_ = ms; }
    void tear(bool on) { tear_ = on; }
    void refuse(bool on) { refuse_ = on; }
    std::atomic<std::uint64_t> bytes{0};
    std::atomic<int> connections{0};
    int port{};

  private:
    static sockaddr_in addr(int p)
    {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        a.sin_port = htons(static_cast<std::uint16_t>(p));
        return a;
    }
    void run()
    {
        while (!stop_)
        {
            pollfd p{l_, POLLIN, 0};
            if (::poll(&p, 1, 20) <= 0)
            {
                continue;
            }
            const int in = ::accept4(l_, nullptr, nullptr, SOCK_CLOEXEC);
            if (in < 0)
            {
                continue;
            }
            if (refuse_)
            {
                ::close(in);
                continue;
            }
            int out = -1;
            while (!stop_ && out < 0)
            {
                out = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
                auto a = addr(to_);
                if (::connect(out, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0)
                {
                    ::close(out);
                    out = -1;
                    char c;
                    if (::recv(in, &c, 1, MSG_PEEK | MSG_DONTWAIT) == 0)
                    {
                        break;  // the caller has gone
                    }
                    std::this_thread::sleep_for(std::chrono::milliseconds(5));
                }
            }
            if (out >= 0)
            {
                ++connections;
                forward(in, out);
                ::close(out);
            }
            ::close(in);
        }
    }
    void forward(int in, int out)
    {
        cut_ = 0;
        std::string held;
        bool eof = false;
        while (!stop_)
        {
            if (cut_.exchange(0) != 0)
            {
                const linger l{1, 0};
                if (r_.chance(50))
                {
                    ::setsockopt(in, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                    ::setsockopt(out, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                }
                return;
            }
            if (const int ms = stall_.exchange(0))
            {
                const auto until = Clock::now() + std::chrono::milliseconds(ms);
                while (!stop_ && Clock::now() < until)
                {
                    std::this_thread::sleep_for(std::chrono::milliseconds(2));
                }
            }
            if (held.size() < 65536 && !eof)
            {
                pollfd p[2] = {{in, POLLIN, 0}, {out, POLLRDHUP, 0}};
                if (::poll(p, 2, held.empty() ? 10 : 0) > 0)
                {
                    if (p[1].revents != 0)
                    {
                        return;  // the receiver has gone
                    }
                    char b[16384];
                    const auto k = ::recv(in, b, tear_ ? 1 + r_.below(200) : sizeof b, MSG_DONTWAIT);
                    if (k == 0)
                    {
                        eof = true;
                    }
                    else if (k > 0)
                    {
                        held.append(b, static_cast<std::size_t>(k));
                    }
                }
            }
            if (!held.empty())
            {
                std::size_t n = tear_ ? 1 + r_.below(held.size()) : held.size();
                const int a = after_.load();
                if (a > 0)
                {
                    n = std::min(n, static_cast<std::size_t>(a));
                }
                const auto k = ::send(out, held.data(), n, MSG_NOSIGNAL | MSG_DONTWAIT);
                if (k > 0)
                {
                    bytes += static_cast<std::uint64_t>(k);
                    held.erase(0, static_cast<std::size_t>(k));
                    if (a > 0 && (after_ = a - static_cast<int>(k)) <= 0)
                    {
                        after_ = 0;
                        return;
                    }
                }
                else if (k < 0 && errno == EAGAIN)
                {
                    pollfd p{out, POLLOUT, 0};
                    ::poll(&p, 1, 5);
                }
                else
                {
                    return;
                }
            }
            else if (eof)
            {
                return;
            }
        }
    }
    Rng r_;
    int to_, l_{-1};
    std::atomic<bool> stop_{false}, tear_{false}, refuse_{false};
    std::atomic<int> cut_{0}, after_{0}, stall_{0};
    std::thread t_;
};

struct Sent
{
    int n;
    bool request, ok;
    bool slow;      // took so long that it may have been sent more than once
    score::result::ErrorCode err;
};
struct Got
{
    int t, n;
};
struct Side
{
    int port{};
    std::unique_ptr<BidirectionalTransport> t;
    std::uint64_t key{};  // what the other side sends is made from
    std::mutex m;
    std::vector<Got> got;
    std::atomic<bool> down{false};
    std::atomic<std::uint64_t> handled{0};
    std::vector<std::vector<Sent>> sent;
    std::atomic<int> nested{0};
    std::vector<Sent> nested_sent;
};
bool within(int ms, const std::function<void()>& f)
{
    auto done = std::make_shared<std::atomic<bool>>(false);
    std::thread t{[f, done] {
        f();
        *done = true;
    }};
    const auto until = Clock::now() + std::chrono::milliseconds(ms);
    while (!*done && Clock::now() < until)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    if (*done)
    {
        t.join();
        return true;
    }
    t.detach();
    return false;
}
constexpr int kSlack = 20000;

/// `style`: 0 nothing goes wrong, 1 the connection is cut, 2 it stalls beyond the time limit, 3 sends fail, 4 flood
void session(std::uint64_t seed, int style)
{
    Rng r{seed};
    Side side[2];
    std::unique_ptr<Relay> relay[2];  // [i]: from side i
    const std::uint32_t timeout = style == 2 ? 60 : style == 0 || style == 4 ? 60000 : 1500;
    for (auto& s : side)
    {
        s.port = new_port();
        s.key = r.next();
    }
    for (int i = 0; i < 2; ++i)
    {
        relay[i] = std::make_unique<Relay>(side[1 - i].port, r.next());
        relay[i]->tear(style != 4 && r.chance(50));
    }
    const bool nested = r.chance(50) && style != 4;
    for (int i = 0; i < 2; ++i)
    {
        HyperVisorSocketConfiguration c;
        c.remote_ip_ = score::os::Ipv4Address{"127.0.0.1"};
        c.local_port_ = static_cast<std::uint16_t>(side[i].port);
        c.remote_port_ = static_cast<std::uint16_t>(relay[i]->port);
        c.request_timeout_ms_ = timeout;
        side[i].t = std::make_unique<BidirectionalTransport>(c);
        Side* me = &side[i];
        Side* other = &side[1 - i];
        me->t->SetMessageHandler([me, other, nested, timeout](std::unique_ptr<TransportMessage> x) {
            VH_CHECK(!me->down, "after-shutdown", "a message was handed over after the shutdown");
            const Msg m = read(*x);
            int t = -1, n = -1;
            VH_CHECK(std::sscanf(m.spec.c_str(), "t%d/n%d/", &t, &n) == 2, "corrupt", "received %s", m.text().c_str());
            const bool extra = t >= 90;
            const Msg want = make(other->key, t, n, extra ? t - 90 : -1, extra);
            VH_CHECK(m == want, "corrupt", "received %s\nsent %s", m.text().c_str(), want.text().c_str());
            {
                std::lock_guard<std::mutex> l{me->m};
                me->got.push_back({t, n});
            }
            ++me->handled;
            if (nested && n % 16 == 7 && t < 90)
            {
                // a handler may send
                const int k = me->nested++;
                auto q = build(make(me->key, 91, k, 1, true));
                const auto t0 = Clock::now();
                const auto res = me->t->SendRequest(*q);
                me->nested_sent.push_back({k, true, res.has_value(), Clock::now() - t0 >= std::chrono::milliseconds(timeout - 1), 0});
                vh::count("sent_by_handler");
            }
        });
    }
    std::atomic<int> up{0};
    {
        std::thread a{[&] {
            VH_CHECK(side[0].t->Setup().has_value(), "setup", "set-up failed");
            ++up;
        }};
        vh::jitter(r, 50);
        std::thread b{[&] {
            VH_CHECK(side[1].t->Setup().has_value(), "setup", "set-up failed");
            ++up;
        }};
        const auto until = Clock::now() + std::chrono::seconds(40);
        while (up < 2 && Clock::now() < until)
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
        VH_CHECK(up == 2, "setup-hangs", "two gateways do not find each other");
        a.join();
        b.join();
    }
    // traffic
    std::atomic<bool> cut{false};
    const int threads = style == 4 ? 3 : 1 + static_cast<int>(r.below(3));
    const int count = style == 4 ? 6000 : style == 0 ? 150 : 60;
    std::vector<std::thread> ts;
    std::atomic<int> running{0};
    std::atomic<std::uint64_t> progress{0};
    for (int i = 0; i < 2; ++i)
    {
        side[i].sent.resize(static_cast<std::size_t>(threads));
        for (int t = 0; t < threads; ++t)
        {
            ++running;
            ts.emplace_back([&, i, t, tr = Rng{r.next()}]() mutable {
                Side& s = side[i];
                for (int n = 0; n < count; ++n)
                {
                    auto x = build(make(s.key, t, n));
                    const bool req = x->GetType() != MessageType::kUpdateNotification;
                    const auto t0 = Clock::now();
                    const auto res = req ? s.t->SendRequest(*x) : s.t->SendNotification(*x);
                    const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t0).count();
                    VH_CHECK(ms < static_cast<long long>(timeout) * 5 + kSlack, "send-hangs", "sending took %lld ms, the limit of a request is 5 times %u ms", static_cast<long long>(ms), timeout);
                    s.sent[static_cast<std::size_t>(t)].push_back({n, req, res.has_value(), ms + 1 >= static_cast<long long>(timeout), 0});
                    ++progress;
                    if (!res.has_value())
                    {
                        const bool known = res.error() == TransportErrorc::kNotConnected || res.error() == TransportErrorc::kSendFailure ||
                                           res.error() == TransportErrorc::kTimeout;
                        VH_CHECK(known, "send-error", "sending failed for another reason than the connection");
                        VH_CHECK(style != 0 && style != 4, "send-refused", "sending failed although nothing was wrong (%s)", req ? "request" : "notification");
                        vh::count("sends_refused");
                        if (style != 2)
                        {
                            std::this_thread::sleep_for(std::chrono::milliseconds(20 + tr.below(100)));
                        }
                    }
                    if (style != 4)
                    {
                        vh::jitter(tr, 20);
                        if (style == 1 || style == 3)
                        {
                            std::this_thread::sleep_for(std::chrono::milliseconds(tr.below(40)));
                        }
                    }
                }
                --running;
            });
        }
    }
    const int events = style == 0 || style == 4 ? 0 : 2 + static_cast<int>(r.below(2));
    for (int e = 0; e < events && running > 0; ++e)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(50 + r.below(600)));
        auto& k = *relay[r.below(2)];
        if (style == 1)
        {
            cut = true;
            vh::count("cuts");
            if (r.chance(50))
            {
                k.cut();
            }
            else
            {
                k.cut_after(1 + static_cast<int>(r.below(400)));
            }
        }
        else if (style == 2)
        {
            vh::count("stalls");
            k.stall(40 + static_cast<int>(r.below(260)));
        }
    }
    {
        std::uint64_t last = 0;
        auto since = Clock::now();
        while (running > 0)
        {
            if (progress != last)
            {
                last = progress;
                since = Clock::now();
            }
            VH_CHECK(Clock::now() - since < std::chrono::seconds(40), "send-hangs", "no sender of either side got on for 40 s (style %d)", style);
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
    }
    for (auto& t : ts)
    {
        t.join();
    }
    // it works (again): a request of either side is acknowledged
    const bool broken = style == 1 || style == 3;
    std::vector<Sent> fence[2];
    for (int i = 0; i < 2; ++i)
    {
        const auto until = Clock::now() + std::chrono::seconds(40);
        for (int n = 0;; ++n)
        {
            auto x = build(make(side[i].key, 92, n, 2, true));
            const auto t0 = Clock::now();
            const auto res = side[i].t->SendRequest(*x);
            fence[i].push_back({n, true, res.has_value(), Clock::now() - t0 >= std::chrono::milliseconds(timeout - 1), 0});
            if (res.has_value())
            {
                break;
            }
            VH_CHECK(Clock::now() < until, "no-recovery", "gateway %d cannot send 40 s after the last disturbance (style %d)", i, style);
            std::this_thread::sleep_for(std::chrono::milliseconds(30));
        }
        if (broken)
        {
            vh::count("recovered");
        }
    }
    // everything handed over? (what was acknowledged is at least queued there)
    for (int i = 0; i < 2; ++i)
    {
        Side& to = side[1 - i];
        const int last = fence[i].back().n;
        const auto until = Clock::now() + std::chrono::seconds(40);
        for (;;)
        {
            bool seen = false;
            {
                std::lock_guard<std::mutex> l{to.m};
                for (auto it = to.got.rbegin(); it != to.got.rend() && !seen; ++it)
                {
                    seen = it->t == 92 && it->n == last;
                }
            }
            if (seen)
            {
                break;
            }
            VH_CHECK(Clock::now() < until, "acked-lost", "an acknowledged request was not handed over within 40 s");
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
    }
    // the handlers may still be sending: that ends, too
    if (nested)
    {
        std::uint64_t a = ~0ULL;
        while (a != side[0].handled + side[1].handled)
        {
            a = side[0].handled + side[1].handled;
            std::this_thread::sleep_for(std::chrono::milliseconds(30 + (style != 0 ? timeout : 0)));
        }
    }
    // one side goes first, or both at once, while the connection may be on its way down or up
    std::thread late;
    std::atomic<bool> go{true};
    if (r.chance(60))
    {
        late = std::thread{[&, lr = Rng{r.next()}]() mutable {
            for (int n = 1000; go && n < 3000; ++n)
            {
                auto x = build(make(side[0].key, 95, n, 5, true));
                (void)side[0].t->SendNotification(*x);
                vh::jitter(lr, 20);
            }
        }};
        vh::jitter(r, 80);
    }
    if (r.chance(30))
    {
        relay[r.below(2)]->cut();
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        vh::count("cut_before_shutdown");
        if (r.chance(50))
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(950 + r.below(250)));
        }
    }
    const int first = static_cast<int>(r.below(2));
    std::thread both;
    if (r.chance(40))
    {
        both = std::thread{[&] {
            VH_CHECK(within(30000, [&] { side[1 - first].t->Shutdown(); }), "shutdown-hangs", "Shutdown did not end within 30 s");
        }};
    }
    VH_CHECK(within(30000, [&] { side[first].t->Shutdown(); }), "shutdown-hangs", "Shutdown did not end within 30 s");
    side[first].down = true;
    go = false;
    if (late.joinable())
    {
        late.join();
    }
    if (both.joinable())
    {
        both.join();
    }
    for (auto& s : side)
    {
        VH_CHECK(within(30000, [&] { s.t.reset(); }), "shutdown-hangs", "the destructor did not end within 30 s");
    }
    // the books
    std::uint64_t dup = 0;
    for (int i = 0; i < 2; ++i)
    {
        Side& from = side[i];
        Side& to = side[1 - i];
        std::map<std::pair<int, int>, int> times;
        std::map<int, int> last;
        for (auto& g : to.got)
        {
            ++times[{g.t, g.n}];
            auto it = last.find(g.t);
            VH_CHECK(it == last.end() || it->second <= g.n, "order", "thread %d: message %d handed over after message %d (style %d)", g.t, g.n, it->second, style);
            last[g.t] = g.n;
        }
        auto judge = [&](int t, const Sent& s) {
            const int k = times.count({t, s.n}) ? times[{t, s.n}] : 0;
            VH_CHECK(!(s.ok && s.request) || k >= 1, "acked-lost", "request %d of thread %d was acknowledged and never handed over (style %d)", s.n, t, style);
            VH_CHECK(broken || !s.ok || k >= 1, "lost", "%s %d of thread %d was sent over a working connection and never handed over", s.request ? "request" : "notification", s.n, t);
            VH_CHECK(k <= 1 || (s.request && s.slow && k <= 5), "duplicate", "%s %d of thread %d was handed over %d times (style %d)", s.request ? "request" : "notification", s.n, t, k, style);
            VH_CHECK(s.ok || s.request || k == 0 || style == 1, "refused-arrived", "a notification that failed was handed over");
            dup += k > 1 ? 1 : 0;
            vh::eval();
        };
        for (std::size_t t = 0; t < from.sent.size(); ++t)
        {
            for (auto& s : from.sent[t])
            {
                judge(static_cast<int>(t), s);
            }
        }
        for (auto& s : fence[i])
        {
            judge(92, s);
        }
        for (auto& s : from.nested_sent)
        {
            judge(91, s);
        }
        vh::count("handed_over", to.got.size());
    }
    vh::count("repeated_requests", dup);
    vh::count("sessions");
    vh::count("sessions_style" + std::to_string(style));
    vh::count("connections", static_cast<std::uint64_t>(relay[0]->connections + relay[1]->connections));
    vh::distinct(vh::comb(vh::comb(static_cast<std::uint64_t>(style), relay[0]->bytes), side[0].handled));
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    (void)vh::scratch();
    ::signal(SIGPIPE, SIG_DFL);
    verif::g_fresh_fds = true;
    verif::g_os_hook = os_hook;
    Rng r{vh::seed()};
    Rng pr{vh::comb(vh::seed(), static_cast<std::uint64_t>(::getpid()))};
    claim_ports(pr);
    const std::string mode = vh::sarg("mode", "");
    if (mode == "" || mode == "parts")
    {
        for (int i = 0; i < 6; ++i)
        {
            codec(r);
            framing(r);
        }
        for (int i = 0; i < 3; ++i)
        {
            tracker(r);
        }
    }
    const int runs = static_cast<int>(vh::arg("runs", 5));
    const int only = static_cast<int>(vh::arg("style", 99));
    auto batch = [&](std::vector<int> styles) {
        std::vector<std::thread> ts;
        for (int s : styles)
        {
            ts.emplace_back([s, k = r.next()] { session(k, s); });
        }
        for (auto& t : ts)
        {
            t.join();
        }
    };
    if (mode == "parts")
    {
        vh::finish();
    }
    if (only != 99)
    {
        if (only == 3)
        {
            g_fault_every = 40;
        }
        batch(std::vector<int>(static_cast<std::size_t>(runs), only));
        vh::finish();
    }
    std::vector<int> s;
    for (int i = 0; i < runs; ++i)
    {
        s.push_back(i % 3);
    }
    batch(s);
    g_fault_every = static_cast<int>(20 + r.below(200));
    batch({3, 3, 3});
    g_fault_every = 0;
    batch({4});
    vh::finish();
}
