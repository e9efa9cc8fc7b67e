// Peers that do not keep to the protocol, sizes at and beyond every limit, and failing system calls: what reaches the
// callbacks is compared with what the byte stream means, and a well-behaved connection next to it must not notice.
#include "mp_util.h"

#include "score/message_passing/unix_domain/unix_domain_socket_address.h"

#include <dirent.h>
#include <poll.h>
#include <sys/socket.h>

namespace
{
using Addr = mp::detail::UnixDomainSocketAddress;
constexpr std::size_t kMax = 256;

unsigned open_fds()
{
    unsigned n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (d != nullptr && ::readdir(d) != nullptr)
    {
        ++n;
    }
    ::closedir(d);
    return n;
}
template <class F>
bool wait_for(F f, unsigned ms = 20000)
{
    const auto end = vh::now_ns() + ms * 1000000ULL;
    while (!f())
    {
        if (vh::now_ns() > end)
        {
            return false;
        }
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    return true;
}
void put(Bytes& b, std::uint8_t code, std::uint16_t size, const Bytes& payload)
{
    b.push_back(code);
    b.push_back(static_cast<std::uint8_t>(size & 0xFFU));
    b.push_back(static_cast<std::uint8_t>(size >> 8U));
    b.insert(b.end(), payload.begin(), payload.end());
}
Bytes noise(vh::Rng& r, std::size_t n)
{
    Bytes b(n);
    for (auto& x : b)
    {
        x = static_cast<std::uint8_t>(r.next());
    }
    return b;
}
struct Seen
{
    int code;
    Bytes data;
    bool operator==(const Seen& o) const { return code == o.code && data == o.data; }
};
// a byte stream made of frames, and what a receiver that keeps to the protocol makes of it
struct Script
{
    Bytes bytes;
    std::vector<Seen> expect;
    bool broken{false};  // the receiver has to drop the connection before the stream ends
    bool cut{false};     // ends within a frame
    std::string shape;
};
Script make_script(vh::Rng& r, std::uint64_t good_codes)
{
    Script s;
    const auto n = r.below(8);
    for (std::uint64_t i = 0; i < n && !s.broken && !s.cut; ++i)
    {
        const auto what = r.below(100);
        if (what < 70)
        {
            const std::size_t size = r.chance(15) ? 0 : (r.chance(15) ? kMax : r.range(1, kMax));
            const auto code = static_cast<std::uint8_t>(r.below(good_codes));
            const auto b = noise(r, size);
            put(s.bytes, code, static_cast<std::uint16_t>(size), b);
            s.expect.push_back({code, b});
            s.shape += size == 0 ? 'z' : size == kMax ? 'm' : 'f';
        }
        else if (what < 80)
        {
            // no such message
            put(s.bytes, static_cast<std::uint8_t>(r.range(2, 255)), 5, noise(r, 5));
            s.broken = true;
            s.shape += 'c';
        }
        else if (what < 90)
        {
            // announces more than the receiver has room for
            const std::size_t size = r.chance(50) ? kMax + 1 : r.range(kMax + 1, 65535);
            put(s.bytes, static_cast<std::uint8_t>(r.below(good_codes)), static_cast<std::uint16_t>(size), noise(r, r.chance(50) ? 20 : size));
            s.broken = true;
            s.shape += size == kMax + 1 ? 'o' : 'O';
        }
        else
        {
            Bytes f;
            const auto size = r.range(1, kMax);
            put(f, static_cast<std::uint8_t>(r.below(good_codes)), static_cast<std::uint16_t>(size), noise(r, size));
            f.resize(r.chance(50) ? r.range(1, 3) : r.range(3, f.size() - 1));
            s.shape += f.size() < 3 ? 'h' : 'p';
            s.bytes.insert(s.bytes.end(), f.begin(), f.end());
            s.cut = true;
        }
    }
    return s;
}
// in pieces, some of them byte by byte
void send_script(vh::Rng& r, int fd, const Bytes& b)
{
    std::size_t at = 0;
    const bool pieces = r.chance(50);
    while (at < b.size())
    {
        const std::size_t n = pieces ? std::min<std::size_t>(b.size() - at, r.range(1, r.chance(50) ? 3 : 40)) : b.size() - at;
        const auto k = ::send(fd, b.data() + at, n, MSG_NOSIGNAL);
        if (k <= 0)
        {
            return;  // dropped already
        }
        at += static_cast<std::size_t>(k);
        if (pieces && r.chance(30))
        {
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(150)));
        }
    }
}

struct Server
{
    std::shared_ptr<mp::Engine> engine;
    std::string name;
    score::cpp::pmr::unique_ptr<mp::IServer> server;
    std::mutex m;
    struct Conn
    {
        bool friendly{false};
        std::vector<Seen> seen;
        bool gone{false};
    };
    std::deque<Conn> conns;
    std::atomic<unsigned> connects{0}, gones{0};
    bool use_handler;
    struct Handler final : mp::IConnectionHandler
    {
        Handler(Server* s, Conn* c) : s_{s}, c_{c} {}
        score::cpp::expected_blank<Err> OnMessageSent(mp::IServerConnection& c, Span b) noexcept override { return s_->msg(c, c_, b, 0); }
        score::cpp::expected_blank<Err> OnMessageSentWithReply(mp::IServerConnection& c, Span b) noexcept override { return s_->msg(c, c_, b, 1); }
        void OnDisconnect(mp::IServerConnection&) noexcept override { s_->gone(c_); }
        Server* s_;
        Conn* c_;
    };
    Server(std::shared_ptr<mp::Engine> e, std::string n, bool handler, std::size_t size = kMax) : engine{std::move(e)}, name{std::move(n)}, use_handler{handler}
    {
        mp::ServerFactory f{engine};
        const auto z = static_cast<std::uint32_t>(size);
        server = f.Create(mp::ServiceProtocolConfig{name, z, z, z}, mp::IServerFactory::ServerConfig{});
    }
    ~Server() { server.reset(); }
    auto listen()
    {
        return server->StartListening(
            [this](auto&) -> score::cpp::expected<mp::UserData, Err> {
                std::lock_guard<std::mutex> l{m};
                conns.emplace_back();
                auto* c = &conns.back();
                ++connects;
                if (use_handler)
                {
                    return mp::UserData{score::cpp::pmr::make_unique<Handler>(score::cpp::pmr::get_default_resource(), this, c)};
                }
                return mp::UserData{static_cast<void*>(c)};
            },
            [this](auto& c) { gone(static_cast<Conn*>(std::get<void*>(c.GetUserData()))); },
            [this](auto& c, Span b) { return msg(c, static_cast<Conn*>(std::get<void*>(c.GetUserData())), b, 0); },
            [this](auto& c, Span b) { return msg(c, static_cast<Conn*>(std::get<void*>(c.GetUserData())), b, 1); });
    }
    void gone(Conn* c)
    {
        std::lock_guard<std::mutex> l{m};
        VH_CHECK(!c->gone, "disconnect-twice", "second disconnect callback of a connection");
        c->gone = true;
        ++gones;
    }
    score::cpp::expected_blank<Err> msg(mp::IServerConnection& s, Conn* c, Span b, int code)
    {
        {
            std::lock_guard<std::mutex> l{m};
            VH_CHECK(!c->gone, "callback-after-disconnect", "message of a connection that is gone");
            c->seen.push_back({code, Bytes(b.begin(), b.end())});
        }
        if (code == 1)
        {
            s.Reply(b);
        }
        return {};
    }
};

struct Good
{
    score::cpp::pmr::unique_ptr<mp::IClientConnection> c;
    std::mutex m;
    std::vector<State> states;
    std::atomic<bool> stopped{false};
    Good(std::shared_ptr<mp::Engine> e, const std::string& name, std::size_t size = kMax)
    {
        mp::ClientFactory f{std::move(e)};
        const auto z = static_cast<std::uint32_t>(size);
        c = f.Create(mp::ServiceProtocolConfig{name, z, z, z}, mp::IClientFactory::ClientConfig{4, 4, false, false, false});
    }
    void start()
    {
        c->Start([this](State s) { std::lock_guard<std::mutex> l{m}; states.push_back(s); stopped = s == State::kStopped; }, [](Span) {});
    }
    bool ready() { return wait_for([&] { return c->GetState() == State::kReady; }); }
    void ask(vh::Rng& r, std::uint64_t seq)
    {
        Head h{};
        h.client = 1;
        h.kind = 1;
        h.seq = seq;
        const auto b = make_msg(h, r.range(kHead, kMax));
        Bytes reply(kMax);
        auto res = c->SendWaitReply(Span{b.data(), b.size()}, {reply.data(), reply.size()});
        VH_CHECK(res.has_value(), "bystander-disturbed", "request of a well-behaved client failed with ", code_of(res.error()));
        VH_CHECK(Bytes(res.value().begin(), res.value().end()) == b, "bystander-reply", "well-behaved client got a different reply");
        vh::eval();
    }
};

int raw_connect(const std::string& name)
{
    const int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    Addr a{name, true};
    VH_NEED(fd >= 0 && ::connect(fd, a.data(), static_cast<socklen_t>(a.size())) == 0, "cannot connect to the server under test");
    return fd;
}

// ------------------------------------------------------------------------------------------------- hostile clients
void hostile_clients(std::uint64_t seed)
{
    vh::Rng r{seed};
    const auto name = unique_name("hc");
    auto se = make_engine();
    auto ce = make_engine();
    Server s{se, name, r.chance(50)};
    VH_CHECK(s.listen().has_value(), "listen", "StartListening failed");
    Good good{ce, name};
    good.start();
    VH_CHECK(good.ready(), "bystander-disturbed", "well-behaved client did not connect");
    std::atomic<bool> done{false};
    std::thread bystander([&, q = r.next()] {
        vh::Rng rr{q};
        for (std::uint64_t i = 0; !done.load(); ++i)
        {
            good.ask(rr, i);
            std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
        }
    });
    VH_CHECK(wait_for([&] { return s.connects.load() == 1; }), "connect-callback", "no connect callback");
    const auto rounds = r.range(20, 50);
    for (std::uint64_t i = 0; i < rounds; ++i)
    {
        const auto sc = make_script(r, 2);
        const int fd = raw_connect(name);
        const unsigned index = 1 + static_cast<unsigned>(i);
        VH_CHECK(wait_for([&] { return s.connects.load() == index + 1; }), "connect-callback", "no connect callback for connection ", index);
        send_script(r, fd, sc.bytes);
        ::shutdown(fd, SHUT_WR);
        // the answers to the requests, complete and in order, then the end of the stream
        Bytes got;
        for (;;)
        {
            struct pollfd pf
            {
                fd, POLLIN, 0
            };
            VH_CHECK(::poll(&pf, 1, 20000) == 1, "hostile-not-dropped", "server keeps the connection after script ", sc.shape);
            std::uint8_t buf[4096];
            const auto k = ::recv(fd, buf, sizeof buf, 0);
            if (k <= 0)
            {
                break;
            }
            got.insert(got.end(), buf, buf + k);
        }
        ::close(fd);
        VH_CHECK(wait_for([&] { return s.gones.load() == index; }), "disconnect-missing", "no disconnect callback after script ", sc.shape);
        Bytes want;
        {
            std::lock_guard<std::mutex> l{s.m};
            auto& c = s.conns[index];
            VH_CHECK(c.seen.size() == sc.expect.size(), "hostile-delivered", "script ", sc.shape, ": ", c.seen.size(), " messages delivered, ", sc.expect.size(), " sent completely");
            VH_CHECK(c.seen == sc.expect, "hostile-content", "script ", sc.shape, ": a delivered message differs");
            for (auto& x : sc.expect)
            {
                if (x.code == 1)
                {
                    put(want, 0, static_cast<std::uint16_t>(x.data.size()), x.data);
                }
            }
        }
        // data that is still unread at the server when it drops the connection may cost the sender the answers
        VH_CHECK(sc.broken ? (got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin())) : got == want, "hostile-replies",
                 "script ", sc.shape, ": ", got.size(), " bytes of replies instead of ", want.size());
        vh::eval();
        vh::count("hostile_connections");
        vh::count("hostile_messages", sc.expect.size());
        vh::distinct(vh::comb(1, vh::hash_str(sc.shape)));
    }
    done = true;
    bystander.join();
    good.c->Stop();
    VH_CHECK(wait_for([&] { return good.stopped.load(); }), "stop", "client does not stop");
    s.server->StopListening();
    VH_CHECK(s.connects.load() == s.gones.load(), "disconnect-missing", "connects ", s.connects.load(), " disconnects ", s.gones.load());
}

// -------------------------------------------------------------------------------------------------- hostile server
void hostile_server(std::uint64_t seed)
{
    vh::Rng r{seed};
    const auto name = unique_name("hs");
    const int ls = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    Addr a{name, true};
    VH_NEED(::bind(ls, a.data(), static_cast<socklen_t>(a.size())) == 0 && ::listen(ls, 20) == 0, "cannot listen");
    auto ce = make_engine();
    // a well-behaved pair on the same engine
    const auto gname = unique_name("hsg");
    auto se = make_engine();
    Server gs{se, gname, true};
    VH_CHECK(gs.listen().has_value(), "listen", "StartListening failed");
    Good good{ce, gname};
    good.start();
    VH_CHECK(good.ready(), "bystander-disturbed", "well-behaved client did not connect");
    const auto rounds = r.range(10, 30);
    for (std::uint64_t i = 0; i < rounds; ++i)
    {
        mp::ClientFactory f{ce};
        const bool fo = r.chance(50);
        const bool ta = r.chance(50);
        auto c = f.Create(mp::ServiceProtocolConfig{name, kMax, kMax, kMax}, mp::IClientFactory::ClientConfig{4, 4, fo, ta, false});
        std::mutex m;
        std::vector<Bytes> notes;
        std::vector<std::pair<int, Bytes>> replies;  // errno or 0
        std::atomic<bool> stopped{false};
        c->Start([&](State s) { stopped = s == State::kStopped; },
                 [&](Span b) { std::lock_guard<std::mutex> l{m}; notes.emplace_back(b.begin(), b.end()); });
        const int fd = ::accept4(ls, nullptr, nullptr, SOCK_CLOEXEC);
        VH_NEED(fd >= 0, "accept failed");
        VH_CHECK(wait_for([&] { return c->GetState() == State::kReady; }), "not-ready", "client does not get ready");
        std::vector<Bytes> want_notes;
        std::vector<std::pair<int, Bytes>> want_replies;
        Reason want = Reason::kClosedByPeer;
        std::string shape;
        const auto steps = r.below(8);
        bool broken = false;
        for (std::uint64_t k = 0; k < steps && !broken; ++k)
        {
            Bytes out;
            const auto what = r.below(100);
            const std::size_t size = r.chance(15) ? 0 : r.range(1, kMax);
            if (what < 35)
            {
                const auto b = noise(r, size);
                put(out, 1, static_cast<std::uint16_t>(size), b);
                want_notes.push_back(b);
                shape += 'n';
            }
            else if (what < 70)
            {
                // a request, answered with whatever
                const auto q = noise(r, r.range(1, kMax));
                auto res = c->SendWithCallback(Span{q.data(), q.size()}, [&](score::cpp::expected<Span, Err> e) {
                    std::lock_guard<std::mutex> l{m};
                    replies.emplace_back(e.has_value() ? 0 : code_of(e.error()), e.has_value() ? Bytes(e.value().begin(), e.value().end()) : Bytes{});
                });
                VH_CHECK(res.has_value(), "request-refused", "SendWithCallback failed with ", code_of(res.error()));
                Bytes in(3 + q.size());
                VH_CHECK(::recv(fd, in.data(), in.size(), MSG_WAITALL) == static_cast<ssize_t>(in.size()), "request-bytes", "request did not arrive");
                VH_CHECK(in[0] == 1 && in[1] + in[2] * 256U == q.size() && std::equal(q.begin(), q.end(), in.begin() + 3), "request-bytes", "request differs on the wire");
                if (r.chance(15))
                {
                    // goes away instead
                    want_replies.emplace_back(EPIPE, Bytes{});
                    shape += 'x';
                    break;
                }
                const auto b = noise(r, size);
                put(out, 0, static_cast<std::uint16_t>(size), b);
                want_replies.emplace_back(0, b);
                shape += 'r';
            }
            else if (what < 77)
            {
                put(out, 0, static_cast<std::uint16_t>(size), noise(r, size));  // nobody asked
                broken = true;
                want = Reason::kIoError;
                shape += 'u';
            }
            else if (what < 84)
            {
                put(out, static_cast<std::uint8_t>(r.range(2, 255)), 3, noise(r, 3));
                broken = true;
                want = Reason::kIoError;
                shape += 'c';
            }
            else if (what < 91)
            {
                const std::size_t big = r.chance(50) ? kMax + 1 : r.range(kMax + 1, 65535);
                put(out, static_cast<std::uint8_t>(r.below(2)), static_cast<std::uint16_t>(big), noise(r, r.chance(50) ? 0 : big));
                broken = true;
                want = Reason::kIoError;
                shape += 'o';
            }
            else
            {
                put(out, 1, static_cast<std::uint16_t>(kMax), noise(r, kMax));
                out.resize(r.chance(50) ? r.range(1, 3) : r.range(3, out.size() - 1));
                broken = true;
                want = Reason::kIoError;
                shape += out.size() < 3 ? 'h' : 'p';
            }
            send_script(r, fd, out);
            if (!broken && shape.back() == 'r')
            {
                VH_CHECK(wait_for([&] { std::lock_guard<std::mutex> l{m}; return replies.size() == want_replies.size(); }), "reply-missing", "no reply callback after ", shape);
            }
        }
        ::close(fd);
        VH_CHECK(wait_for([&] { return stopped.load(); }), "hostile-not-dropped", "client stays connected after ", shape);
        {
            std::lock_guard<std::mutex> l{m};
            VH_CHECK(notes == want_notes, "notifications", "script ", shape, ": ", notes.size(), " notifications instead of ", want_notes.size(), " or different ones");
            VH_CHECK(replies == want_replies, "replies", "script ", shape, ": ", replies.size(), " completions instead of ", want_replies.size(), " or different ones");
        }
        VH_CHECK(c->GetStopReason() == want, "stop-reason", "script ", shape, ": reason ", static_cast<int>(c->GetStopReason()), " instead of ", static_cast<int>(want));
        VH_CHECK(c->Send(Span{}).has_value() == false, "send-after-stop", "Send succeeds on a stopped connection");
        c.reset();
        good.ask(r, i);
        vh::eval();
        vh::count("hostile_sessions");
        vh::distinct(vh::comb(2, vh::hash_str(shape)));
    }
    ::close(ls);
    good.c->Stop();
    VH_CHECK(wait_for([&] { return good.stopped.load(); }), "stop", "client does not stop");
}

// ---------------------------------------------------------------------------------------------------------- limits
void limits(std::uint64_t seed)
{
    vh::Rng r{seed};
    const std::uint32_t sizes[] = {0, 1, 2, 255, 256, 257, 4096, 65534, 65535, 65536, 70000, 131072};
    const auto smax = sizes[r.below(std::size(sizes))];
    const auto rmax = sizes[r.below(std::size(sizes))];
    const auto nmax = sizes[r.below(std::size(sizes))];
    const auto name = unique_name("lim");
    auto se = make_engine();
    auto ce = r.chance(70) ? make_engine() : se;
    std::mutex m;
    std::vector<Seen> seen;
    std::vector<std::size_t> to_reply;  // sizes to try
    std::vector<Bytes> notes;
    std::vector<Bytes> sent_notes;
    vh::Rng cr{r.next()};
    Bytes last_reply;
    mp::ServerFactory f{se};
    auto server = f.Create(mp::ServiceProtocolConfig{name, smax, rmax, nmax}, mp::IServerFactory::ServerConfig{});
    std::vector<std::size_t> tries;
    auto candidates = [](std::uint32_t mx) {
        std::vector<std::size_t> v{0, 1, mx, mx + 1U, mx + 65536U, 65535, 65536, 65536U + mx / 2U};
        if (mx > 0)
        {
            v.push_back(mx - 1U);
            v.push_back(mx / 2U);
        }
        return v;
    };
    auto ok = [](std::size_t n, std::uint32_t mx) { return n <= mx && n <= 65535; };
    auto started = server->StartListening(
        [](auto&) -> score::cpp::expected<mp::UserData, Err> { return mp::UserData{}; }, [](auto&) {},
        [&](auto& c, Span b) -> score::cpp::expected_blank<Err> {
            std::lock_guard<std::mutex> l{m};
            seen.push_back({0, Bytes(b.begin(), b.end())});
            // every notification size
            for (auto n : candidates(nmax))
            {
                auto x = noise(cr, n);
                auto res = c.Notify(Span{x.data(), x.size()});
                VH_CHECK(res.has_value() == ok(n, nmax), "notify-limit", "Notify of ", n, " bytes with a maximum of ", nmax, res.has_value() ? " succeeded" : " failed");
                VH_CHECK(res.has_value() || code_of(res.error()) == EMSGSIZE, "notify-limit", "error ", code_of(res.error()));
                if (res.has_value())
                {
                    sent_notes.push_back(x);
                }
                vh::eval();
            }
            return {};
        },
        [&](auto& c, Span b) -> score::cpp::expected_blank<Err> {
            std::lock_guard<std::mutex> l{m};
            seen.push_back({1, Bytes(b.begin(), b.end())});
            for (;;)
            {
                const auto n = cr.pick(tries);
                auto x = noise(cr, n);
                auto res = c.Reply(Span{x.data(), x.size()});
                VH_CHECK(res.has_value() == ok(n, rmax), "reply-limit", "Reply of ", n, " bytes with a maximum of ", rmax, res.has_value() ? " succeeded" : " failed");
                VH_CHECK(res.has_value() || code_of(res.error()) == EMSGSIZE, "reply-limit", "error ", code_of(res.error()));
                vh::eval();
                if (res.has_value())
                {
                    last_reply = x;
                    return {};
                }
            }
        });
    tries = candidates(rmax);
    VH_CHECK(started.has_value(), "listen", "StartListening failed");
    mp::ClientFactory cf{ce};
    const bool fo = r.chance(50);
    const bool ta = r.chance(50);
    auto c = cf.Create(mp::ServiceProtocolConfig{name, smax, rmax, nmax}, mp::IClientFactory::ClientConfig{2, 4, fo, ta, false});
    std::atomic<bool> stopped{false};
    c->Start([&](State s) { stopped = s == State::kStopped; }, [&](Span b) { std::lock_guard<std::mutex> l{m}; notes.emplace_back(b.begin(), b.end()); });
    VH_CHECK(wait_for([&] { return c->GetState() == State::kReady; }), "not-ready", "client does not get ready");
    std::vector<Seen> want;
    for (auto n : candidates(smax))
    {
        const auto b = noise(r, n);
        // truly_async accepts what fits the maximum and finds out later that the transport cannot carry it
        const bool fits = ta ? n <= smax : ok(n, smax);
        if (ta && fits && n > 65535)
        {
            continue;
        }
        const auto kind = r.below(3);
        int err = 0;
        bool fine = false;
        if (kind == 0)
        {
            auto res = c->Send(Span{b.data(), b.size()});
            fine = res.has_value();
            err = fine ? 0 : code_of(res.error());
        }
        else if (kind == 1)
        {
            std::atomic<int> fired{0};
            auto res = c->SendWithCallback(Span{b.data(), b.size()}, [&](score::cpp::expected<Span, Err> e) {
                VH_CHECK(e.has_value(), "reply-error", "request failed with ", code_of(e.error()));
                std::lock_guard<std::mutex> l{m};
                VH_CHECK(Bytes(e.value().begin(), e.value().end()) == last_reply, "reply-bytes", "reply differs");
                ++fired;
            });
            fine = res.has_value();
            err = fine ? 0 : code_of(res.error());
            VH_CHECK(!fine || wait_for([&] { return fired.load() == 1; }), "reply-missing", "no reply to a request of ", n);
        }
        else
        {
            Bytes room(r.chance(50) ? rmax : r.below(rmax + 1));
            Bytes guard = room;
            auto res = c->SendWaitReply(Span{b.data(), b.size()}, {room.data(), room.size()});
            if (fits)
            {
                std::lock_guard<std::mutex> l{m};
                const bool enough = last_reply.size() <= room.size();
                VH_CHECK(res.has_value() == enough, "reply-room", "reply of ", last_reply.size(), " bytes into a buffer of ", room.size());
                if (enough)
                {
                    VH_CHECK(Bytes(res.value().begin(), res.value().end()) == last_reply, "reply-bytes", "reply differs");
                    VH_CHECK(last_reply.empty() || res.value().data() == room.data(), "reply-place", "reply is not in the caller's buffer");
                }
                else
                {
                    VH_CHECK(code_of(res.error()) == EMSGSIZE, "reply-room", "error ", code_of(res.error()));
                    VH_CHECK(room == guard, "reply-room", "buffer written although the reply does not fit");
                }
                fine = true;
            }
            else
            {
                fine = res.has_value();
                err = fine ? 0 : code_of(res.error());
            }
        }
        VH_CHECK(fine == fits, "send-limit", "message of ", n, " bytes with a maximum of ", smax, fine ? " accepted" : " refused", " error ", err);
        VH_CHECK(fine || err == EMSGSIZE, "send-limit", "error ", err);
        if (fine)
        {
            want.push_back({kind == 0 ? 0 : 1, b});
        }
        VH_CHECK(wait_for([&] { std::lock_guard<std::mutex> l{m}; return seen.size() >= want.size() && notes.size() >= sent_notes.size(); }), "limit-lost", "messages missing");
        vh::eval();
        vh::distinct(vh::comb(vh::comb(3, n * 4 + kind), vh::comb(smax, vh::comb(rmax, nmax * 4U + fo * 2U + ta))));
    }
    VH_CHECK(c->GetState() == State::kReady, "limit-dropped", "connection is gone");
    c->Stop();
    VH_CHECK(wait_for([&] { return stopped.load(); }), "stop", "client does not stop");
    server->StopListening();
    VH_CHECK(seen == want, "limit-content", "delivered messages differ from the accepted ones");
    VH_CHECK(notes == sent_notes, "limit-notify-content", "delivered notifications differ from the accepted ones");
    vh::count("limit_configurations");
}

// ---------------------------------------------------------------------------------------------------------- faults
std::atomic<int> g_fail_errno{0};
std::atomic<int> g_fail_in{-1};
std::atomic<int> g_fired{0};
const char* g_fail_op = "";
int fault(const char* op, const char*, int)
{
    if (std::strcmp(op, g_fail_op) == 0 && g_fail_in.load() >= 0 && g_fail_in.fetch_sub(1) == 0)
    {
        ++g_fired;
        return g_fail_errno.load();
    }
    return 0;
}
void faults(std::uint64_t seed)
{
    vh::Rng r{seed};
    struct F
    {
        const char* op;
        std::vector<int> errs;
    };
    static const std::vector<F> kinds = {{"socket", {EMFILE, ENFILE, ENOMEM}},
                                         {"bind", {EADDRINUSE, EACCES, ENOMEM}},
                                         {"listen", {EADDRINUSE, EOPNOTSUPP}},
                                         {"accept", {EMFILE, ECONNABORTED, EINTR, ENOMEM, EAGAIN}},
                                         {"getsockopt", {ENOBUFS, EINVAL}},
                                         {"connect", {EACCES, ECONNREFUSED, EAGAIN, ENOENT, ETIMEDOUT, EINTR}},
                                         {"sendmsg", {EPIPE, ECONNRESET, ENOBUFS, EINTR, ENOMEM}},
                                         {"recvmsg", {ECONNRESET, EIO, ENOMEM, EAGAIN}}};
    const auto& k = kinds[r.below(kinds.size())];
    const unsigned fds = open_fds();
    {
        const auto name = unique_name("flt");
        auto se = make_engine();
        auto ce = make_engine();
        Server s{se, name, r.chance(50)};
        g_fail_op = k.op;
        g_fail_errno = k.errs[r.below(k.errs.size())];
        const std::string op = k.op;
        const bool wire = op == "sendmsg" || op == "recvmsg";
        g_fail_in = static_cast<int>(r.below(wire ? 12 : 4));
        g_fired = 0;
        verif::g_os_hook.store(&fault);
        for (unsigned i = 0;; ++i)
        {
            const int before = g_fired.load();
            auto res = s.listen();
            if (res.has_value())
            {
                VH_CHECK(g_fired.load() == before || op == "accept", "fault-hidden", "StartListening succeeds although ", op, " failed");
                break;
            }
            VH_CHECK(g_fired.load() != before && code_of(res.error()) == g_fail_errno.load(), "fault-error", "StartListening reports ", code_of(res.error()), " for ", op, "=", g_fail_errno.load());
            VH_CHECK(i < 3, "fault-stuck", "StartListening keeps failing");
        }
        unsigned sessions = 0;
        std::uint64_t seq = 0;
        Good a{ce, name};
        Good b{ce, name};
        a.start();
        b.start();
        unsigned rounds = 0;
        while (rounds < 3 + sessions && rounds < 12)
        {
            for (Good* g : {&a, &b})
            {
                VH_CHECK(wait_for([&] { return g->c->GetState() == State::kReady || g->c->GetState() == State::kStopped; }), "fault-stuck", "client neither ready nor stopped after ", op, "=", g_fail_errno.load());
                if (g->c->GetState() == State::kStopped)
                {
                    VH_CHECK(g_fired.load() > 0, "fault-none", "connection stopped without a fault");
                    const auto why = g->c->GetStopReason();
                    VH_CHECK(why == (op == "connect" && g_fail_errno == EACCES ? Reason::kPermission : why) && why != Reason::kUserRequested, "fault-reason", "stop reason ", static_cast<int>(why), " for ", op, "=", g_fail_errno.load());
                    VH_CHECK(!(op == "connect" && (g_fail_errno == ECONNREFUSED || g_fail_errno == EAGAIN || g_fail_errno == ENOENT)), "fault-no-retry", "connection gives up although the server may come later");
                    VH_CHECK(wait_for([&] { return g->stopped.load(); }), "fault-no-callback", "no Stopped callback");
                    VH_CHECK(sessions < 3, "fault-stuck", "connections keep stopping");
                    ++sessions;
                    g->c->Restart();
                    continue;
                }
                Head h{};
                h.client = g == &a ? 1 : 2;
                h.kind = 1;
                h.seq = ++seq;
                const auto msg = make_msg(h, r.range(kHead, kMax));
                Bytes reply(kMax);
                const int before = g_fired.load();
                if (r.chance(40))
                {
                    auto res = g->c->Send(Span{msg.data(), msg.size()});
                    // the fault may have hit anybody in the meantime
                    VH_CHECK(res.has_value() || g_fired.load() > 0, "fault-none", "Send fails with ", code_of(res.error()), " without a fault");
                    vh::count(res.has_value() ? "fault_sends_ok" : "fault_sends_failed");
                }
                else
                {
                    // if the server's reply is lost to the fault the client cannot know; do not wait for it forever
                    const bool reply_may_vanish = op == "sendmsg";
                    std::atomic<int> fired{0};
                    std::shared_ptr<std::atomic<int>> alive = std::make_shared<std::atomic<int>>(0);
                    auto keep = std::make_shared<Bytes>(msg);
                    auto res = g->c->SendWithCallback(Span{msg.data(), msg.size()}, [alive, keep](score::cpp::expected<Span, Err> e) {
                        VH_CHECK(!e.has_value() || Bytes(e.value().begin(), e.value().end()) == *keep, "fault-reply", "wrong reply next to a fault");
                        VH_CHECK(alive->fetch_add(1) == 0, "fault-twice", "request completed twice");
                    });
                    if (res.has_value() && !wait_for([&] { return alive->load() == 1; }, reply_may_vanish && before == 0 ? 700 : 20000))
                    {
                        VH_CHECK(reply_may_vanish && g_fired.load() > 0, "fault-no-reply", "request never completes after ", op, "=", g_fail_errno.load());
                        vh::count("fault_replies_lost");
                        g->c->Stop();
                        VH_CHECK(wait_for([&] { return g->stopped.load(); }), "fault-stuck", "client does not stop");
                        VH_CHECK(alive->load() == 1, "fault-no-reply", "request not completed by Stop");
                        g->stopped = false;
                        g->c->Restart();
                    }
                }
                vh::eval();
            }
            ++rounds;
        }
        g_fail_in = -1;
        verif::g_os_hook.store(nullptr);
        // and everything works again
        for (Good* g : {&a, &b})
        {
            if (g->c->GetState() == State::kStopped)
            {
                VH_CHECK(wait_for([&] { return g->stopped.load(); }), "fault-no-callback", "no Stopped callback");
                g->c->Restart();
            }
            VH_CHECK(wait_for([&] { return g->c->GetState() != State::kStarting; }), "fault-stuck", "client does not get ready");
        }
        // (a connection whose server side was dropped notices it a moment later)
        for (Good* g : {&a, &b})
        {
            bool fine = false;
            for (unsigned i = 0; i < 50 && !fine; ++i)
            {
                Head h{};
                h.client = g == &a ? 1 : 2;
                h.kind = 1;
                h.seq = ++seq;
                const auto msg = make_msg(h, kMax);
                Bytes reply(kMax);
                auto res = g->c->SendWaitReply(Span{msg.data(), msg.size()}, {reply.data(), reply.size()});
                fine = res.has_value();
                VH_CHECK(!fine || Bytes(res.value().begin(), res.value().end()) == msg, "fault-reply", "wrong reply after a fault");
                if (!fine)
                {
                    VH_CHECK(g_fired.load() > 0, "fault-none", "request fails without a fault");
                    wait_for([&] { return g->c->GetState() == State::kStopped || g->c->GetState() == State::kReady; }, 2000);
                    if (g->c->GetState() == State::kStopped)
                    {
                        wait_for([&] { return g->stopped.load(); });
                        g->c->Restart();
                    }
                    wait_for([&] { return g->c->GetState() == State::kReady; }, 2000);
                }
            }
            VH_CHECK(fine, "fault-stuck", "connection does not recover from ", op, "=", g_fail_errno.load());
        }
        a.c->Stop();
        b.c->Stop();
        VH_CHECK(wait_for([&] { return a.stopped.load() && b.stopped.load(); }), "stop", "client does not stop");
        s.server->StopListening();
        VH_CHECK(s.connects.load() == s.gones.load(), "disconnect-missing", "connects ", s.connects.load(), " disconnects ", s.gones.load());
        vh::count("faults_fired", static_cast<std::uint64_t>(g_fired.load()));
        vh::distinct(vh::comb(4, vh::comb(vh::hash_str(op), static_cast<std::uint64_t>(g_fail_errno.load() * 2 + (g_fired.load() > 0)))));
    }
    VH_CHECK(open_fds() == fds, "fd-leak", "descriptors before ", fds, ", after ", open_fds(), " with ", k.op, "=", g_fail_errno.load());
}

// A peer that stops in the middle of a message (its own job: the finding it shows is recorded)
void stalled(std::uint64_t seed)
{
    vh::Rng r{seed};
    const auto name = unique_name("st");
    auto se = make_engine();
    auto ce = make_engine();
    Server s{se, name, true};
    VH_CHECK(s.listen().has_value(), "listen", "StartListening failed");
    Good good{ce, name};
    good.start();
    VH_CHECK(good.ready(), "bystander-disturbed", "well-behaved client did not connect");
    good.ask(r, 1);
    const int fd = raw_connect(name);
    const std::uint8_t half[2] = {0, 10};
    VH_NEED(::send(fd, half, 2, 0) == 2, "send failed");
    VH_CHECK(wait_for([&] { return s.connects.load() == 2; }), "connect-callback", "no connect callback");
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    const auto q = noise(r, 20);
    std::atomic<bool> answered{false};
    auto res = good.c->SendWithCallback(Span{q.data(), q.size()}, [&](auto) { answered = true; });
    VH_CHECK(res.has_value(), "bystander-disturbed", "request failed");
    const bool soon = wait_for([&] { return answered.load(); }, 1500);
    ::close(fd);
    VH_CHECK(wait_for([&] { return answered.load(); }), "bystander-disturbed", "request never answered");
    good.c->Stop();
    VH_CHECK(wait_for([&] { return good.stopped.load(); }), "stop", "client does not stop");
    s.server->StopListening();
    vh::eval();
    VH_CHECK(soon, "stalled-peer-blocks-server", "while one peer stops in the middle of a message, requests of other clients are not served");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::scratch();
    verif::g_fresh_fds.store(true);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 6);
    const auto mode = vh::sarg("mode", "all");
    if (mode == "stalled")
    {
        stalled(r.next());
        vh::sample("one peer sends two bytes of a three-byte header and waits");
        vh::finish();
    }
    for (std::uint64_t i = 0; i < n; ++i)
    {
        if (mode == "all" || mode == "clients")
        {
            hostile_clients(r.next());
        }
        if (mode == "all" || mode == "server")
        {
            hostile_server(r.next());
        }
        if (mode == "all" || mode == "limits")
        {
            limits(r.next());
            limits(r.next());
        }
        if (mode == "all" || mode == "faults")
        {
            faults(r.next());
            faults(r.next());
            faults(r.next());
        }
    }
    vh::sample("frames: zfm = complete message (empty, any, maximum), c = unknown kind, oO = announced too long, h/p = cut in header/payload");
    vh::finish();
}
