// One-way messages, requests with replies and notifications between real clients and a real server over the operating
// system's sockets. Every message says who sent it as which number of which kind; the receiving side checks it against
// what was accepted for sending.
//   --mode oneway : sends (and notifications) dominate      --mode request : requests dominate
#include "mp_util.h"

namespace
{
struct PerKind
{
    std::uint64_t next{0};
};
struct Flow
{
    std::mutex m;
    // (client, thread, kind) -> next expected number, as the server saw it
    std::map<std::tuple<unsigned, unsigned, unsigned>, PerKind> seen;
    std::map<std::pair<unsigned, unsigned>, std::uint64_t> all_seen;
};
struct Conf
{
    bool fo, ta, sync, handler, shared_engine, deferred, notify, conc_notify;
    unsigned clients, threads, ops;
    std::uint32_t max_send, max_reply, max_notify, queued, async;
};
struct ConnInfo
{
    mp::IServerConnection* conn{nullptr};
    std::optional<std::uint32_t> client;  // first message tells
};

class Server
{
  public:
    Server(const Conf& c, const std::string& name, std::shared_ptr<mp::Engine> e, std::uint64_t seed)
        : c_{c}, name_{name}, rng_{seed}, factory_{std::move(e)}
    {
        mp::ServiceProtocolConfig p{name_, c.max_send, c.max_reply, c.max_notify};
        server_ = factory_.Create(p, mp::IServerFactory::ServerConfig{static_cast<std::uint32_t>(rng_.below(8)), static_cast<std::uint32_t>(rng_.below(4)), static_cast<std::uint32_t>(rng_.below(8))});
    }
    void start()
    {
        auto r = server_->StartListening(
            [this](mp::IServerConnection& conn) -> score::cpp::expected<mp::UserData, Err> {
                Guard g{this};
                auto* i = new ConnInfo{&conn, {}};
                {
                    std::lock_guard<std::mutex> l{m_};
                    conns_[&conn] = i;
                }
                const auto id = conn.GetClientIdentity();
                VH_CHECK(id.pid == ::getpid() && id.uid == ::getuid(), "client-identity", "peer pid ", id.pid);
                if (c_.handler)
                {
                    return mp::UserData{score::cpp::pmr::make_unique<Handler>(score::cpp::pmr::get_default_resource(), this, i)};
                }
                return mp::UserData{static_cast<void*>(i)};
            },
            [this](mp::IServerConnection& conn) { gone(conn, static_cast<ConnInfo*>(std::get<void*>(conn.GetUserData()))); },
            [this](mp::IServerConnection& conn, Span m) { return on_send(conn, static_cast<ConnInfo*>(std::get<void*>(conn.GetUserData())), m); },
            [this](mp::IServerConnection& conn, Span m) { return on_request(conn, static_cast<ConnInfo*>(std::get<void*>(conn.GetUserData())), m); });
        VH_NEED(r.has_value(), "StartListening");
        if (c_.deferred)
        {
            replier_ = std::thread{[this] { reply_loop(); }};
        }
    }
    void stop()
    {
        if (replier_.joinable())
        {
            {
                std::lock_guard<std::mutex> l{m_};
                quit_ = true;
            }
            cv_.notify_all();
            replier_.join();
        }
        server_->StopListening();
        VH_CHECK(conns_.empty(), "disconnect-missing", conns_.size(), " connections had no disconnect callback when StopListening returned");
    }
    // one notification to the connection of this client
    bool notify(unsigned client, unsigned thread, std::uint64_t seq, std::size_t len)
    {
        std::lock_guard<std::mutex> l{m_};
        for (auto& x : conns_)
        {
            if (x.second->client && *x.second->client == client)
            {
                const Bytes b = make_msg(Head{0, static_cast<std::uint16_t>(client), static_cast<std::uint16_t>(thread), 0, 3, seq, seq, 0, 0}, len);
                mp::IServerConnection* conn = x.second->conn;
                m_.unlock();  // the connection outlives the notifiers in this workload
                auto r = conn->Notify({b.data(), b.size()});
                m_.lock();
                VH_CHECK(r.has_value(), "notify-refused", "Notify of ", len, " bytes failed with ", code_of(r.error()));
                return true;
            }
        }
        return false;
    }
    mp::IServerConnection* any_conn()
    {
        std::lock_guard<std::mutex> l{m_};
        return conns_.empty() ? nullptr : conns_.begin()->second->conn;
    }
    Flow flow;

  private:
    struct Guard
    {
        explicit Guard(Server* s) : s_{s}
        {
            VH_CHECK(s_->inside_.fetch_add(1) == 0, "server-callbacks-concurrent", "two callbacks of one server ran at the same time");
        }
        ~Guard() { s_->inside_.fetch_sub(1); }
        Server* s_;
    };
    class Handler final : public mp::IConnectionHandler
    {
      public:
        Handler(Server* s, ConnInfo* i) : s_{s}, i_{i} {}
        score::cpp::expected_blank<Err> OnMessageSent(mp::IServerConnection& c, Span m) noexcept override { return s_->on_send(c, i_, m); }
        score::cpp::expected_blank<Err> OnMessageSentWithReply(mp::IServerConnection& c, Span m) noexcept override { return s_->on_request(c, i_, m); }
        void OnDisconnect(mp::IServerConnection& c) noexcept override { s_->gone(c, i_); }

      private:
        Server* s_;
        ConnInfo* i_;
    };
    void gone(mp::IServerConnection& conn, ConnInfo* i)
    {
        Guard g{this};
        std::unique_lock<std::mutex> l{m_};
        // a connection may not go away under a Reply still running on it: ours to see to
        cv_.wait(l, [&] { return busy_ != &conn; });
        VH_CHECK(conns_.erase(&conn) == 1, "disconnect-twice", "disconnect callback for a connection that is not connected");
        delete i;
    }
    Head accept(mp::IServerConnection& conn, ConnInfo* i, Span m, unsigned kind)
    {
        std::string why;
        auto h = parse_msg(m.data(), m.size(), why);
        VH_CHECK(h.has_value(), "message-damaged", "kind ", kind, ": ", why);
        VH_CHECK(h->kind == kind, "message-kind", "sent as kind ", h->kind, ", delivered as ", kind);
        {
            std::lock_guard<std::mutex> l{m_};
            VH_CHECK(conns_.count(&conn) == 1, "message-unconnected", "message on a connection that is not connected");
            if (!i->client)
            {
                i->client = h->client;
            }
        }
        VH_CHECK(*i->client == h->client, "message-wrong-connection", "client ", h->client, " on the connection of ", *i->client);
        std::lock_guard<std::mutex> l{flow.m};
        auto& n = flow.seen[{h->client, h->thread, kind}].next;
        VH_CHECK(h->seq == n, "message-order", "client ", h->client, " thread ", h->thread, " kind ", kind, ": expected number ", n, ", got ", h->seq);
        ++n;
        auto& a = flow.all_seen[{h->client, h->thread}];
        if (c_.fo)
        {
            VH_CHECK(h->all == a, "message-total-order", "fully ordered client ", h->client, " thread ", h->thread, ": expected ", a, ", got ", h->all);
        }
        ++a;
        vh::eval();
        vh::distinct(vh::comb(vh::comb(kind * 31U + h->thread, static_cast<std::uint64_t>(m.size() / 64U)), vh::comb(static_cast<std::uint64_t>(c_.fo * 2 + c_.ta), vh::hash_str(last_))));
        last_ = vh::str(h->client, kind, last_.substr(0, 8));
        return *h;
    }
    score::cpp::expected_blank<Err> on_send(mp::IServerConnection& conn, ConnInfo* i, Span m)
    {
        Guard g{this};
        if (m.size() == 0)
        {
            empty_sends.fetch_add(1);
            return {};
        }
        (void)accept(conn, i, m, 0);
        vh::jitter(rng_, 10);
        if (vh::arg("slow", 0) != 0)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(rng_.below(vh::arg("slow", 0))));
        }
        return {};
    }
    Bytes reply_for(const Head& h)
    {
        const std::size_t len = kHead + vh::mix(h.seq * 77U + h.client) % (c_.max_reply - kHead + 1);
        Head r = h;
        r.kind = 2;
        return make_msg(r, len);
    }
    score::cpp::expected_blank<Err> on_request(mp::IServerConnection& conn, ConnInfo* i, Span m)
    {
        Guard g{this};
        const Head h = accept(conn, i, m, 1);
        VH_CHECK(pending_.insert(&conn).second, "request-before-reply", "a request was handed out while the one before is unanswered");
        if (c_.deferred && h.seq % 2 == 0)
        {
            std::lock_guard<std::mutex> l{m_};
            todo_.push_back({&conn, reply_for(h)});
            cv_.notify_all();
            pending_.erase(&conn);  // the client side allows only one; checked through the numbers
            return {};
        }
        if (h.seq % 5 == 1)
        {
            // too long an answer is refused and does not reach the client
            const Bytes big(c_.max_reply + 1, 0x77);
            auto r = conn.Reply({big.data(), big.size()});
            VH_CHECK(!r.has_value() && code_of(r.error()) == EMSGSIZE, "reply-oversize", "Reply of ", big.size(), " bytes, limit ", c_.max_reply);
        }
        pending_.erase(&conn);
        const Bytes b = reply_for(h);
        auto r = conn.Reply({b.data(), b.size()});
        VH_CHECK(r.has_value(), "reply-refused", "Reply failed with ", code_of(r.error()));
        return {};
    }
    void reply_loop()
    {
        vh::Rng r{loop_seed_};
        for (;;)
        {
            std::pair<mp::IServerConnection*, Bytes> t;
            {
                std::unique_lock<std::mutex> l{m_};
                cv_.wait(l, [&] { return quit_ || !todo_.empty(); });
                if (todo_.empty())
                {
                    return;
                }
                t = std::move(todo_.front());
                todo_.pop_front();
                busy_ = t.first;
            }
            vh::jitter(r, 40);
            auto x = t.first->Reply({t.second.data(), t.second.size()});
            VH_CHECK(x.has_value(), "reply-refused", "deferred Reply failed with ", code_of(x.error()));
            std::lock_guard<std::mutex> l{m_};
            busy_ = nullptr;
            cv_.notify_all();
        }
    }

  public:
    std::atomic<std::uint64_t> empty_sends{0};

  private:
    Conf c_;
    std::string name_;
    vh::Rng rng_;
    std::uint64_t loop_seed_{rng_.next()};
    mp::ServerFactory factory_;
    score::cpp::pmr::unique_ptr<mp::IServer> server_;
    std::mutex m_;
    std::condition_variable cv_;
    std::unordered_map<mp::IServerConnection*, ConnInfo*> conns_;
    std::set<mp::IServerConnection*> pending_;
    std::deque<std::pair<mp::IServerConnection*, Bytes>> todo_;
    bool quit_{false};
    mp::IServerConnection* busy_{nullptr};
    std::thread replier_;
    std::atomic<int> inside_{0};
    std::string last_;
};

struct Client
{
    Conf c;
    unsigned id;
    std::string name;
    score::cpp::pmr::unique_ptr<mp::IClientConnection> conn;
    std::mutex m;
    std::condition_variable cv;
    bool ready{false}, stopped{false};
    std::map<unsigned, std::uint64_t> notif_next;
    std::atomic<std::uint64_t> notif_seen{0};
    std::atomic<std::uint64_t> accepted_async{0}, done_async{0};
    std::vector<std::uint64_t> thread_send, thread_req;  // accepted numbers, per thread
    std::atomic<std::uint64_t> empties{0};

    Client(const Conf& cc, unsigned i, const std::string& n, std::shared_ptr<mp::Engine> e) : c{cc}, id{i}, name{n}, thread_send(cc.threads), thread_req(cc.threads)
    {
        mp::ClientFactory f{std::move(e)};
        conn = f.Create(mp::ServiceProtocolConfig{name, c.max_send, c.max_reply, c.max_notify}, mp::IClientFactory::ClientConfig{c.async, c.queued, c.fo, c.ta, c.sync});
    }
    void start()
    {
        conn->Start(
            [this](State s) {
                std::lock_guard<std::mutex> l{m};
                ready = ready || s == State::kReady;
                stopped = s == State::kStopped;
                cv.notify_all();
            },
            [this](Span n) { on_notify(n); });
        std::unique_lock<std::mutex> l{m};
        cv.wait(l, [&] { return ready; });
    }
    void on_notify(Span n)
    {
        std::string why;
        auto h = parse_msg(n.data(), n.size(), why);
        VH_CHECK(h.has_value(), "notification-damaged", why);
        VH_CHECK(h->kind == 3 && h->client == id, "notification-foreign", "kind ", h->kind, " for client ", h->client, " at client ", id);
        auto& e = notif_next[h->thread];
        VH_CHECK(h->seq == e, "notification-order", "expected ", e, " got ", h->seq);
        ++e;
        notif_seen.fetch_add(1);
        vh::eval();
    }
    void check_reply(const Head& req, Span got, const char* how)
    {
        std::string why;
        auto h = parse_msg(got.data(), got.size(), why);
        VH_CHECK(h.has_value(), "reply-damaged", how, ": ", why);
        VH_CHECK(h->kind == 2 && h->client == id && h->thread == req.thread && h->seq == req.seq,
                 "reply-mixed", how, ": request ", id, "/", req.thread, "/", req.seq, " got the reply of ", h->client, "/", h->thread, "/", h->seq);
        const std::size_t len = kHead + vh::mix(req.seq * 77U + id) % (c.max_reply - kHead + 1);
        VH_CHECK(got.size() == len, "reply-length", how, ": ", got.size(), " instead of ", len);
        vh::eval();
    }
    void wait_reply(unsigned t, std::uint64_t& all, vh::Rng& r, bool must)
    {
        Head h{0, static_cast<std::uint16_t>(id), static_cast<std::uint16_t>(t), 0, 1, thread_req[t], all, 0, 0};
        const Bytes b = make_msg(h, kHead + r.below(c.max_send - kHead + 1));
        // the reply buffer is exactly as large as the reply may get, with guard bytes behind it
        const std::size_t cap = c.max_reply;
        Bytes rep(cap + 16, 0xEE);
        for (;;)
        {
            auto x = conn->SendWaitReply({b.data(), b.size()}, {rep.data(), cap});
            if (!x.has_value())
            {
                VH_CHECK(code_of(x.error()) == ENOBUFS, "request-refused", "SendWaitReply of ", b.size(), " bytes failed with ", code_of(x.error()));
                if (must)
                {
                    std::this_thread::sleep_for(std::chrono::microseconds(200));
                    continue;
                }
                vh::count("requests_refused");
                return;
            }
            VH_CHECK(x.value().data() == rep.data(), "reply-buffer", "the result does not lie in the buffer given");
            for (std::size_t i = cap; i < rep.size(); ++i)
            {
                VH_CHECK(rep[i] == 0xEE, "reply-overrun", "byte ", i, " behind the reply buffer changed");
            }
            check_reply(h, x.value(), "SendWaitReply");
            break;
        }
        ++thread_req[t];
        ++all;
        vh::count("requests_waited");
    }
    void run(unsigned t, std::uint64_t seed, bool requests)
    {
        vh::Rng r{seed};
        std::uint64_t all = 0;
        for (unsigned i = 0; i < c.ops; ++i)
        {
            const auto what = r.below(100);
            std::size_t len = kHead + (r.chance(70) ? r.below(std::min<std::size_t>(200, c.max_send - kHead + 1)) : r.below(c.max_send - kHead + 1));
            if (r.chance(5))
            {
                len = c.max_send;
            }
            if (what < 3)
            {
                const Bytes big(c.max_send + 1 + r.below(3), 0x42);
                const auto k = r.below(3);
                int e = 0;
                if (k == 0)
                {
                    auto x = conn->Send({big.data(), big.size()});
                    e = x.has_value() ? 0 : code_of(x.error());
                }
                else if (k == 1)
                {
                    Bytes rep(c.max_reply);
                    auto x = conn->SendWaitReply({big.data(), big.size()}, {rep.data(), rep.size()});
                    e = x.has_value() ? 0 : code_of(x.error());
                }
                else
                {
                    auto x = conn->SendWithCallback({big.data(), big.size()}, [](auto) { vh::violation("oversize-callback", "callback of a refused request ran"); });
                    e = x.has_value() ? 0 : code_of(x.error());
                }
                VH_CHECK(e == EMSGSIZE, "oversize-accepted", "call ", k, " with ", big.size(), " bytes (limit ", c.max_send, ") ended with ", e);
                vh::count("oversize");
            }
            else if (what < 6 && !requests)
            {
                auto x = conn->Send({});
                if (x.has_value())
                {
                    empties.fetch_add(1);
                }
                else
                {
                    VH_CHECK(code_of(x.error()) == ENOBUFS && (c.fo || c.ta), "send-refused", "empty Send failed with ", code_of(x.error()));
                }
            }
            else if (what < (requests ? 35U : 80U))
            {
                Head h{0, static_cast<std::uint16_t>(id), static_cast<std::uint16_t>(t), 0, 0, thread_send[t], all, 0, 0};
                Bytes b = make_msg(h, len);
                auto x = conn->Send({b.data(), b.size()});
                std::fill(b.begin(), b.end(), 0xDD);  // the buffer is the caller's again
                if (x.has_value())
                {
                    ++thread_send[t];
                    ++all;
                    vh::count("sends");
                }
                else
                {
                    VH_CHECK(code_of(x.error()) == ENOBUFS && (c.fo || c.ta), "send-refused", "Send of ", len, " bytes failed with ", code_of(x.error()));
                    vh::count("sends_refused");
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
                }
            }
            else if (what < (requests ? 75U : 90U))
            {
                Head h{0, static_cast<std::uint16_t>(id), static_cast<std::uint16_t>(t), 0, 1, thread_req[t], all, 0, 0};
                Bytes b = make_msg(h, len);
                auto fired = std::make_shared<std::atomic<int>>(0);
                auto x = conn->SendWithCallback({b.data(), b.size()}, [this, h, fired](auto rep) {
                    VH_CHECK(fired->fetch_add(1) == 0, "callback-twice", "reply callback ran twice");
                    VH_CHECK(rep.has_value(), "request-failed", "request failed with ", code_of(rep.error()), " on a healthy connection");
                    check_reply(h, rep.value(), "SendWithCallback");
                    done_async.fetch_add(1);
                });
                std::fill(b.begin(), b.end(), 0xDD);
                if (x.has_value())
                {
                    accepted_async.fetch_add(1);
                    ++thread_req[t];
                    ++all;
                    vh::count("requests_async");
                }
                else
                {
                    VH_CHECK(code_of(x.error()) == ENOBUFS, "request-refused", "SendWithCallback of ", len, " bytes failed with ", code_of(x.error()));
                    vh::count("requests_refused");
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
                }
            }
            else
            {
                wait_reply(t, all, r, false);
            }
            vh::jitter(r, 10);
        }
        // a last request behind everything this thread had accepted
        wait_reply(t, all, r, true);
    }
};

void scenario(std::uint64_t seed, bool requests)
{
    vh::Rng r{seed};
    Conf c{};
    c.fo = r.chance(50);
    c.ta = r.chance(50);
    c.sync = r.chance(30);
    c.handler = r.chance(50);
    c.shared_engine = r.chance(20);
    c.deferred = r.chance(60);
    c.notify = r.chance(70);
    c.clients = static_cast<unsigned>(r.range(1, 4));
    c.threads = static_cast<unsigned>(r.range(1, vh::arg("threads", 3)));
    c.ops = static_cast<unsigned>(r.range(20, vh::arg("ops", 90)));
    const std::uint32_t sizes[] = {kHead, kHead + 1, 100, 255, 256, 257, 1000, 4096, 20000};
    c.max_send = sizes[r.below(9)];
    c.max_reply = sizes[r.below(9)];
    c.max_notify = sizes[r.below(9)];
    // more than the operating system transfers at once; in one direction, or both sides might wait for each other
    if (!c.shared_engine && r.chance(static_cast<unsigned>(vh::arg("big", 25))))
    {
        const std::uint32_t b = r.chance(50) ? 65535 : 40000;
        if (r.chance(60))
        {
            c.max_send = b;
        }
        else
        {
            c.max_reply = b;
            c.max_notify = b;
        }
    }
    c.queued = static_cast<std::uint32_t>(c.ta ? r.range(1, 12) : r.below(12));
    c.async = static_cast<std::uint32_t>(r.range(1, 12));
    if (c.shared_engine)
    {
        c.max_send = c.max_reply = c.max_notify = 256;
    }
    const std::string name = unique_name("flow");
    auto se = make_engine();
    Server server{c, name, se, r.next()};
    std::vector<std::unique_ptr<Client>> cl;
    auto ce = make_engine();
    for (unsigned i = 0; i < c.clients; ++i)
    {
        cl.push_back(std::make_unique<Client>(c, i, name, c.shared_engine ? se : (r.chance(50) ? ce : make_engine())));
    }
    server.start();
    {
        // nobody else may serve the name
        Server second{c, name, se, r.next()};
        mp::ServerFactory f{se};
        auto s2 = f.Create(mp::ServiceProtocolConfig{name, 10, 10, 10}, mp::IServerFactory::ServerConfig{});
        auto x = s2->StartListening([](auto&) -> score::cpp::expected<mp::UserData, Err> { return mp::UserData{std::uintptr_t{0}}; });
        VH_CHECK(!x.has_value(), "two-servers", "a second server listens under the same name");
    }
    for (auto& x : cl)
    {
        x->start();
    }
    std::vector<std::thread> ts;
    std::vector<std::vector<std::uint64_t>> sent_notif(c.clients, std::vector<std::uint64_t>(2, 0));
    std::atomic<bool> stop{false}, release{false};
    std::atomic<std::size_t> finished{0};
    for (unsigned i = 0; i < c.clients; ++i)
    {
        for (unsigned t = 0; t < c.threads; ++t)
        {
            ts.emplace_back([&, i, t, s = r.next()] {
                cl[i]->run(t, s, requests);
                finished.fetch_add(1);
                while (vh::arg("signals", 0) != 0 && !release.load())
                {
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
                }
            });
        }
    }
    std::vector<std::thread> ns;
    std::atomic<bool> senders_done{false};
    std::thread sig;
    if (vh::arg("signals", 0) != 0)
    {
        struct sigaction sa{};
        sa.sa_handler = [](int) {};
        sa.sa_flags = SA_RESTART;
        ::sigaction(SIGUSR2, &sa, nullptr);
        sig = std::thread{[&, s = r.next()] {
            vh::Rng q{s};
            while (!senders_done.load())
            {
                ::pthread_kill(ts[q.below(ts.size())].native_handle(), SIGUSR2);
                std::this_thread::sleep_for(std::chrono::microseconds(q.below(300)));
            }
        }};
    }
    if (c.notify)
    {
        for (unsigned k = 0; k < 2; ++k)
        {
            ns.emplace_back([&, k, s = r.next()] {
                vh::Rng q{s};
                while (!stop.load())
                {
                    const unsigned i = static_cast<unsigned>(q.below(c.clients));
                    // keep well below what the sockets buffer
                    if (sent_notif[i][k] - std::min(sent_notif[i][k], cl[i]->notif_seen.load()) < 3 &&
                        server.notify(i, k, sent_notif[i][k], kHead + q.below(c.max_notify - kHead + 1)))
                    {
                        ++sent_notif[i][k];
                    }
                    vh::jitter(q, 60);
                    if (q.chance(2))
                    {
                        auto* any = server.any_conn();
                        if (any != nullptr)
                        {
                            const Bytes big(c.max_notify + 1, 1);
                            auto x = any->Notify({big.data(), big.size()});
                            VH_CHECK(!x.has_value() && code_of(x.error()) == EMSGSIZE, "notify-oversize", "Notify of ", big.size(), " bytes");
                            (void)server.any_conn();  // orders this thread's use of the connection before its end
                        }
                    }
                }
            });
        }
    }
    if (sig.joinable())
    {
        // the senders must be there as long as they get signals
        while (finished.load() < ts.size())
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        senders_done = true;
        sig.join();
        release = true;
    }
    for (auto& t : ts)
    {
        t.join();
    }
    stop = true;
    for (auto& t : ns)
    {
        t.join();
    }
    std::uint64_t empties = 0;
    for (unsigned i = 0; i < c.clients; ++i)
    {
        // each thread's last request came back, so everything accepted from it before has to be there by now
        std::lock_guard<std::mutex> l{server.flow.m};
        for (unsigned t = 0; t < c.threads; ++t)
        {
            const auto s = server.flow.seen[{i, t, 0}].next;
            const auto q = server.flow.seen[{i, t, 1}].next;
            VH_CHECK(s == cl[i]->thread_send[t], "message-lost", "client ", i, " thread ", t, ": ", cl[i]->thread_send[t], " sends accepted, ", s, " delivered");
            VH_CHECK(q == cl[i]->thread_req[t], "request-lost", "client ", i, " thread ", t, ": ", cl[i]->thread_req[t], " requests accepted, ", q, " delivered");
        }
        VH_CHECK(cl[i]->done_async.load() == cl[i]->accepted_async.load(), "request-uncompleted", cl[i]->accepted_async.load(), " callbacks accepted, ", cl[i]->done_async.load(), " ran");
        empties += cl[i]->empties.load();
    }
    VH_CHECK(server.empty_sends.load() == empties, "message-lost", empties, " empty messages accepted, ", server.empty_sends.load(), " delivered");
    for (unsigned i = 0; i < c.clients; ++i)
    {
        while (cl[i]->notif_seen.load() < sent_notif[i][0] + sent_notif[i][1])
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(1));  // the watchdog decides about a lost one
        }
        VH_CHECK(cl[i]->notif_seen.load() == sent_notif[i][0] + sent_notif[i][1], "notification-count", "more notifications arrived than were sent");
        vh::count("notifications", cl[i]->notif_seen.load());
    }
    if (r.chance(50))
    {
        for (auto& x : cl)
        {
            x->conn.reset();
        }
        server.stop();
    }
    else
    {
        server.stop();
    }
    for (auto& x : cl)
    {
        x->conn.reset();
    }
    vh::count("scenarios");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::scratch();
    vh::Rng r{vh::seed()};
    const bool requests = vh::sarg("mode", "oneway") == "request";
    const auto n = vh::arg("n", 12);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        scenario(r.next(), requests);
    }
    vh::sample(vh::str("last scenario of ", n, ": every accepted number of every client thread was seen once, in order"));
    vh::finish();
}
