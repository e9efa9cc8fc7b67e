// The life of connections: clients that start, stop, restart and disappear at arbitrary moments (also from inside their
// own callbacks) against a server that rejects, disconnects, stops and comes back.
#include "mp_util.h"

#include <dirent.h>

namespace
{
unsigned open_fds()
{
    unsigned n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (d != nullptr && ::readdir(d) != nullptr)
    {
        ++n;
    }
    ::closedir(d);
    return n;
}
class Counting : public score::cpp::pmr::memory_resource
{
  public:
    std::atomic<std::int64_t> live{0};

  private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        live.fetch_add(1);
        return ::operator new(n, std::align_val_t{a});
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        live.fetch_sub(1);
        (void)n;
        ::operator delete(p, std::align_val_t{a});
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct Conf
{
    bool fo, ta, sync, handler, reject, kick, handler_errors, server_stops, notify;
    unsigned clients, steps;
    std::uint32_t queued, async;
};

struct ConnInfo
{
    mp::IServerConnection* conn{nullptr};
    std::optional<unsigned> client;
    std::uint64_t next[2]{};
    bool first[2]{true, true};
    bool gone{false};
};

struct World;
class Server
{
  public:
    Server(World& w, std::shared_ptr<mp::Engine> e, const std::string& name, const Conf& c, std::uint64_t seed) : w_{w}, c_{c}, rng_{seed}, name_{name}
    {
        mp::ServerFactory f{std::move(e)};
        server_ = f.Create(mp::ServiceProtocolConfig{name_, 512, 512, 512}, mp::IServerFactory::ServerConfig{4, 4, 4});
    }
    ~Server()
    {
        // the destructor stops listening, too
        server_.reset();
        check_quiet();
    }
    void start()
    {
        listening_ = true;
        auto r = server_->StartListening([this](auto& c) { return on_connect(c); },
                                         [this](auto& c) { on_gone(c, static_cast<ConnInfo*>(std::get<void*>(c.GetUserData()))); },
                                         [this](auto& c, Span m) { return on_msg(c, static_cast<ConnInfo*>(std::get<void*>(c.GetUserData())), m, 0); },
                                         [this](auto& c, Span m) { return on_msg(c, static_cast<ConnInfo*>(std::get<void*>(c.GetUserData())), m, 1); });
        VH_CHECK(r.has_value(), "listen-again", "StartListening failed with ", code_of(r.error()));
    }
    void stop()
    {
        server_->StopListening();
        listening_ = false;
        check_quiet();
    }

  private:
    void check_quiet()
    {
        VH_CHECK(conns_.empty(), "disconnect-missing", conns_.size(), " connections without disconnect callback after StopListening");
    }
    struct Guard
    {
        explicit Guard(Server* s) : s_{s}
        {
            VH_CHECK(s_->inside_.fetch_add(1) == 0, "server-callbacks-concurrent", "two callbacks of one server at the same time");
            VH_CHECK(s_->listening_.load(), "callback-after-stop", "server callback after StopListening had returned");
        }
        ~Guard() { s_->inside_.fetch_sub(1); }
        Server* s_;
    };
    class Handler final : public mp::IConnectionHandler
    {
      public:
        Handler(Server* s, ConnInfo* i) : s_{s}, i_{i} {}
        score::cpp::expected_blank<Err> OnMessageSent(mp::IServerConnection& c, Span m) noexcept override { return s_->on_msg(c, i_, m, 0); }
        score::cpp::expected_blank<Err> OnMessageSentWithReply(mp::IServerConnection& c, Span m) noexcept override { return s_->on_msg(c, i_, m, 1); }
        void OnDisconnect(mp::IServerConnection& c) noexcept override { s_->on_gone(c, i_); }

      private:
        Server* s_;
        ConnInfo* i_;
    };
    score::cpp::expected<mp::UserData, Err> on_connect(mp::IServerConnection& c)
    {
        Guard g{this};
        if (c_.reject && rng_.chance(30))
        {
            vh::count("rejected");
            return score::cpp::make_unexpected(Err::createFromErrno(EACCES));
        }
        VH_CHECK(conns_.count(&c) == 0, "connect-twice", "connect callback for a connection that is connected");
        auto* i = new ConnInfo;
        i->conn = &c;
        conns_[&c] = i;
        vh::count("connected");
        if (c_.handler)
        {
            return mp::UserData{score::cpp::pmr::make_unique<Handler>(score::cpp::pmr::get_default_resource(), this, i)};
        }
        return mp::UserData{static_cast<void*>(i)};
    }
    void on_gone(mp::IServerConnection& c, ConnInfo* i)
    {
        // may run nested inside another callback that asked for it
        VH_CHECK(conns_.erase(&c) == 1, "disconnect-unpaired", "disconnect callback without connect callback");
        i->gone = true;
        delete i;
        vh::count("disconnected");
    }
    score::cpp::expected_blank<Err> on_msg(mp::IServerConnection& c, ConnInfo* i, Span m, unsigned kind);
    World& w_;
    Conf c_;
    vh::Rng rng_;
    std::string name_;
    score::cpp::pmr::unique_ptr<mp::IServer> server_;
    std::atomic<bool> listening_{false};
    std::atomic<int> inside_{0};
    std::map<mp::IServerConnection*, ConnInfo*> conns_;  // engine thread only (and after StopListening)
};

struct ClientLog
{
    std::mutex m;
    std::vector<State> states;
};

class Client
{
  public:
    Client(World& w, const Conf& c, unsigned id, const std::string& name, std::shared_ptr<mp::Engine> e, std::uint64_t seed)
        : w_{w}, c_{c}, id_{id}, name_{name}, engine_{std::move(e)}, rng_{seed}, cb_rng_{seed ^ 0x55}
    {
    }
    void run();
    std::atomic<std::uint64_t> sent[2]{};

  private:
    struct Token
    {
        std::atomic<int> fired{0};
        std::atomic<int> destroyed{0};
        bool accepted{false};
        std::uint64_t seq{0};
    };
    void create()
    {
        mp::ClientFactory f{engine_};
        conn_ = f.Create(mp::ServiceProtocolConfig{name_, 512, 512, 512}, mp::IClientFactory::ClientConfig{c_.async, c_.queued, c_.fo, c_.ta, c_.sync});
        raw_ = conn_.get();
        user_stop_ = false;
        {
            std::lock_guard<std::mutex> l{m_};
            states_.clear();
        }
        VH_CHECK(conn_->GetState() == State::kStopped && conn_->GetStopReason() == Reason::kInit, "initial-state", "a new connection is not Stopped/Init");
    }
    void start()
    {
        conn_->Start([this](State s) { on_state(s); }, [this](Span n) { on_notify(n); });
    }
    void on_state(State s);
    void on_notify(Span n)
    {
        VH_CHECK(!quiet_.load(), "notify-after-stopped", "notification callback of a stopped connection");
        std::string why;
        auto h = parse_msg(n.data(), n.size(), why);
        VH_CHECK(h.has_value() && h->kind == 3 && h->client == id_, "notification-damaged", why);
        vh::eval();
        if (stop_in_notify_.exchange(false))
        {
            user_stop_ = true;
            raw_.load()->Stop();
        }
    }
    // no restart from the callback is to come or under way after this
    void settle()
    {
        if (restart_in_stopped_.exchange(false))
        {
            restart_in_flight_ = false;
        }
        while (restart_in_flight_.load())
        {
            std::this_thread::sleep_for(std::chrono::microseconds(100));
        }
    }
    bool wait_stopped()
    {
        // a restart from the callback may have been under way when Stop() was called
        for (;;)
        {
            {
                std::unique_lock<std::mutex> l{m_};
                if (cv_.wait_for(l, std::chrono::milliseconds(2), [&] { return !states_.empty() && states_.back() == State::kStopped && !in_stopped_cb_; }))
                {
                    return true;
                }
            }
            conn_->Stop();
        }
    }
    void check_log()
    {
        std::lock_guard<std::mutex> l{m_};
        std::string t;
        for (auto s : states_)
        {
            t += "SRgX"[static_cast<int>(s)];
        }
        // S starting, R ready, g stopping, X stopped. A Stop() from another thread may overtake the Starting or the Ready callback.
        std::size_t i = 0;
        bool ok = true;
        std::uint64_t h = 7;
        while (ok && i < t.size())
        {
            const auto e = t.find('X', i);
            const std::string one = t.substr(i, e == std::string::npos ? e : e - i + 1);
            ok = one == "SgX" || one == "gSX" || one == "SRgX" || one == "SgRX" || (e == std::string::npos && (one == "S" || one == "SR" || one == "Sg" || one == "SRg" || one == "SgR" || one == "g" || one == "gS"));
            h = vh::comb(h, vh::hash_str(one));
            vh::distinct(vh::comb(vh::hash_str(one), vh::comb(c_.fo * 8U + c_.ta * 4U + c_.sync * 2U + c_.handler, h % 64U)));
            i = e == std::string::npos ? t.size() : e + 1;
        }
        VH_CHECK(ok, "state-sequence", "state callbacks came as ", t);
        vh::eval();
    }
    World& w_;
    Conf c_;
    unsigned id_;
    std::string name_;
    std::shared_ptr<mp::Engine> engine_;
    vh::Rng rng_, cb_rng_;
    score::cpp::pmr::unique_ptr<mp::IClientConnection> conn_;
    std::atomic<mp::IClientConnection*> raw_{nullptr};  // for the callbacks, also while conn_ is being reset
    std::mutex m_;
    std::condition_variable cv_;
    std::vector<State> states_;
    bool in_stopped_cb_{false};
    bool destroyed_{false};
    std::atomic<bool> quiet_{true}, restart_in_flight_{false};
    std::atomic<bool> user_stop_{false}, stop_in_ready_{false}, stop_in_starting_{false}, stop_in_notify_{false}, restart_in_stopped_{false}, destroy_in_stopped_{false};
    std::vector<std::shared_ptr<Token>> tokens_;
};

struct World
{
    Conf c{};
    std::vector<std::unique_ptr<Client>> clients;
    std::atomic<bool> calm{true};  // the server did nothing to end a connection
};

score::cpp::expected_blank<Err> Server::on_msg(mp::IServerConnection& c, ConnInfo* i, Span m, unsigned kind)
{
    Guard g{this};
    VH_CHECK(conns_.count(&c) == 1 && !i->gone, "message-unconnected", "message on a connection that is not connected");
    std::string why;
    auto h = parse_msg(m.data(), m.size(), why);
    VH_CHECK(h.has_value(), "message-damaged", why);
    VH_CHECK(h->kind == kind, "message-kind", "kind ", h->kind, " as ", kind);
    if (!i->client)
    {
        i->client = h->client;
    }
    VH_CHECK(*i->client == h->client, "message-wrong-connection", "client ", h->client, " on the connection of ", *i->client);
    if (i->first[kind])
    {
        i->first[kind] = false;
    }
    else
    {
        // what reaches one connection has neither gaps nor repetitions
        VH_CHECK(h->seq == i->next[kind], "message-order", "client ", h->client, " kind ", kind, ": expected ", i->next[kind], " got ", h->seq);
    }
    i->next[kind] = h->seq + 1;
    vh::eval();
    if (c_.notify && rng_.chance(20))
    {
        const Bytes b = make_msg(Head{0, static_cast<std::uint16_t>(h->client), 0, 0, 3, 0, 0, 0, 0}, kHead + rng_.below(64));
        (void)c.Notify({b.data(), b.size()});
    }
    if (kind == 1)
    {
        Head r = *h;
        r.kind = 2;
        const Bytes b = make_msg(r, kHead + rng_.below(64));
        (void)c.Reply({b.data(), b.size()});
    }
    if (c_.kick && rng_.chance(4) && conns_.size() > 1)
    {
        for (auto& x : conns_)
        {
            if (x.first != &c)
            {
                x.first->RequestDisconnect();
                vh::count("kicked_other");
                break;
            }
        }
    }
    if (c_.kick && rng_.chance(4))
    {
        vh::count("kicked_self");
        c.RequestDisconnect();
        return {};
    }
    if (c_.handler_errors && rng_.chance(4))
    {
        vh::count("handler_errors");
        return score::cpp::make_unexpected(Err::createFromErrno(EINVAL));
    }
    return {};
}

void Client::on_state(State s)
{
    {
        std::lock_guard<std::mutex> l{m_};
        states_.push_back(s);
        in_stopped_cb_ = s == State::kStopped;
    }
    if (s == State::kStarting)
    {
        quiet_ = false;
        if (stop_in_starting_.exchange(false))
        {
            user_stop_ = true;
            raw_.load()->Stop();
        }
    }
    else if (s == State::kReady)
    {
        if (stop_in_ready_.exchange(false))
        {
            user_stop_ = true;
            raw_.load()->Stop();
        }
    }
    else if (s == State::kStopped)
    {
        quiet_ = true;
        if (destroy_in_stopped_.exchange(false))
        {
            conn_.reset();
            std::lock_guard<std::mutex> l{m_};
            destroyed_ = true;
            in_stopped_cb_ = false;
            cv_.notify_all();
            return;
        }
        const auto why = raw_.load()->GetStopReason();
        VH_CHECK(raw_.load()->GetState() == State::kStopped, "stopped-state", "GetState in the Stopped callback");
        VH_CHECK(why == Reason::kUserRequested || why == Reason::kClosedByPeer || why == Reason::kIoError, "stop-reason", "stopped for reason ", static_cast<int>(why));
        VH_CHECK(why != Reason::kUserRequested || user_stop_.load(), "stop-reason", "UserRequested, but nobody requested it");
        VH_CHECK(why == Reason::kUserRequested || !w_.calm.load(), "stop-reason", "reason ", static_cast<int>(why), " although the server kept the connection");
        if (restart_in_stopped_.exchange(false))
        {
            {
                std::lock_guard<std::mutex> l{m_};
                in_stopped_cb_ = false;
            }
            raw_.load()->Restart();
            restart_in_flight_ = false;
            return;
        }
        std::lock_guard<std::mutex> l{m_};
        in_stopped_cb_ = false;
        cv_.notify_all();
    }
}

void Client::run()
{
    create();
    bool started = false;
    // sync_first_connect: Start()/Restart() connect on the calling thread
    for (unsigned k = 0; k < c_.steps; ++k)
    {
        const auto what = rng_.below(100);
        if (!started)
        {
            if (!c_.sync)
            {
                stop_in_starting_ = rng_.chance(10);
                stop_in_ready_ = rng_.chance(10);
            }
            start();
            started = true;
            continue;
        }
        if (what < 40)
        {
            Head h{0, static_cast<std::uint16_t>(id_), 0, 0, 0, sent[0].load(), 0, 0, 0};
            const Bytes b = make_msg(h, kHead + rng_.below(100));
            auto x = conn_->Send({b.data(), b.size()});
            if (x.has_value())
            {
                sent[0].fetch_add(1);
                vh::count("sends");
            }
            else
            {
                vh::count("sends_refused");
            }
        }
        else if (what < 60)
        {
            auto t = std::make_shared<Token>();
            t->seq = sent[1].load();
            Head h{0, static_cast<std::uint16_t>(id_), 0, 0, 1, t->seq, 0, 0, 0};
            const Bytes b = make_msg(h, kHead + rng_.below(100));
            struct Alive
            {
                std::shared_ptr<Token> t;
                explicit Alive(std::shared_ptr<Token> x) : t{std::move(x)} {}
                Alive(Alive&&) = default;
                ~Alive()
                {
                    if (t)
                    {
                        t->destroyed.fetch_add(1);
                    }
                }
            };
            auto x = conn_->SendWithCallback({b.data(), b.size()}, [this, a = Alive{t}, id = id_](auto rep) {
                VH_CHECK(a.t->fired.fetch_add(1) == 0, "callback-twice", "a reply callback ran twice");
                VH_CHECK(!quiet_.load(), "reply-after-stopped", "reply callback of a stopped connection");
                if (rep.has_value())
                {
                    std::string why;
                    auto r = parse_msg(rep.value().data(), rep.value().size(), why);
                    VH_CHECK(r.has_value() && r->kind == 2 && r->client == id && r->seq == a.t->seq, "reply-mixed", "request ", a.t->seq, ": ", why);
                    vh::count("replies");
                }
                else
                {
                    vh::count("replies_failed");
                }
            });
            if (x.has_value())
            {
                t->accepted = true;
                sent[1].fetch_add(1);
                vh::count("requests");
            }
            tokens_.push_back(t);
        }
        else if (what < 70)
        {
            const auto q = sent[1].load();
            Head h{0, static_cast<std::uint16_t>(id_), 0, 0, 1, q, 0, 0, 0};
            const Bytes b = make_msg(h, kHead + rng_.below(100));
            Bytes rep(512);
            auto x = conn_->SendWaitReply({b.data(), b.size()}, {rep.data(), rep.size()});
            if (x.has_value())
            {
                std::string why;
                auto r = parse_msg(x.value().data(), x.value().size(), why);
                VH_CHECK(r.has_value() && r->kind == 2 && r->client == id_ && r->seq == q, "reply-mixed", "waiting request ", q, ": ", why);
                sent[1].fetch_add(1);
                vh::count("waited");
            }
            else
            {
                const int e = code_of(x.error());
                vh::count("waited_failed");
                if (e != EINVAL && e != ENOBUFS)
                {
                    sent[1].fetch_add(1);  // it may have arrived before the connection ended
                }
            }
        }
        else if (what < 73)
        {
            stop_in_notify_ = c_.notify;
            user_stop_ = true;
        }
        else if (what < 84)
        {
            user_stop_ = true;
            settle();
            conn_->Stop();
            if (rng_.chance(30))
            {
                conn_->Stop();
            }
            wait_stopped();
            for (auto& t : tokens_)
            {
                VH_CHECK(t->fired.load() == (t->accepted ? 1 : 0), t->accepted ? "request-uncompleted" : "refused-completed", "callback of request ", t->seq, " ran ", t->fired.load(), " times by the time the connection had stopped");
            }
            if (rng_.chance(60))
            {
                conn_->Restart();
                conn_->Restart();  // does nothing unless stopped again
            }
            else
            {
                check_log();
                conn_.reset();
                create();
                started = false;
            }
        }
        else if (what < 88 && !c_.sync)
        {
            // the connection restarts itself from its own callback
            user_stop_ = true;
            settle();
            restart_in_flight_ = true;
            restart_in_stopped_ = true;
            conn_->Stop();
        }
        else if (what < 94)
        {
            // destroy while running
            settle();
            user_stop_ = true;
            conn_.reset();
            check_log();
            for (auto& t : tokens_)
            {
                VH_CHECK(t->fired.load() == (t->accepted ? 1 : 0), "request-uncompleted", "callback of request ", t->seq, " ran ", t->fired.load(), " times until its connection was destroyed");
                VH_CHECK(t->destroyed.load() == 1, "callback-leaked", "reply callback destroyed ", t->destroyed.load(), " times");
            }
            tokens_.clear();
            create();
            started = false;
        }
        else
        {
            std::this_thread::sleep_for(std::chrono::microseconds(rng_.below(3000)));
        }
        vh::jitter(rng_, 20);
    }
    settle();
    stop_in_ready_ = false;
    stop_in_starting_ = false;
    stop_in_notify_ = false;
    if (started && rng_.chance(50))
    {
        bool stopped;
        {
            std::lock_guard<std::mutex> l{m_};
            stopped = states_.back() == State::kStopped;
        }
        if (!stopped && c_.sync == false && conn_->GetState() == State::kReady)
        {
            // goes away from inside its own Stopped callback
            destroy_in_stopped_ = true;
            auto* raw = conn_.get();
            user_stop_ = true;
            raw->Stop();
            bool gone = false;
            for (int i = 0; i < 2000 && !gone; ++i)
            {
                std::unique_lock<std::mutex> l{m_};
                gone = cv_.wait_for(l, std::chrono::milliseconds(5), [&] { return destroyed_; });
                if (!gone && !destroy_in_stopped_.load())
                {
                    continue;
                }
                if (!gone && states_.back() == State::kStopped && destroy_in_stopped_.exchange(false))
                {
                    break;  // had stopped on its own before
                }
            }
            if (gone)
            {
                vh::count("destroyed_in_callback");
                check_log();
            }
        }
    }
    user_stop_ = true;
    conn_.reset();
    check_log();
    for (auto& t : tokens_)
    {
        VH_CHECK(t->fired.load() == (t->accepted ? 1 : 0), "request-uncompleted", "callback of request ", t->seq, " ran ", t->fired.load(), " times until its connection was destroyed");
    }
}

void scenario(std::uint64_t seed)
{
    const unsigned fds = open_fds();
    vh::Rng r{seed};
    World w;
    Conf& c = w.c;
    c.fo = r.chance(50);
    c.ta = r.chance(50);
    c.sync = r.chance(25);
    c.handler = r.chance(50);
    c.reject = r.chance(30);
    c.kick = r.chance(30);
    c.handler_errors = r.chance(30);
    c.server_stops = r.chance(40);
    c.notify = r.chance(60);
    c.clients = static_cast<unsigned>(r.range(1, 4));
    c.steps = static_cast<unsigned>(r.range(30, vh::arg("steps", 120)));
    c.queued = static_cast<std::uint32_t>(r.below(6));
    c.async = static_cast<std::uint32_t>(r.range(1, 6));
    w.calm = !(c.reject || c.kick || c.handler_errors || c.server_stops);
    const std::string name = unique_name("life");
    Counting mem;
    {
        auto se = score::cpp::pmr::make_shared<mp::Engine>(&mem, &mem, mp::LoggingCallback{});
        auto ce = r.chance(25) ? se : score::cpp::pmr::make_shared<mp::Engine>(&mem, &mem, mp::LoggingCallback{});
        auto server = std::make_unique<Server>(w, se, name, c, r.next());
        for (unsigned i = 0; i < c.clients; ++i)
        {
            w.clients.push_back(std::make_unique<Client>(w, c, i, name, ce, r.next()));
        }
        std::vector<std::thread> ts;
        std::atomic<bool> done{false};
        const bool late = r.chance(30);
        if (!late)
        {
            server->start();
        }
        for (auto& x : w.clients)
        {
            ts.emplace_back([&x] { x->run(); });
        }
        std::thread st{[&, s = r.next()] {
            vh::Rng q{s};
            if (late)
            {
                std::this_thread::sleep_for(std::chrono::milliseconds(q.below(30)));
                server->start();
            }
            while (c.server_stops && !done.load())
            {
                std::this_thread::sleep_for(std::chrono::microseconds(q.below(8000)));
                server->stop();
                vh::count("server_stops");
                if (q.chance(30))
                {
                    server->stop();
                }
                if (q.chance(20))
                {
                    server.reset();
                    server = std::make_unique<Server>(w, se, name, c, q.next());
                }
                std::this_thread::sleep_for(std::chrono::microseconds(q.below(2000)));
                server->start();
            }
        }};
        for (auto& t : ts)
        {
            t.join();
        }
        done = true;
        st.join();
        w.clients.clear();
        if (r.chance(50))
        {
            server->stop();
        }
        server.reset();
    }
    VH_CHECK(mem.live.load() == 0, "memory-leak", mem.live.load(), " allocations of the engine's memory resource are left");
    VH_CHECK(open_fds() == fds, "fd-leak", "file descriptors before ", fds, ", after ", open_fds());
    vh::count("scenarios");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::scratch();
    verif::g_fresh_fds.store(true);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 12);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        scenario(r.next());
    }
    vh::sample(vh::str(n, " scenarios: state callbacks, connect/disconnect pairs and completions of every session in order"));
    vh::finish();
}
