// The queue of delayed commands against an executable model (sequential histories with commands that act on the queue
// themselves), and under concurrent registration.
#include "vh.h"
#include "score/message_passing/timed_command_queue.h"
#include <deque>
#include <list>
#include <memory>
using namespace score::message_passing::detail;
using Q = TimedCommandQueue;
using TP = Q::TimePoint;
using Entry = TimedCommandQueueEntry;
namespace
{
// the model's time 0 is the clock's origin (immediate commands); everything else is relative to a base that may lie in the
// past, now, or in the future of the real clock
std::atomic<std::int64_t> g_base{0};
TP tp(std::uint64_t t)
{
    return t == 0 ? TP{} : TP{} + std::chrono::nanoseconds(g_base.load()) + std::chrono::milliseconds(t);
}
// --- sequential ---------------------------------------------------------------------------------------------------
struct Model
{
    struct Item
    {
        std::uint64_t until, id;
        int entry;
        const void* owner;
    };
    std::list<Item> q;
    void add(std::uint64_t until, std::uint64_t id, int entry, const void* owner)
    {
        auto it = q.begin();
        while (it != q.end() && it->until <= until)
        {
            ++it;
        }
        q.insert(it, Item{until, id, entry, owner});
    }
};
struct Token  // captured by every callback: counts its destructions
{
    std::uint64_t id;
    std::map<std::uint64_t, int>* dead;
    Token(std::uint64_t i, std::map<std::uint64_t, int>* d) : id{i}, dead{d} {}
    Token(Token&& o) noexcept : id{o.id}, dead{o.dead} { o.dead = nullptr; }
    Token(const Token&) = delete;
    ~Token()
    {
        if (dead != nullptr)
        {
            ++(*dead)[id];
        }
    }
};
struct Seq
{
    Q q;
    Model m;
    vh::Rng r;
    static constexpr int kEntries = 12;
    std::vector<std::unique_ptr<Entry>> e;
    bool queued[kEntries]{};
    int owners[4]{};
    std::map<std::uint64_t, int> dead;
    std::uint64_t next_id{1};
    std::uint64_t now{0};
    bool processing{false};
    std::uint64_t running{0};
    std::uint64_t hash{0};
    explicit Seq(std::uint64_t s) : r{s}
    {
        for (int i = 0; i < kEntries; ++i)
        {
            e.push_back(std::make_unique<Entry>());
        }
    }
    const void* owner(std::uint64_t k) { return k == 0 ? nullptr : &owners[k - 1]; }
    void reg(int i)
    {
        const std::uint64_t id = next_id++;
        const void* o = owner(r.below(5));
        queued[i] = true;
        auto cb = [this, t = Token{id, &dead}, i](TP n) { this->fired(t.id, i, n); };
        if (r.chance(35))
        {
            m.add(0, id, i, o);
            q.RegisterImmediateEntry(*e[static_cast<std::size_t>(i)], std::move(cb), o);
        }
        else
        {
            const std::uint64_t u = r.chance(20) ? now : now + r.below(12) + (r.chance(10) ? 1000 : 0);
            m.add(u, id, i, o);
            q.RegisterTimedEntry(*e[static_cast<std::size_t>(i)], tp(u), std::move(cb), o);
        }
        vh::count("registered");
    }
    void fired(std::uint64_t id, int i, TP n)
    {
        VH_CHECK(processing, "queue-callback-outside", "a command ran outside of ProcessQueue");
        VH_CHECK(n == tp(now), "queue-now", "a command was given another time point than ProcessQueue");
        VH_CHECK(!m.q.empty(), "queue-extra", "command ", id, " ran although nothing is queued");
        VH_CHECK(m.q.front().id == id, "queue-order", "command ", id, " ran, expected ", m.q.front().id);
        VH_CHECK(m.q.front().until <= now, "queue-early", "command ", id, " ran before its time");
        VH_CHECK(dead[id] == 0, "queue-dead", "a command ran after its captures were destroyed");
        if (running != 0)
        {
            VH_CHECK(dead[running] == 1, "queue-capture-alive", "captures of the previous command are still alive (", dead[running], ")");
        }
        running = id;
        m.q.pop_front();
        queued[i] = false;
        hash = vh::comb(hash, id);
        vh::count("executed");
        vh::eval();
        const auto what = r.below(10);
        if (what < 3)
        {
            reg(i);  // the same entry again
            vh::count("requeued");
        }
        else if (what == 3)
        {
            const int j = static_cast<int>(r.below(kEntries));
            if (!queued[j])
            {
                reg(j);
            }
        }
        else if (what == 4)
        {
            clean();
        }
        else if (what == 5 && !queued[i])
        {
            e[static_cast<std::size_t>(i)] = std::make_unique<Entry>();  // an entry that was processed may go away
        }
    }
    void clean()
    {
        const auto k = r.below(5);
        const void* o = owner(k);
        std::vector<std::uint64_t> gone;
        if (o != nullptr)
        {
            for (auto it = m.q.begin(); it != m.q.end();)
            {
                if (it->owner == o)
                {
                    gone.push_back(it->id);
                    queued[it->entry] = false;
                    it = m.q.erase(it);
                }
                else
                {
                    ++it;
                }
            }
        }
        q.CleanUpOwner(o);
        for (auto id : gone)
        {
            VH_CHECK(dead[id] == 1, "queue-clean-captures", "captures of removed command ", id, " destroyed ", dead[id], " times");
        }
        for (auto& x : m.q)
        {
            VH_CHECK(dead[x.id] == 0, o == nullptr ? "queue-clean-nullptr" : "queue-clean-other",
                     "cleaning up owner ", k, " destroyed command ", x.id, " of another owner");
        }
        for (int i = 0; i < kEntries; ++i)
        {
            if (!queued[i] && r.chance(20) && !processing)
            {
                e[static_cast<std::size_t>(i)] = std::make_unique<Entry>();
            }
        }
        vh::count("cleaned", gone.size());
        vh::count("cleanups");
    }
    void process()
    {
        now += r.below(6);
        processing = true;
        running = 0;
        const auto ret = q.ProcessQueue(tp(now));
        processing = false;
        if (running != 0)
        {
            VH_CHECK(dead[running] == 1, "queue-capture-alive", "captures of the last command are still alive");
        }
        const TP want = m.q.empty() ? TP{} : tp(m.q.front().until);
        VH_CHECK(m.q.empty() || m.q.front().until > now, "queue-missed", "command ", m.q.empty() ? 0 : m.q.front().id, " is due and did not run");
        VH_CHECK(ret == want, "queue-next", "ProcessQueue reports another next time point");
        vh::eval();
    }
    void run(int n)
    {
        for (int k = 0; k < n; ++k)
        {
            const auto w = r.below(10);
            const int i = static_cast<int>(r.below(kEntries));
            if (w < 6 && !queued[i])
            {
                reg(i);
            }
            else if (w < 9)
            {
                process();
            }
            else
            {
                clean();
            }
        }
        now += 5000;
        for (int k = 0; k < 60 && !m.q.empty(); ++k)
        {
            process();
            now += 5000;
        }
        for (auto& o : owners)
        {
            q.CleanUpOwner(&o);
        }
        for (auto it = m.q.begin(); it != m.q.end(); ++it)
        {
            // what is left belongs to nobody
            VH_CHECK(it->owner != nullptr || dead[it->id] == 0, "queue-clean-other", "command of nobody was removed");
        }
        vh::distinct(hash);
        // drain what nobody owns
        for (int k = 0; k < 1000; ++k)
        {
            bool any = false;
            for (auto it = m.q.begin(); it != m.q.end();)
            {
                it = it->owner != nullptr ? m.q.erase(it) : std::next(it);
            }
            any = !m.q.empty();
            if (!any)
            {
                break;
            }
            now += 5000;
            process();
            for (auto& o : owners)
            {
                q.CleanUpOwner(&o);
            }
        }
    }
};
// --- concurrent registration ----------------------------------------------------------------------------------------
void concurrent(vh::Rng& r)
{
    Q q;
    constexpr int kT = 3;
    constexpr int kN = 60;
    struct Rec
    {
        Entry e;
        std::atomic<int> runs{0};
        std::atomic<std::uint64_t> order{0};
        std::uint64_t until{0};
        bool immediate{false};
    };
    std::vector<std::unique_ptr<Rec>> recs;
    for (int i = 0; i < kT * kN; ++i)
    {
        recs.push_back(std::make_unique<Rec>());
    }
    std::atomic<int> done{0};
    std::atomic<std::uint64_t> clock{1};
    std::uint64_t seq = 0;
    std::vector<std::thread> ts;
    const auto s = r.next();
    for (int t = 0; t < kT; ++t)
    {
        ts.emplace_back([&, t] {
            vh::Rng g{s + static_cast<std::uint64_t>(t)};
            for (int i = 0; i < kN; ++i)
            {
                Rec& x = *recs[static_cast<std::size_t>(t * kN + i)];
                x.immediate = g.chance(50);
                auto cb = [&x, &seq, &clock](TP n) {
                    x.runs.fetch_add(1);
                    x.order = ++seq;
                    VH_CHECK(x.immediate || tp(x.until) <= n, "queue-early", "a command ran before its time");
                };
                if (x.immediate)
                {
                    q.RegisterImmediateEntry(x.e, std::move(cb), &s);
                }
                else
                {
                    x.until = clock.load() + g.below(5);
                    q.RegisterTimedEntry(x.e, tp(x.until), std::move(cb), &s);
                }
                vh::jitter(g, 20);
            }
            done.fetch_add(1);
        });
    }
    while (done.load() < kT)
    {
        (void)q.ProcessQueue(tp(clock.fetch_add(1)));
        vh::jitter(r, 30);
    }
    for (auto& t : ts)
    {
        t.join();
    }
    VH_CHECK(q.ProcessQueue(tp(clock.load() + 100)) == TP{}, "queue-next", "the queue is not empty after everything is due");
    for (int t = 0; t < kT; ++t)
    {
        std::uint64_t last = 0;
        for (int i = 0; i < kN; ++i)
        {
            Rec& x = *recs[static_cast<std::size_t>(t * kN + i)];
            VH_CHECK(x.runs == 1, "queue-once", "a command ran ", x.runs.load(), " times");
            if (x.immediate)
            {
                VH_CHECK(x.order > last, "queue-order", "immediate commands of one thread ran out of order");
                last = x.order;
            }
            vh::eval();
        }
    }
    vh::distinct(vh::comb(seq, clock.load()));
    vh::count("concurrent_rounds");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("rounds", 60);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const std::int64_t clock = std::chrono::steady_clock::now().time_since_epoch().count();
        const std::int64_t bases[] = {0, clock, clock - 3600'000'000'000, clock + 3600'000'000'000, clock - 1'000'000'000};
        g_base = std::max<std::int64_t>(0, bases[r.below(5)]);
        vh::count(vh::str("base_", g_base.load() == 0 ? "origin" : g_base.load() > clock ? "future" : "past"));
        Seq s{r.next()};
        s.run(static_cast<int>(20 + r.below(150)));
        concurrent(r);
    }
    vh::sample("sequence of register/process/clean-up with self-requeue; 3 threads registering while one processes");
    vh::finish();
}
