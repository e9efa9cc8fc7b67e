// One-shot futures: a waiter returns only after the value is there, sees all of it, is always woken, and may end the
// lifetime of the future, its lock and its condition variable as soon as it returned.
#define VH_NO_SHIM
#include "vh.h"
#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include <condition_variable>
#include <memory>
#include <shared_mutex>
using namespace score::message_passing::detail;
namespace
{
// A lock and condition variable which report how the future uses them.
struct Probe
{
    std::atomic<int> alive{0x600DF00D};
    std::atomic<bool> marked{false};  // a MarkReady call has returned
    std::atomic<int> users{0};        // threads inside a member function
};
struct ProbeLock
{
    explicit ProbeLock(Probe& p) : p_{p} {}
    ~ProbeLock() { dead_ = true; }
    void lock()
    {
        check();
        m_.lock();
        owner_ = std::this_thread::get_id();
        held_ = true;
    }
    void unlock()
    {
        VH_CHECK(held_ && owner_ == std::this_thread::get_id(), "future-unlock-not-held", "unlock by a thread that does not hold the lock");
        held_ = false;
        owner_ = std::thread::id{};
        m_.unlock();
    }
    bool heldByMe() const { return held_ && owner_ == std::this_thread::get_id(); }
    void check() const { VH_CHECK(!dead_, "future-lock-after-lifetime", "the lock is used after the waiter ended its lifetime"); }
    Probe& p_;
    std::mutex m_;
    std::atomic<bool> held_{false};
    std::atomic<std::thread::id> owner_{};
    std::atomic<bool> dead_{false};
};
struct ProbeCv
{
    ProbeCv(Probe& p, std::uint64_t seed) : p_{p}, rng_{seed} {}
    ~ProbeCv() { dead_ = true; }
    struct W
    {
        bool flagged{false};
    };
    void wait(std::unique_lock<ProbeLock>& l)
    {
        check();
        VH_CHECK(l.owns_lock(), "future-wait-unlocked", "wait without the lock");
        {
            std::unique_lock<std::mutex> i{m_};
            if (rng_.chance(40))
            {
                // spurious wake-up
                i.unlock();
                l.unlock();
                std::this_thread::yield();
                l.lock();
                vh::count("spurious_wakeups");
                return;
            }
            VH_CHECK(!p_.marked, "future-lost-wakeup", "a waiter goes to sleep although the future was already marked ready");
            W w;
            waiters_.push_back(&w);
            l.unlock();
            c_.wait(i, [&w] { return w.flagged; });
        }
        l.lock();
        vh::count("wakeups");
    }
    template <class P>
    void wait(std::unique_lock<ProbeLock>& l, P p)
    {
        while (!p())
        {
            wait(l);
        }
    }
    void notify_all()
    {
        check();
        std::lock_guard<std::mutex> i{m_};
        for (auto* w : waiters_)
        {
            w->flagged = true;
        }
        waiters_.clear();
        c_.notify_all();
    }
    void notify_one()
    {
        check();
        std::lock_guard<std::mutex> i{m_};
        if (!waiters_.empty())
        {
            waiters_.back()->flagged = true;
            waiters_.pop_back();
        }
        c_.notify_all();
    }
    std::size_t sleeping()
    {
        std::lock_guard<std::mutex> i{m_};
        return waiters_.size();
    }
    void check() const { VH_CHECK(!dead_, "future-cv-after-lifetime", "the condition variable is used after the waiter ended its lifetime"); }
    Probe& p_;
    vh::Rng rng_;
    std::mutex m_;
    std::condition_variable c_;
    std::vector<W*> waiters_;
    std::atomic<bool> dead_{false};
};
struct Big
{
    std::string s;
    std::vector<std::uint64_t> v;
    std::uint64_t id{0};
    bool good(std::uint64_t k) const
    {
        if (id != k || s != std::to_string(k) || v.size() != k % 40)
        {
            return false;
        }
        for (auto x : v)
        {
            if (x != k)
            {
                return false;
            }
        }
        return true;
    }
    static Big make(std::uint64_t k) { return Big{std::to_string(k), std::vector<std::uint64_t>(k % 40, k), k}; }
};
void gate(std::atomic<int>& g, int n)
{
    g.fetch_add(1);
    while (g.load() < n)
    {
    }
}
// many waiters, several markers, instrumented lock and condition variable
void probe_round(vh::Rng& r)
{
    Probe p;
    ProbeLock m{p};
    ProbeCv cv{p, r.next()};
    Big value{};
    const std::uint64_t k = r.below(100000);
    const int nw = static_cast<int>(1 + r.below(4));
    NonAllocatingFuture f{m, cv, value};
    std::atomic<int> g{0};
    std::atomic<bool> started{false};
    std::vector<std::thread> ts;
    const std::uint64_t s = r.next();
    for (int i = 0; i < nw; ++i)
    {
        ts.emplace_back([&, i] {
            vh::Rng q{s + static_cast<std::uint64_t>(i)};
            gate(g, nw + 1);
            vh::jitter(q);
            f.Wait();
            VH_CHECK(started, "future-early-return", "Wait returned before the value was provided");
            VH_CHECK(f.GetValue().good(k), "future-value", "waiter sees a value other than the one provided");
            if (q.chance(30))
            {
                f.Wait();  // a ready future does not block again
                VH_CHECK(f.GetValue().good(k), "future-value", "value changed between two waits");
            }
            vh::eval();
        });
    }
    gate(g, nw + 1);
    vh::jitter(r, 60);
    if (r.chance(30))
    {
        while (cv.sleeping() < static_cast<std::size_t>(nw) && r.chance(99))
        {
            std::this_thread::yield();
        }
    }
    started = true;
    const auto how = r.below(3);
    if (how == 0)
    {
        const Big b = Big::make(k);
        f.UpdateValueMarkReady(b);
        VH_CHECK(b.good(k), "future-copy-source", "the copied-from value was changed");
    }
    else if (how == 1)
    {
        f.UpdateValueMarkReady(Big::make(k));
    }
    else
    {
        f.GetValueForUpdate() = Big::make(k);
        f.MarkReady();
    }
    p.marked = true;
    VH_CHECK(cv.sleeping() == 0, "future-lost-wakeup", "a waiter is still asleep after the future was marked ready");
    VH_CHECK(!m.heldByMe(), "future-lock-kept", "the lock is still held after marking the future ready");
    if (r.chance(20))
    {
        f.MarkReady();
    }
    for (auto& t : ts)
    {
        t.join();
    }
    vh::distinct(vh::comb(how * 8 + static_cast<std::uint64_t>(nw), vh::counted("wakeups") % 97));
    vh::count("probe_rounds");
}
// the waiter owns future, lock and condition variable and drops them at once
template <class M, class C, class Mk>
void lifetime_round(vh::Rng& r, Mk mk)
{
    struct Box
    {
        std::atomic<NonAllocatingFuture<M, C, Big>*> f{nullptr};
    } box;
    const std::uint64_t k = r.below(100000);
    const std::uint64_t s = r.next();
    std::atomic<bool> provided{false};
    std::thread marker{[&] {
        vh::Rng q{s};
        NonAllocatingFuture<M, C, Big>* f = nullptr;
        while ((f = box.f.load()) == nullptr)
        {
        }
        vh::jitter(q, 50);
        provided = true;
        f->UpdateValueMarkReady(Big::make(k));
    }};
    {
        auto holder = mk();
        Big value;
        auto f = std::make_unique<NonAllocatingFuture<M, C, Big>>(*holder.first, *holder.second, value);
        box.f = f.get();
        vh::jitter(r, 30);
        f->Wait();
        VH_CHECK(provided, "future-early-return", "Wait returned before the value was provided");
        VH_CHECK(f->GetValue().good(k) && value.good(k), "future-value", "waiter sees a value other than the one provided");
        f.reset();
        // ends the lifetime of condition variable and lock
        holder.second.reset();
        if (r.chance(50))
        {
            holder.first->lock();
            holder.first->unlock();
        }
        holder.first.reset();
    }
    marker.join();
    vh::eval();
    vh::count("lifetime_rounds");
}
void void_round(vh::Rng& r)
{
    std::mutex m;
    std::condition_variable cv;
    NonAllocatingFuture f{m, cv};
    std::uint64_t plain = 0;  // published by MarkReady
    const std::uint64_t k = r.next();
    std::thread t{[&] {
        plain = k;
        f.MarkReady();
    }};
    f.Wait();
    VH_CHECK(plain == k, "future-value", "data written before MarkReady is not visible after Wait");
    t.join();
    vh::eval();
    vh::count("void_rounds");
}
}  // namespace
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("rounds", 400);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        probe_round(r);
        lifetime_round<std::mutex, std::condition_variable>(r, [] { return std::pair{std::make_unique<std::mutex>(), std::make_unique<std::condition_variable>()}; });
        lifetime_round<std::recursive_mutex, std::condition_variable_any>(r, [] { return std::pair{std::make_unique<std::recursive_mutex>(), std::make_unique<std::condition_variable_any>()}; });
        void_round(r);
    }
    vh::sample("rounds of 1-4 waiters x {copy, move, in-place} x spurious wake-ups; waiter-owned heap lifetime");
    vh::finish();
}
