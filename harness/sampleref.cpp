// Sample accounting: what was handed out plus what is available is constant, whatever is moved, taken or dropped, and by
// whichever thread.
#include "vh.h"

#include "score/mw/com/impl/sample_allocatee_guard.h"
#include "score/mw/com/impl/sample_allocatee_tracker.h"
#include "score/mw/com/impl/sample_reference_tracker.h"

#include <deque>
#include <memory>
#include <optional>

using namespace score::mw::com::impl;
namespace
{
// ---- one thread against a model
void model_run(std::uint64_t seed)
{
    vh::Rng r{seed};
    constexpr int kTrackers = 2;
    std::size_t max[kTrackers];
    std::optional<SampleReferenceTracker> tr[kTrackers];
    for (int i = 0; i < kTrackers; ++i)
    {
        max[i] = r.chance(10) ? 0 : r.chance(20) ? r.range(100, 100000) : r.range(1, 12);
        if (r.chance(50))
        {
            tr[i].emplace(max[i]);
        }
        else
        {
            tr[i].emplace();
            tr[i]->Reset(max[i]);
        }
    }
    struct F
    {
        std::unique_ptr<TrackerGuardFactory> f;
        int t;
        std::size_t n;
    };
    struct G
    {
        SampleReferenceGuard g;
        int t;  // -1: empty
    };
    std::vector<F> fs;
    std::vector<std::unique_ptr<G>> gs;
    auto out = [&](int t) {
        std::size_t n = 0;
        for (auto& f : fs)
        {
            n += f.t == t ? f.n : 0;
        }
        for (auto& g : gs)
        {
            n += g->t == t ? 1U : 0U;
        }
        return n;
    };
    std::uint64_t shape = seed & 3U;
    const auto steps = r.range(50, 300);
    for (std::uint64_t s = 0; s < steps; ++s)
    {
        const auto what = r.below(11);
        if (what <= 1 && fs.size() < 20)
        {
            const int t = static_cast<int>(r.below(kTrackers));
            const std::size_t free = max[t] - out(t);
            const std::size_t want = r.chance(15) ? 0 : r.chance(20) ? free : r.chance(15) ? SIZE_MAX : r.range(1, max[t] + 2);
            auto f = std::make_unique<TrackerGuardFactory>(tr[t]->Allocate(want));
            const std::size_t got = std::min(want, free);
            VH_CHECK(f->GetNumAvailableGuards() == got, "allocate-count", "asked for ", want, " of ", free, " samples, got ", f->GetNumAvailableGuards());
            fs.push_back({std::move(f), t, got});
        }
        else if (what <= 4 && !fs.empty())
        {
            auto& f = r.pick(fs);
            auto g = f.f->TakeGuard();
            VH_CHECK(g.has_value() == (f.n > 0), "take-guard", "TakeGuard with ", f.n, " guards left", g.has_value() ? " succeeded" : " failed");
            if (g.has_value())
            {
                f.n -= 1;
                gs.push_back(std::make_unique<G>(G{std::move(*g), f.t}));
            }
            VH_CHECK(f.f->GetNumAvailableGuards() == f.n, "guards-left", "guards left ", f.f->GetNumAvailableGuards(), " instead of ", f.n);
        }
        else if (what == 5 && !fs.empty())
        {
            const auto i = r.below(fs.size());
            fs.erase(fs.begin() + static_cast<std::ptrdiff_t>(i));
        }
        else if (what == 6 && !fs.empty())
        {
            // the factory moves on, the old one is left with nothing
            auto& f = r.pick(fs);
            auto m = std::make_unique<TrackerGuardFactory>(std::move(*f.f));
            VH_CHECK(f.f->GetNumAvailableGuards() == 0, "moved-factory", "moved-from factory still has guards");
            VH_CHECK(m->GetNumAvailableGuards() == f.n, "moved-factory", "moved factory lost guards");
            if (r.chance(50))
            {
                f.f = std::move(m);
            }
            else
            {
                const auto t = f.t;
                const auto n = f.n;
                f.n = 0;
                fs.push_back({std::move(m), t, n});
            }
        }
        else if (what == 7 && !gs.empty())
        {
            gs.erase(gs.begin() + static_cast<std::ptrdiff_t>(r.below(gs.size())));
        }
        else if (what == 8 && gs.size() > 1)
        {
            auto& a = *r.pick(gs);
            auto& b = *r.pick(gs);
            a.g = std::move(b.g);  // may be itself
            if (&a != &b)
            {
                a.t = b.t;
                b.t = -1;
            }
        }
        else if (what == 9 && !gs.empty())
        {
            auto& a = *r.pick(gs);
            gs.push_back(std::make_unique<G>(G{std::move(a.g), a.t}));
            a.t = -1;
        }
        else if (what == 10)
        {
            const int t = static_cast<int>(r.below(kTrackers));
            if (out(t) == 0)
            {
                max[t] = r.range(0, 12);
                tr[t]->Reset(max[t]);
            }
        }
        for (int t = 0; t < kTrackers; ++t)
        {
            VH_CHECK(tr[t]->GetNumAvailableSamples() + out(t) == max[t], "sample-conservation", "available ", tr[t]->GetNumAvailableSamples(), " + handed out ", out(t), " != ", max[t]);
            VH_CHECK(tr[t]->IsUsed() == (out(t) > 0), "is-used", "IsUsed wrong with ", out(t), " samples out");
        }
        shape = vh::comb(shape, what * 16 + std::min<std::size_t>(out(0), 15));
        vh::eval();
    }
    vh::distinct(shape);
    fs.clear();
    gs.clear();
    for (int t = 0; t < kTrackers; ++t)
    {
        VH_CHECK(tr[t]->GetNumAvailableSamples() == max[t], "sample-conservation", "samples lost at the end");
    }
    vh::count("model_runs");
}

// ---- many threads
void threads_run(std::uint64_t seed)
{
    vh::Rng r{seed};
    const std::size_t max = r.range(1, 10);
    SampleReferenceTracker tr{max};
    std::atomic<std::int64_t> held{0};
    std::atomic<std::int64_t> peak{0};
    std::atomic<std::uint64_t> empty{0};
    const auto nt = r.range(2, 4);
    std::vector<std::thread> ts;
    // guards change hands
    std::mutex m;
    std::deque<SampleReferenceGuard> pool;
    for (std::uint64_t t = 0; t < nt; ++t)
    {
        ts.emplace_back([&, q = r.next()] {
            vh::Rng rr{q};
            std::vector<SampleReferenceGuard> mine;
            for (int i = 0; i < 200; ++i)
            {
                const std::size_t want = rr.range(1, max + 1);
                {
                    auto f = tr.Allocate(want);
                    const auto got = f.GetNumAvailableGuards();
                    const auto now = held.fetch_add(static_cast<std::int64_t>(got)) + static_cast<std::int64_t>(got);
                    VH_CHECK(got <= want, "allocate-count", "got ", got, " samples, wanted ", want);
                    VH_CHECK(now <= static_cast<std::int64_t>(max), "over-allocation", now, " of ", max, " samples handed out at the same time");
                    std::int64_t p = peak.load();
                    while (p < now && !peak.compare_exchange_weak(p, now))
                    {
                    }
                    if (got == 0)
                    {
                        empty.fetch_add(1);
                    }
                    const auto take = rr.below(got + 1);
                    for (std::uint64_t k = 0; k < take; ++k)
                    {
                        auto g = f.TakeGuard();
                        VH_CHECK(g.has_value(), "take-guard", "guard missing");
                        mine.push_back(std::move(*g));
                    }
                    vh::jitter(rr, 20);
                    // about to give the rest back
                    held.fetch_sub(static_cast<std::int64_t>(got - take));
                }
                if (!mine.empty() && rr.chance(30))
                {
                    std::lock_guard<std::mutex> l{m};
                    pool.push_back(std::move(mine.back()));
                    mine.pop_back();
                }
                if (rr.chance(40))
                {
                    std::optional<SampleReferenceGuard> g;
                    {
                        std::lock_guard<std::mutex> l{m};
                        if (!pool.empty())
                        {
                            g.emplace(std::move(pool.front()));
                            pool.pop_front();
                        }
                    }
                    if (g.has_value())
                    {
                        held.fetch_sub(1);
                    }
                }
                while (!mine.empty() && rr.chance(60))
                {
                    held.fetch_sub(1);
                    mine.pop_back();
                }
                VH_CHECK(tr.GetNumAvailableSamples() <= max, "over-available", "available ", tr.GetNumAvailableSamples(), " of ", max);
                vh::eval();
            }
            held.fetch_sub(static_cast<std::int64_t>(mine.size()));
        });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    pool.clear();
    VH_CHECK(tr.GetNumAvailableSamples() == max, "sample-conservation", "after everything was given back ", tr.GetNumAvailableSamples(), " of ", max, " samples are available");
    VH_CHECK(!tr.IsUsed(), "is-used", "still used");
    vh::distinct(vh::comb(vh::comb(7, max * 8 + nt), vh::comb(static_cast<std::uint64_t>(peak.load()), empty.load() % 97)));
    vh::count("thread_runs");
    vh::count("allocations_refused", empty.load());
}

// ---- the allocatee side
void allocatee_run(std::uint64_t seed)
{
    vh::Rng r{seed};
    {
        SampleAllocateeTracker a;
        SampleAllocateeTracker b;
        SampleAllocateeTracker* ts[2] = {&a, &b};
        struct G
        {
            SampleAllocateeGuard g;
            int t;
        };
        std::vector<std::unique_ptr<G>> gs;
        auto out = [&](int t) {
            std::size_t n = 0;
            for (auto& g : gs)
            {
                n += g->t == t ? 1U : 0U;
            }
            return n;
        };
        for (int i = 0; i < 200; ++i)
        {
            const auto what = r.below(6);
            const int t = static_cast<int>(r.below(2));
            if (what <= 1)
            {
                gs.push_back(std::make_unique<G>(G{ts[t]->Allocate(), t}));
            }
            else if (what == 2 && !gs.empty())
            {
                gs.erase(gs.begin() + static_cast<std::ptrdiff_t>(r.below(gs.size())));
            }
            else if (what == 3 && !gs.empty())
            {
                auto& x = *r.pick(gs);
                auto& y = *r.pick(gs);
                x.g = std::move(y.g);
                if (&x != &y)
                {
                    x.t = y.t;
                    y.t = -1;
                }
            }
            else if (what == 4 && !gs.empty())
            {
                auto& x = *r.pick(gs);
                gs.push_back(std::make_unique<G>(G{std::move(x.g), x.t}));
                x.t = -1;
            }
            else if (what == 5 && !gs.empty())
            {
                r.pick(gs)->g = SampleAllocateeGuard{};
                // which one is found by the numbers below; pick again deterministically
                std::size_t empty_a = out(0) - a.GetNumAllocated();
                std::size_t empty_b = out(1) - b.GetNumAllocated();
                VH_CHECK(empty_a + empty_b <= 1, "allocatee-count", "clearing one guard released ", empty_a + empty_b);
                for (auto& g : gs)
                {
                    // the guard that lost its reference must be one of these: drop them all to stay in step
                    (void)g;
                }
                gs.clear();
            }
            VH_CHECK(a.GetNumAllocated() == out(0) && b.GetNumAllocated() == out(1), "allocatee-count", "allocated ", a.GetNumAllocated(), "/", b.GetNumAllocated(), " instead of ", out(0), "/", out(1));
            vh::eval();
        }
        gs.clear();
        VH_CHECK(a.GetNumAllocated() == 0 && b.GetNumAllocated() == 0, "allocatee-count", "not zero at the end");
        std::vector<std::thread> th;
        std::atomic<std::int64_t> floor{0};
        for (int k = 0; k < 3; ++k)
        {
            th.emplace_back([&, q = r.next()] {
                vh::Rng rr{q};
                std::vector<SampleAllocateeGuard> mine;
                for (int i = 0; i < 150; ++i)
                {
                    if (rr.chance(55))
                    {
                        mine.push_back(a.Allocate());
                    }
                    else if (!mine.empty())
                    {
                        mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(rr.below(mine.size())));
                    }
                    VH_CHECK(a.GetNumAllocated() >= mine.size(), "allocatee-count", "fewer allocated than this thread holds");
                    vh::eval();
                }
            });
        }
        for (auto& t : th)
        {
            t.join();
        }
        VH_CHECK(a.GetNumAllocated() == 0, "allocatee-count", "not zero after all threads gave back");
    }
    // a tracker that goes away before its guards ends the process instead of leaving them dangling
    if (r.chance(20))
    {
        const auto res = vh::run_child([&] {
            const int null = ::open("/dev/null", O_WRONLY);
            ::dup2(null, 2);
            ::dup2(null, 1);
            auto t = std::make_unique<SampleAllocateeTracker>();
            SampleAllocateeGuard g = t->Allocate();
            SampleAllocateeGuard h = std::move(g);
            t.reset();
            ::_exit(0);
        });
        VH_CHECK(!(res.exited && res.code == 0), "tracker-outlived", "a tracker was destroyed under its guards and the process went on");
        vh::count("outlived_trackers");
    }
    vh::count("allocatee_runs");
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 40);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        model_run(r.next());
        model_run(r.next());
        threads_run(r.next());
        allocatee_run(r.next());
    }
    vh::sample("random allocate/take/move/assign/drop sequences over two trackers; 2-4 threads allocating, handing over and dropping guards");
    vh::finish();
}
