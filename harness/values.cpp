// Small value types that other parts rely on: ownership flags, copyable atomics, claimed call slots, element views,
// address bounds, slot counts and compile-time helpers, each against a model.
#include "vh.h"

#include "score/memory/shared/memory_region_bounds.h"
#include "score/mw/com/impl/bindings/lola/messaging/asil_specific_cfg.h"
#include "score/mw/com/impl/bindings/lola/messaging/thread_abstraction.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/quality_aware_container.h"
#include "score/mw/com/impl/bindings/lola/skeleton_event_properties.h"
#include "score/mw/com/impl/field_tags_store.h"
#include "score/mw/com/impl/flag_owner.h"
#include "score/mw/com/impl/methods/callable_traits.h"
#include "score/mw/com/impl/methods/method_signature_element_ptr.h"
#include "score/mw/com/impl/service_element_map_view.h"
#include "score/mw/com/impl/service_element_map_view_factory.h"
#include "score/mw/com/impl/util/arithmetic_utils.h"
#include "score/mw/com/impl/util/copyable_atomic.h"

#include <array>
#include <deque>
#include <map>
#include <memory>
#include <optional>

using namespace score::mw::com::impl;
using score::memory::shared::MemoryRegionBounds;
namespace
{
// ---- a set flag has exactly one owner
void flag_run(vh::Rng& r)
{
    struct M
    {
        std::unique_ptr<FlagOwner> f;
        bool set;
    };
    std::vector<M> v;
    {
        FlagOwner d;
        VH_CHECK(!d.IsSet(), "flag-default", "a default flag is set");
    }
    std::uint64_t shape = 1;
    for (int i = 0; i < 120; ++i)
    {
        const auto what = r.below(6);
        if (what == 0 || v.size() < 2)
        {
            const bool b = r.chance(50);
            v.push_back({std::make_unique<FlagOwner>(b), b});
        }
        auto& a = r.pick(v);
        auto& b = r.pick(v);
        if (what == 1)
        {
            *a.f = std::move(*b.f);
            if (&a != &b)
            {
                a.set = b.set;
                b.set = false;
            }
        }
        else if (what == 2)
        {
            M n{std::make_unique<FlagOwner>(std::move(*b.f)), b.set};
            b.set = false;
            v.push_back(std::move(n));
        }
        else if (what == 3)
        {
            a.f->Set();
            a.set = true;
        }
        else if (what == 4)
        {
            a.f->Clear();
            a.set = false;
        }
        else if (what == 5 && v.size() > 8)
        {
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(r.below(v.size())));
        }
        for (auto& m : v)
        {
            VH_CHECK(m.f->IsSet() == m.set, "flag-owner", "flag is ", m.f->IsSet(), " instead of ", m.set, " after step ", what);
        }
        shape = vh::comb(shape, what);
        vh::eval();
    }
    vh::distinct(shape);
}

// ---- claimed call slots: active exactly as long as one pointer owns the slot
struct Elem
{
    std::uint64_t a;
    struct Part
    {
        std::uint32_t x;
    } part;
};
void element_ptr_run(vh::Rng& r)
{
    constexpr std::size_t kSlots = 6;
    std::array<Elem, kSlots> el{};
    std::array<bool, kSlots> active{};
    std::array<bool, kSlots> model{};
    for (std::size_t i = 0; i < kSlots; ++i)
    {
        el[i].a = i * 17;
        el[i].part.x = static_cast<std::uint32_t>(i) + 100U;
    }
    using P = MethodSignatureElementPtr<Elem>;
    using Q = MethodSignatureElementPtr<Elem::Part>;
    struct Own
    {
        std::unique_ptr<P> p;
        std::unique_ptr<Q> q;
        std::size_t slot;
        bool owns;
    };
    std::vector<Own> v;
    std::uint64_t shape = 2;
    for (int s = 0; s < 150; ++s)
    {
        const auto what = r.below(5);
        if (what <= 1)
        {
            std::vector<std::size_t> free;
            for (std::size_t i = 0; i < kSlots; ++i)
            {
                if (!model[i])
                {
                    free.push_back(i);
                }
            }
            if (!free.empty())
            {
                const auto i = r.pick(free);
                // the position is independent of the slot here, so that mixing them up shows
                v.push_back({std::make_unique<P>(el[i], active[i], i + 1000), nullptr, i, true});
                model[i] = true;
            }
        }
        else if (what == 2 && !v.empty())
        {
            auto& o = r.pick(v);
            Own n{nullptr, nullptr, o.slot, o.owns};
            if (o.p != nullptr)
            {
                n.p = std::make_unique<P>(std::move(*o.p));
                VH_CHECK(o.p->get() == nullptr, "element-moved", "moved-from pointer still refers to the element");
            }
            else
            {
                n.q = std::make_unique<Q>(std::move(*o.q));
                VH_CHECK(o.q->get() == nullptr, "element-moved", "moved-from pointer still refers to the element");
            }
            o.owns = false;
            v.push_back(std::move(n));
        }
        else if (what == 3 && !v.empty())
        {
            auto& o = r.pick(v);
            if (o.p != nullptr && o.owns)
            {
                Own n{nullptr, std::make_unique<Q>(el[o.slot].part, std::move(*o.p)), o.slot, true};
                VH_CHECK(o.p->get() == nullptr, "element-moved", "converted-from pointer still refers to the element");
                o.owns = false;
                v.push_back(std::move(n));
            }
        }
        else if (what == 4 && !v.empty())
        {
            const auto i = r.below(v.size());
            if (v[i].owns)
            {
                model[v[i].slot] = false;
            }
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
        }
        for (std::size_t i = 0; i < kSlots; ++i)
        {
            VH_CHECK(active[i] == model[i], "slot-active", "slot ", i, " is ", active[i] ? "claimed" : "free", " but should be ", model[i] ? "claimed" : "free", " after step ", what);
        }
        for (auto& o : v)
        {
            if (o.owns && o.p != nullptr)
            {
                VH_CHECK(o.p->get() == &el[o.slot] && &**o.p == &el[o.slot] && (*o.p)->a == o.slot * 17, "element", "pointer refers to another element");
                VH_CHECK(o.p->GetQueuePosition() == o.slot + 1000, "queue-position", "position ", o.p->GetQueuePosition(), " instead of ", o.slot + 1000);
            }
            if (o.owns && o.q != nullptr)
            {
                VH_CHECK(o.q->get() == &el[o.slot].part && (*o.q)->x == o.slot + 100, "element", "pointer refers to another element part");
                VH_CHECK(o.q->GetQueuePosition() == o.slot + 1000, "queue-position", "position ", o.q->GetQueuePosition(), " instead of ", o.slot + 1000);
            }
        }
        shape = vh::comb(shape, what + 8 * std::min<std::size_t>(v.size(), 7));
        vh::eval();
    }
    v.clear();
    for (std::size_t i = 0; i < kSlots; ++i)
    {
        VH_CHECK(!active[i], "slot-active", "slot ", i, " is claimed although no pointer is left");
    }
    vh::distinct(shape);
}

// ---- copyable atomics: values, independence of copies, and that a value read carries what was written before it
void atomic_run(vh::Rng& r)
{
    {
        std::vector<CopyableAtomic<std::uint64_t>> v;
        std::vector<std::uint64_t> m;
        v.reserve(4);
        for (int i = 0; i < 60; ++i)
        {
            const auto what = r.below(5);
            if (what == 0 || v.empty())
            {
                const auto x = r.next();
                v.emplace_back(x);
                m.push_back(x);
            }
            const auto a = r.below(v.size());
            const auto b = r.below(v.size());
            if (what == 1)
            {
                v[a] = v[b];
                m[a] = m[b];
            }
            else if (what == 2)
            {
                const auto x = r.next();
                v[a].GetUnderlying() = x;
                m[a] = x;
            }
            else if (what == 3)
            {
                CopyableAtomic<std::uint64_t> c{v[b]};
                v[b].GetUnderlying() += 1;
                m[b] += 1;
                VH_CHECK(static_cast<std::uint64_t>(c) == m[b] - 1, "atomic-copy", "copy follows its source");
            }
            for (std::size_t k = 0; k < v.size(); ++k)
            {
                VH_CHECK(static_cast<std::uint64_t>(v[k]) == m[k], "atomic-value", "value ", static_cast<std::uint64_t>(v[k]), " instead of ", m[k]);
                const auto& cv = v[k];
                VH_CHECK(cv.GetUnderlying().load() == m[k], "atomic-value", "underlying differs");
            }
            vh::eval();
        }
    }
    {
        CopyableAtomic<std::uint32_t> c{0};
        std::uint64_t payload = 0;
        std::thread w{[&] {
            payload = 0xABCDEF;
            const CopyableAtomic<std::uint32_t> one{1};
            c = one;
        }};
        while (static_cast<std::uint32_t>(c) == 0)
        {
        }
        VH_CHECK(payload == 0xABCDEF, "atomic-publish", "what was written before the value is not visible");
        w.join();
        CopyableAtomic<std::uint32_t> d{0};
        std::uint64_t payload2 = 0;
        std::thread w2{[&] {
            payload2 = 77;
            d.GetUnderlying().store(1);
        }};
        for (;;)
        {
            CopyableAtomic<std::uint32_t> e{d};
            if (static_cast<std::uint32_t>(e) == 1)
            {
                break;
            }
        }
        VH_CHECK(payload2 == 77, "atomic-publish", "what was written before the copied value is not visible");
        w2.join();
        vh::eval(2);
        vh::count("publications", 2);
    }
    // counting through the wrapped atomic loses nothing
    CopyableAtomic<std::uint32_t> n{0};
    std::vector<std::thread> t;
    for (int i = 0; i < 3; ++i)
    {
        t.emplace_back([&n] {
            for (int k = 0; k < 500; ++k)
            {
                n.GetUnderlying()++;
            }
        });
    }
    for (auto& x : t)
    {
        x.join();
    }
    VH_CHECK(static_cast<std::uint32_t>(n) == 1500, "atomic-count", "lost increments");
}

// ---- which accessors a field has
template <class... T>
void tags_one(bool n, bool s, bool g)
{
    const auto st = FieldTagsStore::Create<T...>();
    VH_CHECK(st.HasNotifier() == n && st.HasSetter() == s && st.HasGetter() == g, "field-tags", "tags ", st.HasNotifier(), st.HasSetter(), st.HasGetter(), " instead of ", n, s, g);
    const FieldTagsStore all[8] = {FieldTagsStore::Create<>(), FieldTagsStore::Create<WithGetter>(), FieldTagsStore::Create<WithSetter>(), FieldTagsStore::Create<WithSetter, WithGetter>(),
                                   FieldTagsStore::Create<WithNotifier>(), FieldTagsStore::Create<WithGetter, WithNotifier>(), FieldTagsStore::Create<WithNotifier, WithSetter>(),
                                   FieldTagsStore::Create<WithGetter, WithNotifier, WithSetter>()};
    for (unsigned i = 0; i < 8; ++i)
    {
        const bool same = (((i & 4U) != 0) == n) && (((i & 2U) != 0) == s) && (((i & 1U) != 0) == g);
        VH_CHECK((st == all[i]) == same && (all[i] == st) == same, "field-tags-compare", "comparison of tags ", n, s, g, " with ", i);
        vh::eval();
        vh::distinct(vh::comb(3, (n ? 4U : 0U) + (s ? 2U : 0U) + (g ? 1U : 0U) + 8U * i));
    }
}
template <class F, class C, class R, class... E>
void tag_enabled(bool expect)
{
    VH_CHECK((is_tag_enabled<F, C, R, E...>::value) == expect, "tag-enabled", "is_tag_enabled is not ", expect);
    vh::eval();
}
void tags_run()
{
    tags_one<>(false, false, false);
    tags_one<WithGetter>(false, false, true);
    tags_one<WithSetter>(false, true, false);
    tags_one<WithNotifier>(true, false, false);
    tags_one<WithGetter, WithSetter>(false, true, true);
    tags_one<WithSetter, WithGetter>(false, true, true);
    tags_one<WithGetter, WithNotifier>(true, false, true);
    tags_one<WithNotifier, WithGetter>(true, false, true);
    tags_one<WithSetter, WithNotifier>(true, true, false);
    tags_one<WithNotifier, WithSetter>(true, true, false);
    tags_one<WithGetter, WithSetter, WithNotifier>(true, true, true);
    tags_one<WithNotifier, WithSetter, WithGetter>(true, true, true);
    tags_one<int, WithNotifier, char>(true, false, false);
    tag_enabled<int, int, WithGetter, WithSetter, WithGetter>(true);
    tag_enabled<int, char, WithGetter, WithSetter, WithGetter>(false);
    tag_enabled<int, int, WithNotifier, WithSetter, WithGetter>(false);
    tag_enabled<int, int, WithNotifier>(false);
}

// ---- views of the elements of a service
struct Item
{
    std::uint64_t v;
};
void view_run(vh::Rng& r)
{
    using Map = ServiceElementMapViewFactory<Item>::map_type;
    std::deque<std::string> names;
    for (int i = 0; i < 12; ++i)
    {
        names.push_back(std::string(r.below(3), 'a') + std::to_string(r.below(30)));
    }
    Map m;
    Map other;
    auto view = ServiceElementMapViewFactory<Item>::Create(m);
    const auto cview = ServiceElementMapViewFactory<Item>::Create(m);
    std::map<std::string, std::uint64_t> model;
    for (int i = 0; i < 40; ++i)
    {
        const std::string& n = r.pick(names);
        if (r.chance(60))
        {
            const auto x = r.next();
            m[n] = Item{x};
            model[n] = x;
        }
        else
        {
            m.erase(n);
            model.erase(n);
        }
        auto copy = view;
        if (r.chance(30))
        {
            copy = ServiceElementMapViewFactory<Item>::Create(other);
            VH_CHECK(copy.empty() && copy.size() == 0 && copy.begin() == copy.end(), "view-empty", "view of an empty map has elements");
            copy = view;
        }
        VH_CHECK(copy.size() == model.size() && copy.empty() == model.empty(), "view-size", "view has ", copy.size(), " elements instead of ", model.size());
        auto it = model.begin();
        for (auto& e : copy)
        {
            VH_CHECK(it != model.end() && e.first == it->first && e.second.v == it->second, "view-iterate", "iteration differs from the elements");
            ++it;
        }
        VH_CHECK(it == model.end(), "view-iterate", "iteration misses elements");
        it = model.begin();
        for (auto c = cview.cbegin(); c != cview.cend(); ++c, ++it)
        {
            VH_CHECK(it != model.end() && c->first == it->first && c->second.v == it->second, "view-iterate", "iteration differs from the elements");
        }
        for (const auto& q : names)
        {
            const auto f = view.find(q);
            const auto cf = cview.find(q);
            const auto e = model.find(q);
            VH_CHECK((f != view.end()) == (e != model.end()) && (cf != cview.cend()) == (e != model.end()), "view-find", "find of ", q);
            if (f != view.end())
            {
                VH_CHECK(f->second.v == e->second && cf->second.v == e->second, "view-find", "find returns another element");
                f->second.v += 1;  // through to the element itself
                e->second += 1;
                VH_CHECK(m.find(q)->second.v == e->second, "view-through", "change did not reach the element");
            }
        }
        vh::eval();
        vh::distinct(vh::comb(4, model.size()));
    }
}

// ---- address bounds: both ends or none
void bounds_run(vh::Rng& r)
{
    {
        MemoryRegionBounds d;
        VH_CHECK(!d.has_value() && d.GetStartAddress() == 0 && d.GetEndAddress() == 0, "bounds-default", "default bounds have a value");
    }
    MemoryRegionBounds a;
    std::uintptr_t s = 0;
    std::uintptr_t e = 0;
    auto gen = [&](std::uintptr_t& x, std::uintptr_t& y) {
        const auto k = r.below(4);
        x = k == 0 ? 1 : k == 1 ? UINTPTR_MAX : k == 2 ? r.next() | 1U : r.range(1, 4);
        y = r.chance(30) ? x : r.chance(30) ? r.range(1, 4) : r.next() | 1U;
    };
    for (int i = 0; i < 60; ++i)
    {
        const auto what = r.below(4);
        if (what == 0)
        {
            gen(s, e);
            a.Set(s, e);
        }
        else if (what == 1)
        {
            a.Reset();
            s = e = 0;
        }
        else if (what == 2)
        {
            gen(s, e);
            a = MemoryRegionBounds{s, e};
        }
        VH_CHECK(a.GetStartAddress() == s && a.GetEndAddress() == e && a.has_value() == (s != 0), "bounds", "bounds ", a.GetStartAddress(), "-", a.GetEndAddress(), " instead of ", s, "-", e);
        std::uintptr_t s2 = s;
        std::uintptr_t e2 = e;
        if (r.chance(70))
        {
            gen(s2, e2);
        }
        if (s != 0 && r.chance(30))
        {
            s2 = s;
        }
        if (e != 0 && r.chance(30))
        {
            e2 = e;
        }
        const MemoryRegionBounds b{s2, e2};
        const bool same = s == s2 && e == e2;
        VH_CHECK((a == b) == same && (a != b) == !same && (b == a) == same, "bounds-compare", "comparison of ", s, "-", e, " with ", s2, "-", e2);
        vh::eval();
        vh::distinct(vh::comb(5, (same ? 1U : 0U) + 2U * (s == s2) + 4U * (e == e2) + 8U * (s == 0) + 16U * what));
    }
    if (r.chance(10))
    {
        for (int k = 0; k < 4; ++k)
        {
            const auto res = vh::run_child([&] {
                MemoryRegionBounds b;
                switch (k)
                {
                    case 0: b.Set(0, 5); break;
                    case 1: b.Set(5, 0); break;
                    case 2: b = MemoryRegionBounds{0, 7}; break;
                    default: b = MemoryRegionBounds{7, 0}; break;
                }
            });
            VH_CHECK(!(res.exited && res.code == 0), "bounds-half", "bounds with only one end were accepted");
            vh::eval();
        }
        vh::count("half_bounds", 4);
    }
}

// ---- sums of slots and compile-time helpers
void sums_run(vh::Rng& r)
{
    for (int i = 0; i < 50; ++i)
    {
        const auto a = r.below(r.chance(50) ? 5 : 60000);
        const auto b = r.below(300);
        const auto c = r.below(3);
        const bool d = r.chance(50);
        const auto subs = r.below(100);
        const bool enf = r.chance(50);
        lola::SkeletonEventProperties p{a, b, c, d, subs, enf};
        VH_CHECK(p.GetTotalNumberOfSlots() == a + b + c + (d ? 1U : 0U), "slot-sum", "total of ", a, "+", b, "+", c, "+", d, " is ", p.GetTotalNumberOfSlots());
        VH_CHECK(p.GetNumberOfFieldGetterSlots() == c && p.max_subscribers == subs && p.enforce_max_samples == enf, "slot-props", "properties got mixed up");
        vh::eval();
        vh::distinct(vh::comb(6, (a == 0) + 2U * (b == 0) + 4U * c + 16U * d));
    }
    VH_CHECK((add_without_overflow<std::uint8_t, 200, 55>() == 255), "arith", "200+55");
    VH_CHECK((add_without_overflow<std::uint64_t, 0xFFFFFFFF00000000ULL, 0xFFFFFFFFULL>() == UINT64_MAX), "arith", "64 bit sum");
    VH_CHECK((add_without_overflow<int, 2000000000, 147483647>() == INT32_MAX), "arith", "int sum");
    VH_CHECK((multiply_without_overflow<std::uint16_t, 255, 257>() == 65535), "arith", "255*257");
    VH_CHECK((multiply_without_overflow<std::uint64_t, 0x100000000ULL, 0xFFFFFFFFULL>() == 0xFFFFFFFF00000000ULL), "arith", "64 bit product");
    VH_CHECK((multiply_without_overflow<std::size_t, 0, 5>() == 0), "arith", "0*5");
    vh::eval(6);
    lola::QualityAwareContainer<int> q;
    VH_CHECK(q.asil_b == 0 && q.asil_qm == 0, "quality-container", "not value-initialised");
    struct Mock final : lola::ThreadHWConcurrencyIfc
    {
        std::uint32_t hardware_concurrency() const noexcept override { return 4711; }
    } mock;
    lola::ThreadHWConcurrency::injectMock(&mock);
    VH_CHECK(lola::ThreadHWConcurrency::hardware_concurrency() == 4711, "hw-concurrency", "replacement not used");
    lola::ThreadHWConcurrency::injectMock(nullptr);
    VH_CHECK(lola::ThreadHWConcurrency::hardware_concurrency() == std::thread::hardware_concurrency(), "hw-concurrency", "not the one of the machine");
    vh::eval(3);
}
template <class F, class Args, class Ret>
void callable(const char* what)
{
    VH_CHECK((std::is_same_v<typename get_callable_args_types<F>::type, Args>), "callable-args", "argument types of ", what);
    VH_CHECK((std::is_same_v<typename get_callable_return_type<F>::type, Ret>), "callable-return", "return type of ", what);
    vh::eval();
}
struct Fn
{
    char operator()(int&, const long&, double) const noexcept { return 'a'; }
};
struct Fn2
{
    void operator()(Fn) noexcept {}
};
void traits_run()
{
    auto a = [](int, const char&) {};
    auto b = [](std::string&, const double&) noexcept { return 3U; };
    auto c = [x = 0]() mutable { return ++x; };
    auto d = [x = 0](long) mutable noexcept { return static_cast<double>(++x); };
    callable<decltype(a), std::tuple<int, const char&>, void>("const");
    callable<decltype(a)&, std::tuple<int, const char&>, void>("reference");
    callable<const decltype(b)&, std::tuple<std::string&, const double&>, unsigned>("const noexcept");
    callable<decltype(c), std::tuple<>, int>("mutable");
    callable<decltype(d)&&, std::tuple<long>, double>("mutable noexcept");
    callable<Fn, std::tuple<int&, const long&, double>, char>("functor");
    callable<Fn2, std::tuple<Fn>, void>("non-const functor");
    VH_CHECK((std::is_same_v<get_tuple_tail_t<std::tuple<int, char, long>>, std::tuple<char, long>>), "tuple-tail", "tail of three");
    VH_CHECK((std::is_same_v<get_tuple_tail_t<std::tuple<int&>>, std::tuple<>>), "tuple-tail", "tail of one");
    VH_CHECK((is_tuple_empty<std::tuple<>>::value && !is_tuple_empty<std::tuple<int>>::value && is_tuple_empty_t<std::tuple<>>::value && !is_tuple_empty_t<std::tuple<int, int>>::value), "tuple-empty", "empty");
    VH_CHECK((std::is_same_v<remove_cvref_t<const volatile int&>, int> && std::is_same_v<remove_cvref_t<Fn&&>, Fn> && std::is_same_v<remove_cvref_t<const int*>, const int*>), "remove-cvref", "cvref");
    vh::eval(5);
}
}  // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::Rng r{vh::seed()};
    const auto n = vh::arg("n", 60);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        flag_run(r);
        element_ptr_run(r);
        atomic_run(r);
        view_run(r);
        bounds_run(r);
        sums_run(r);
    }
    tags_run();
    traits_run();
    vh::count("runs", n);
    vh::sample("random create/move/convert/destroy histories of flags and call-slot pointers; concurrent publication through copied atomics");
    vh::finish();
}
