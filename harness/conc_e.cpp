// Disposables under threads.
#include "conc.hpp"

namespace cc
{
    namespace
    {
        struct Child
        {
            std::atomic<int>      runs{0};
            std::atomic<uint64_t> at{0};
            bool                  removed_clean{false}; // remove returned before anything disposed the parent
            bool                  removed{false};
            uint64_t              add_b{0}, add_e{0}, rem_b{~0ull}, rem_e{~0ull};
            int                   runs_after_add{0};
            rpp::disposable_wrapper d = rpp::disposable_wrapper::empty();
        };
        rpp::disposable_wrapper make_child(Child& k, int p)
        {
            return rpp::make_callback_disposable([&k, p]() noexcept {
                k.at.store(tick(), ORD);
                k.runs.fetch_add(1, ORD);
                if (p)
                    vi::pause(p);
            });
        }

        void sc_composite(Ctx& c)
        {
            const int         adders = c.r.range(1, 3), disposers = c.r.range(0, 2), clearers = c.r.range(0, 1);
            const int         per  = c.r.range(1, 6);
            auto              root = rpp::composite_disposable_wrapper::make();
            std::deque<Child> kids(size_t(adders * per));
            std::deque<std::atomic<uint64_t>> end_b(8); // begin of dispose / clear calls
            for (auto& x : end_b)
                x = ~0ull;
            std::atomic<uint64_t> first_dispose_e{~0ull};
            const int             p = c.pause_src, pk = c.pause_mon;
            Threads               t;
            for (int a = 0; a < adders; ++a)
            {
                const uint64_t bits = c.r.next();
                t.add([&, a, bits] {
                    uint64_t b = bits;
                    for (int i = 0; i < per; ++i)
                    {
                        auto& k = kids[size_t(a * per + i)];
                        k.d     = make_child(k, pk);
                        k.add_b = tick();
                        root.add(k.d);
                        k.add_e          = tick();
                        k.runs_after_add = k.runs.load(ORD);
                        if ((b & 3) == 0)
                        {
                            auto& g = kids[size_t(a * per + int((b >> 2) % uint64_t(i + 1)))]; // an own earlier one
                            if (!g.removed)
                            {
                                g.removed = true;
                                g.rem_b   = tick();
                                root.remove(g.d);
                                g.rem_e = tick();
                            }
                        }
                        b >>= 5;
                        if (b & 1)
                            vi::pause(p);
                        b >>= 1;
                    }
                });
            }
            int slot = 0;
            for (int i = 0; i < disposers; ++i, ++slot)
            {
                const int dl = c.r.below(4);
                t.add([&, dl, slot] {
                    for (int k = 0; k < dl; ++k)
                        vi::pause(1);
                    end_b[size_t(slot)] = tick();
                    root.dispose();
                    uint64_t e = tick(), cur = first_dispose_e.load();
                    while (e < cur && !first_dispose_e.compare_exchange_weak(cur, e))
                    {
                    }
                });
            }
            for (int i = 0; i < clearers; ++i, ++slot)
            {
                const int dl = c.r.below(4);
                t.add([&, dl, slot] {
                    for (int k = 0; k < dl; ++k)
                        vi::pause(1);
                    end_b[size_t(slot)] = tick();
                    root.clear();
                });
            }
            t.run();
            uint64_t first_end = ~0ull;
            for (auto& x : end_b)
                first_end = std::min(first_end, x.load());
            const std::string ctx = c.desc + vh::fmt(" adders=%d disposers=%d clearers=%d per=%d", adders, disposers, clearers, per);
            if (!disposers)
            {
                root.dispose();
            }
            if (!root.is_disposed())
                failp("P14", "not-disposed", "is_disposed is false after dispose in " + ctx);
            uint64_t h = 3;
            for (auto& k : kids)
            {
                const int r = k.runs.load();
                vh::events(1);
                h = vh::mix(h, uint64_t(r) + 4u * k.removed + 8u * unsigned(k.runs_after_add));
                if (r > 1)
                    failp("P14", "cleanup-twice", vh::fmt("a child's cleanup ran %d times in ", r) + ctx);
                if (!k.removed && r == 0)
                    failp("P14", "cleanup-lost", "a child that was added was never disposed in " + ctx);
#ifndef VH_TSAN
                if (k.removed && k.rem_e < first_end && r != 0)
                    failp("P14", "removed-disposed", "a child removed before any dispose was disposed in " + ctx);
                // after an earlier dispose has returned to somebody, add disposes at once
                if (k.add_b > first_dispose_e.load() && k.runs_after_add != 1)
                    failp("P14", "added-late", "a child added to a disposed composite was not disposed at once in " + ctx);
#endif
            }
            vh::sig(h);
            vh::sample(ctx);
            for (auto& k : kids)
                k.d = rpp::disposable_wrapper::empty();
            for (auto& k : kids)
                if (k.runs.load() != 1)
                    failp("P14", "cleanup-count", vh::fmt("a child's cleanup ran %d times in total in ", k.runs.load()) + ctx);
        }

        void sc_callback(Ctx& c)
        {
            const int threads = c.r.range(2, 5);
            Child     k;
            auto      d = make_child(k, c.pause_mon);
            Threads   t;
            for (int i = 0; i < threads; ++i)
            {
                const bool weak = c.r.chance(1, 3);
                t.add([&, weak] {
                    if (weak)
                        d.as_weak().dispose();
                    else
                        d.dispose();
                });
            }
            t.run();
            vh::events(threads);
            vh::sig(vh::mix(uint64_t(threads), c.r.next() & 15));
            if (k.runs != 1)
                failp("P14", "cleanup-twice", vh::fmt("%d threads disposed a callback disposable, it ran %d times", threads, k.runs.load()));
        }

        // references taken and released on many threads
        void sc_refcount(Ctx& c)
        {
            const int threads = c.r.range(2, 4);
            auto      root    = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
            Child     under;
            under.d = make_child(under, c.pause_mon);
            root.lock()->add(under.d);
            const bool strong = c.r.chance(1, 3);
            const auto mode   = strong ? rpp::refcount_disposable::Mode::StrongRefRefSource : rpp::refcount_disposable::Mode::WeakRefStrongSource;
            struct Ref
            {
                rpp::composite_disposable_wrapper w = rpp::composite_disposable_wrapper::empty();
                bool                              got{false};
                uint64_t                          rel_b{~0ull}, rel_e{~0ull}, add_b{0}, add_e{0};
                Child                             child{};
            };
            std::deque<Ref> refs;
            const int       per = c.r.range(1, 3);
            for (int i = 0; i < threads * per + 1; ++i)
                refs.emplace_back();
            const bool hold_first = c.r.chance(1, 2);
            auto       take       = [&](Ref& r) {
                r.add_b = tick();
                r.w     = root.lock()->add_ref(mode);
                r.add_e = tick();
                r.got   = !r.w.is_disposed();
                if (r.got)
                {
                    r.child.d = make_child(r.child, 0);
                    r.w.add(r.child.d);
                }
            };
            take(refs[0]);
            const int        p = c.pause_src;
            Threads          t;
            std::atomic<int> started{0};
            for (int i = 0; i < threads; ++i)
            {
                const uint64_t bits = c.r.next();
                t.add([&, i, bits] {
                    uint64_t b = bits;
                    for (int k = 0; k < per; ++k)
                    {
                        auto& r = refs[size_t(1 + i * per + k)];
                        take(r);
                        if (b & 1)
                            vi::pause(p);
                        b >>= 1;
                        r.rel_b = tick();
                        r.w.dispose();
                        if (b & 1)
                            r.w.dispose(); // releasing twice counts once
                        r.rel_e = tick();
                        b >>= 1;
                    }
                });
            }
            if (!hold_first)
                t.add([&] {
                    auto& r = refs[0];
                    vi::pause(1);
                    r.rel_b = tick();
                    r.w.dispose();
                    r.rel_e = tick();
                });
            t.run();
            const std::string ctx = c.desc + vh::fmt(" threads=%d per=%d strong=%d hold=%d", threads, per, strong, hold_first);
            if (hold_first)
            {
                for (auto& r : refs)
                    if (!r.got)
                        failp("P14", "ref-refused", "add_ref refused while a reference is held in " + ctx);
                if (under.runs != 0 || root.is_disposed())
                    failp("P14", "released-early", "the underlying resource was released while a reference is held in " + ctx);
                auto& r = refs[0];
                r.rel_b = tick();
                r.w.dispose();
                r.rel_e = tick();
            }
            uint64_t h = uint64_t(threads);
            for (auto& r : refs)
            {
                vh::events(1);
                h = vh::mix(h, uint64_t(r.got) * 2 + (r.rel_b < under.at.load()));
                if (!r.got)
                    continue;
#ifndef VH_TSAN
                if (r.rel_b > under.at.load())
                    failp("P14", "released-early", "the underlying resource was released before a reference was in " + ctx);
#endif
                if (r.child.runs != 1)
                    failp("P14", "ref-child", vh::fmt("the child of a released reference ran %d times in ", r.child.runs.load()) + ctx);
            }
            vh::sig(h);
            vh::sample(ctx);
            if (under.runs != 1)
                failp("P14", "underlying-count", vh::fmt("the underlying resource was released %d times after the last reference in ", under.runs.load()) + ctx);
            if (!root.lock()->add_ref(mode).is_disposed())
                failp("P14", "ref-after-end", "add_ref succeeded after the last release in " + ctx);
        }

        // the last reference is released while a new one is taken
        void sc_last_ref(Ctx& c)
        {
            constexpr int rounds = 10;
            struct Round
            {
                rpp::disposable_wrapper_impl<rpp::refcount_disposable> root = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
                Child                                                  under{};
                rpp::composite_disposable_wrapper                      a = rpp::composite_disposable_wrapper::empty(), b = rpp::composite_disposable_wrapper::empty();
                std::atomic<int>                                       left{2};
                bool                                                   got{false};
            };
            std::deque<Round> rs;
            const bool        strong = c.r.chance(1, 2);
            const auto        mode   = strong ? rpp::refcount_disposable::Mode::StrongRefRefSource : rpp::refcount_disposable::Mode::WeakRefStrongSource;
            for (int i = 0; i < rounds; ++i)
            {
                auto& x   = rs.emplace_back();
                x.under.d = make_child(x.under, 0);
                x.root.lock()->add(x.under.d);
                x.a = x.root.lock()->add_ref(mode);
            }
            Threads   t;
            const int range = c.r.range(100, 1300), naps = c.r.range(0, 4);
            t.add([&] {
                for (auto& x : rs)
                {
                    vi::start_barrier(x.left);
                    vi::dense(range);
                    x.a.dispose();
                }
            });
            t.add([&] {
                for (auto& x : rs)
                {
                    vi::start_barrier(x.left);
                    for (int k = naps; k > 0; --k)
                        vi::pause(1);
                    x.b   = x.root.lock()->add_ref(mode);
                    x.got = !x.b.is_disposed();
                }
            });
            t.run();
            uint64_t h = strong;
            for (auto& x : rs)
            {
                vh::events(2);
                h = vh::mix(h, x.got);
                vh::count(x.got ? "references taken before the last release" : "references refused at the last release");
                if (x.got && (x.root.is_disposed() || x.under.runs != 0 || x.b.is_disposed()))
                    failp("P14", "released-early", "the underlying resource was released while a reference taken during the previous one's release is held in " + c.desc);
                if (!x.got && (!x.root.is_disposed() || x.under.runs != 1))
                    failp("P14", "not-released", "the last reference is released and a new one refused, yet the resource is kept in " + c.desc);
                x.b.dispose();
                if (x.under.runs != 1)
                    failp("P14", "underlying-count", vh::fmt("the underlying resource was released %d times after the last reference in ", x.under.runs.load()) + c.desc);
            }
            vh::sig(h);
        }

        // parent and children share threads: cleanups that use the parent
        void sc_reentrant(Ctx& c)
        {
            auto              root = rpp::composite_disposable_wrapper::make();
            std::deque<Child> kids(12);
            const int         forms = c.r.range(0, 1 << 12);
            for (int i = 0; i < 6; ++i)
            {
                auto&     k = kids[size_t(i)];
                auto&     g = kids[size_t(6 + i)];
                const int f = (forms >> (2 * i)) & 3;
                k.d         = rpp::make_callback_disposable([&k, &g, f, weak = root.as_weak()]() noexcept {
                    k.runs.fetch_add(1, ORD);
                    g.d = make_child(g, 0);
                    switch (f)
                    {
                    case 0: weak.add(g.d); break;
                    case 1:
                        weak.remove(k.d);
                        weak.add(g.d);
                        break;
                    case 2:
                        weak.add(g.d);
                        weak.clear();
                        break;
                    default:
                        weak.add(g.d);
                        weak.dispose();
                        break;
                    }
                });
            }
            const int p = c.pause_src;
            Threads   t;
            t.add([&] {
                for (int i = 0; i < 3; ++i)
                {
                    root.add(kids[size_t(i)].d);
                    if (p)
                        vi::pause(p);
                }
            });
            t.add([&] {
                for (int i = 3; i < 6; ++i)
                    root.add(kids[size_t(i)].d);
            });
            const bool cl = c.r.chance(1, 2);
            t.add([&, cl] {
                vi::pause(1);
                if (cl)
                    root.clear();
                root.dispose();
            });
            t.run();
            vh::events(12);
            uint64_t h = uint64_t(forms);
            for (auto& k : kids)
            {
                h = vh::mix(h, uint64_t(k.runs.load()));
                if (k.runs != 1)
                    failp("P14", "reentrant-count", vh::fmt("a cleanup ran %d times with children that use their parent in ", k.runs.load()) + c.desc);
            }
            vh::sig(h);
            for (auto& k : kids)
                k.d = rpp::disposable_wrapper::empty();
        }
    } // namespace
    std::vector<Entry> scenarios_e()
    {
        return {{"composite", sc_composite, "P14", 3}, {"callback", sc_callback, "P14", 1}, {"refcount", sc_refcount, "P14", 2}, {"last-ref", sc_last_ref, "P14", 2}, {"reentrant", sc_reentrant, "P14", 1}};
    }
} // namespace cc
