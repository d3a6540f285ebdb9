// P22: items arrive intact. Random chains of operators whose every callback consumes
// its argument by value and spoils it, sharing points with several consumers, late
// subscribers, lvalue and rvalue sources; copies are counted against documented bounds.
#include "val.hpp"

#include <rpp/rpp.hpp>
#include <rpp/schedulers/test_scheduler.hpp>

#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <sstream>

namespace
{
    namespace op = rpp::ops;
    namespace so = rpp::source;
    namespace rs = rpp::schedulers;
    using Obs    = rpp::dynamic_observable<Val>;
    using Dobs   = rpp::dynamic_observer<Val>;

    std::string g_what; // the case at hand

    // takes an item over and destroys what is left of it
    int spoil(Val v)
    {
        const int x = v.get();
        Val       s = std::move(v);
        if (s.p)
            *s.p = -555;
        return x;
    }

    enum Mode
    {
        ByRef,
        ByValue,
        ByForward
    };
    struct Sink
    {
        Mode                          mode;
        std::vector<int>              got;
        bool                          over{false};
        rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
        std::string                   name;
        bool                          late{false};
        size_t                        joined{0};
        size_t                        left{size_t(-1)};
    };

    struct World
    {
        vh::Rng&                                                  r;
        std::deque<Sink>                                          sinks; // side consumers: expected to see every item
        std::vector<std::shared_ptr<rpp::subjects::publish_subject<Val>>> keep;
        std::vector<rpp::composite_disposable_wrapper>            conns;
        std::ostringstream                                        what;
        std::vector<int>                                          prefix; // of start_with, innermost first
        rs::test_scheduler                                        ts{};

        template<typename O>
        void sub(const O& o, Sink& s)
        {
            auto err  = [](const std::exception_ptr&) { vh::fail("error", "unexpected error event"); };
            auto done = [&s] { s.over = true; };
            // one handle for each subscription: the end of an observable disposes its handle
            s.d = rpp::composite_disposable_wrapper::make();
            switch (s.mode)
            {
            case ByRef: o.subscribe(s.d, [&s](const Val& v) { s.got.push_back(v.get()); }, err, done); break;
            case ByValue: o.subscribe(s.d, [&s](Val v) { s.got.push_back(spoil(std::move(v))); }, err, done); break;
            default: o.subscribe(s.d, [&s](auto&& v) { s.got.push_back(spoil(std::forward<decltype(v)>(v))); }, err, done); break;
            }
        }
        Sink& side(const char* n)
        {
            auto& s = sinks.emplace_back();
            s.mode  = Mode(r.below(3));
            s.name  = n;
            return s;
        }
    };

    // fires what is still pending: a pending task keeps its pipeline
    struct Drained
    {
        const rs::test_scheduler& ts;
        ~Drained() { ts.time_advance(std::chrono::seconds{10}); }
    };

    constexpr int NOPS = 38;

    // copies one item may cost inside of the stage for an lvalue / rvalue input, and what comes out
    struct Cost
    {
        int  l, rv;
        char out; // 'l', 'r', '=' same as input
    };

    Obs apply(World& w, Obs o, int k, Cost& c, int base)
    {
        auto& r = w.r;
        switch (k)
        {
        case 0: w.what << "map(val)|"; c = {1, 0, 'r'}; return (o | op::map([](Val v) { return v; })).as_dynamic();
        case 1: w.what << "map(fwd)|"; c = {1, 0, 'r'}; return (o | op::map([](auto&& v) -> Val { return std::forward<decltype(v)>(v); })).as_dynamic();
        case 2: w.what << "filter(val)|"; c = {1, 1, '='}; return (o | op::filter([](Val v) { return spoil(std::move(v)) != -1; })).as_dynamic();
        case 3: w.what << "take_while(val)|"; c = {1, 1, '='}; return (o | op::take_while([](Val v) { return spoil(std::move(v)) != -1; })).as_dynamic();
        case 4: w.what << "tap(val)|"; c = {1, 1, '='}; return (o | op::tap([](Val v) { spoil(std::move(v)); })).as_dynamic();
        case 5: w.what << "filter(ref)|"; c = {0, 0, '='}; return (o | op::filter([](const Val& v) { return v.get() != -1; })).as_dynamic();
        case 6: w.what << "distinct|"; c = {1, 0, 'l'}; return (o | op::distinct()).as_dynamic();
        case 7: w.what << "distinct_until_changed|"; c = {1, 0, 'l'}; return (o | op::distinct_until_changed()).as_dynamic();
        case 8:
            w.what << "scan|";
            c = {1, 0, 'l'};
            return (o | op::scan([](Val&& s, Val v) {
                        if (spoil(std::move(s)) == Val::MOVED)
                            vh::fail("seed", "scan was given a moved-from accumulator");
                        return v;
                    }))
                .as_dynamic();
        case 9:
        {
            const size_t n = size_t(r.range(1, 4));
            w.what << "buffer" << n << "|";
            c = {1, 0, 'l'};
            return (o | op::buffer(n) | op::flat_map([](std::vector<Val> v) { return so::from_iterable(std::move(v), rs::immediate{}); })).as_dynamic();
        }
        case 10: w.what << "take_last|"; c = {1, 0, 'r'}; return (o | op::take_last(200)).as_dynamic();
        case 11: w.what << "delay|"; c = {1, 0, 'r'}; return (o | op::delay(std::chrono::seconds{0}, rs::immediate{})).as_dynamic();
        case 12: w.what << "observe_on|"; c = {1, 0, 'r'}; return (o | op::observe_on(rs::current_thread{})).as_dynamic();
        case 13:
            w.what << "combine_latest|";
            c = {2, 1, 'r'};
            return (o | op::combine_latest([base](Val a, Val b) {
                        const int x = spoil(std::move(b));
                        if (x != base)
                            vh::fail("latest", vh::fmt("combine_latest gave %d instead of %d", x, base));
                        return a;
                    },
                                           so::just(rs::immediate{}, Val{base})))
                .as_dynamic();
        case 14:
            w.what << "with_latest_from|";
            c = {1, 1, 'r'};
            return (o | op::with_latest_from([base](Val a, Val b) {
                        const int x = spoil(std::move(b));
                        if (x != base)
                            vh::fail("latest", vh::fmt("with_latest_from gave %d instead of %d", x, base));
                        return a;
                    },
                                             so::just(rs::immediate{}, Val{base})))
                .as_dynamic();
        case 15:
            w.what << "zip|";
            c = {1, 0, 'r'};
            return (o | op::zip([](Val a, Val b) {
                        spoil(std::move(b));
                        return a;
                    },
                                so::from_iterable(std::vector<Val>(100, Val{base}), rs::immediate{})))
                .as_dynamic();
        case 16:
        {
            const size_t n = size_t(r.range(1, 4));
            w.what << "window" << n << "|";
            c = {0, 0, 'l'};
            auto& s = w.side("window side");
            return (o | op::window(n) | op::map([&w, &s](auto x) {
                        w.sub(x, s);
                        s.over = false;
                        return x;
                    })
                    | op::merge())
                .as_dynamic();
        }
        case 17:
        {
            const int n = r.range(1, 3);
            w.what << "group_by" << n << "|";
            c = {1, 1, 'l'};
            auto& s = w.side("group side");
            return (o | op::group_by([n](Val v) { return spoil(std::move(v)) % n; }) | op::map([&w, &s](auto x) {
                        w.sub(x, s);
                        return x;
                    })
                    | op::merge())
                .as_dynamic();
        }
        case 18: w.what << "merge_with|"; c = {0, 0, '='}; return (o | op::merge_with(so::empty<Val>())).as_dynamic();
        case 19: w.what << "flat_map|"; c = {1, 0, 'l'}; return (o | op::flat_map([](Val v) { return so::just(rs::immediate{}, std::move(v)); })).as_dynamic();
        case 20:
        {
            w.what << "start_with|";
            c = {0, 0, '='};
            w.prefix.insert(w.prefix.begin(), {base + 1, base + 2});
            return (o | op::start_with(rs::immediate{}, Val{base + 1}, Val{base + 2})).as_dynamic();
        }
        case 21: w.what << "switch_on_next|"; c = {1, 0, 'l'}; return (o | op::map([](Val v) { return so::just(rs::immediate{}, std::move(v)); }) | op::switch_on_next()).as_dynamic();
        case 22: w.what << "concat|"; c = {1, 0, 'l'}; return (o | op::map([](Val v) { return so::just(rs::immediate{}, std::move(v)); }) | op::concat()).as_dynamic();
        case 23: w.what << "ref_count|"; c = {0, 0, 'l'}; return (o | op::publish() | op::ref_count()).as_dynamic();
        case 24:
        {
            // both observers are there from the first item on
            w.what << "tee|";
            c        = {0, 0, 'l'};
            auto sub = std::make_shared<rpp::subjects::publish_subject<Val>>();
            w.keep.push_back(sub);
            auto &a = w.side("tee before"), &b = w.side("tee after");
            w.sub(sub->get_observable(), a);
            return so::create<Val>([&w, &b, o, sub](auto&& obs) {
                       sub->get_observable().subscribe(std::forward<decltype(obs)>(obs));
                       w.sub(sub->get_observable(), b);
                       o.subscribe(sub->get_observer());
                   })
                .as_dynamic();
        }
        case 25: w.what << "retry|"; c = {0, 0, '='}; return (o | op::retry(2)).as_dynamic();
        case 26: w.what << "on_error_resume_next|"; c = {0, 0, '='}; return (o | op::on_error_resume_next([](const std::exception_ptr&) { return so::empty<Val>(); })).as_dynamic();
        case 27: w.what << "take_until|"; c = {0, 0, '='}; return (o | op::take_until(so::never<int>())).as_dynamic();
        case 28: w.what << "throttle|"; c = {0, 0, '='}; return (o | op::throttle<rs::test_scheduler>(std::chrono::nanoseconds{0})).as_dynamic();
        case 29: w.what << "timeout|"; c = {0, 0, '='}; return (o | op::timeout(std::chrono::seconds{9}, w.ts)).as_dynamic();
        case 30: w.what << "take|"; c = {0, 0, '='}; return (o | op::take(1000)).as_dynamic();
        case 31: w.what << "skip0|"; c = {0, 0, '='}; return (o | op::skip(0)).as_dynamic();
        case 32:
        {
            w.what << "window_toggle|";
            c       = {0, 0, 'l'};
            auto& s = w.side("toggled window side");
            // two windows opened at once and never closed: one is the chain, the other one is consumed aside
            return (o | op::window_toggle(so::just(rs::immediate{}, 0, 1), [](int) { return so::never<int>(); })
                    | op::map([&w, &s, n = std::make_shared<int>(0)](auto x) -> Obs {
                          if ((*n)++ == 0)
                          {
                              w.sub(x, s);
                              return so::empty<Val>().as_dynamic();
                          }
                          return x.as_dynamic();
                      })
                    | op::take(2) | op::merge())
                .as_dynamic();
        }
        case 33: w.what << "finally|"; c = {0, 0, '='}; return (o | op::finally([]() noexcept {})).as_dynamic();
        case 34:
        {
            w.what << "replay|";
            c = {1, 1, 'l'};
            return (o | op::multicast(rpp::subjects::replay_subject<Val>{}) | op::ref_count()).as_dynamic();
        }
        case 35:
        case 36:
        {
            // emits its initial value first and needs it again for the first item
            w.what << "scan_seed|";
            c = {1, 0, 'l'};
            w.prefix.insert(w.prefix.begin(), {base + 3});
            return (o | op::scan(Val{base + 3}, [last = std::make_shared<int>(-1), base](Val&& s, Val v) {
                        const int x = spoil(std::move(s));
                        if (x != base + 3 && x != *last) // (a new subscription starts anew)
                            vh::fail("seed", vh::fmt("scan was given %d instead of its initial value %d or its last result %d", x, base + 3, *last));
                        *last = v.get();
                        return v;
                    }))
                .as_dynamic();
        }
        default:
        {
            // subscribed on a copy, with a moved handle and through concat
            w.what << "concat_src|";
            c = {0, 0, '='};
            return so::concat(o, so::empty<Val>()).as_dynamic();
        }
        }
    }

    void check(const std::string& key, const std::string& what, const std::vector<int>& want, const std::vector<int>& got)
    {
        if (want == got)
            return;
        std::ostringstream o;
        o << what << " || expected";
        for (int x : want)
            o << " " << x;
        o << " || got";
        for (int x : got)
            o << " " << x;
        vh::fail(key, o.str());
    }

    void chain(vh::Rng& r)
    {
        World   w{.r = r};
        Drained drained{w.ts};
        const int n     = r.range(1, 12);
        const int depth = r.range(1, 5);
        // source: 0 lvalue 1 rvalue 2 publish subject 3 behavior subject 4 replay subject 5 just / from_iterable 6 serialized subject
        const int src = r.below(7);
        std::vector<Val> orig;
        std::vector<int> ids;
        for (int i = 0; i < n; ++i)
        {
            ids.push_back(100 + i);
            orig.emplace_back(100 + i);
        }
        const std::vector<Val> keep = orig;
        w.what << "source" << src << " n" << n << "|";
        rpp::subjects::publish_subject<Val>            pub;
        rpp::subjects::serialized_publish_subject<Val> ser;
        rpp::subjects::behavior_subject<Val>           beh{orig[0]};
        rpp::subjects::replay_subject<Val>             rep;
        Obs                                            o = so::never<Val>().as_dynamic();
        char                                           cat = 'l';
        switch (src)
        {
        case 0: o = so::create<Val>([&orig](auto&& obs) {
                        for (auto& v : orig)
                            obs.on_next(v);
                        obs.on_completed();
                    }).as_dynamic(); break;
        case 1: o = so::create<Val>([&ids](auto&& obs) {
                        for (int v : ids)
                            obs.on_next(Val{v});
                        obs.on_completed();
                    }).as_dynamic(); cat = 'r'; break;
        case 2: o = pub.get_observable().as_dynamic(); break;
        case 3: o = beh.get_observable().as_dynamic(); break;
        case 4: o = rep.get_observable().as_dynamic(); break;
        case 5: o = r.chance(1, 2) ? so::from_iterable(orig, rs::immediate{}).as_dynamic() : so::from_iterable<rpp::memory_model::use_shared>(orig, rs::immediate{}).as_dynamic(); break;
        default: o = ser.get_observable().as_dynamic(); break;
        }
        // side consumers next to the chain, on the source itself; for subjects: late ones too
        std::deque<Sink> on_source;
        long             per_item = 0; // copies one item may cost
        for (int i = 0; i < depth; ++i)
        {
            Cost c{};
            const size_t sides = w.sinks.size();
            o = apply(w, o, r.below(NOPS), c, 1000 + 10 * i);
            per_item += cat == 'l' ? c.l : c.rv;
            // one copy for each consumer aside
            per_item += long(w.sinks.size() - sides);
            if (c.out != '=')
                cat = c.out;
        }
        const auto mode = Mode(r.below(3));
        w.what << "sink" << int(mode);
        per_item += mode != ByRef && cat == 'l' ? 1 : 0;
        const int subs = src == 5 || src == 0 || src == 1 ? r.range(1, 2) : 1; // cold: subscribe again
        Sink      main[2];
        const bool subject = src == 2 || src == 3 || src == 4 || src == 6;
        auto      observable = [&]() -> Obs {
            return src == 2 ? pub.get_observable().as_dynamic() : src == 3 ? beh.get_observable().as_dynamic() : src == 4 ? rep.get_observable().as_dynamic() : ser.get_observable().as_dynamic();
        };
        const auto what = w.what.str();
        g_what          = what;
        const bool sided = !w.sinks.empty();
        if (subject)
        {
            main[0].mode = mode;
            auto add = [&](size_t at) {
                auto& s  = on_source.emplace_back();
                s.mode   = Mode(r.below(3));
                s.joined = at;
                w.sub(observable(), s);
            };
            for (int k = r.below(3); k > 0; --k)
                add(0);
            w.sub(o, main[0]);
            for (int k = r.below(3); k > 0; --k)
                add(0);
            auto dob = src == 2 ? pub.get_observer().as_dynamic() : src == 3 ? beh.get_observer().as_dynamic() : src == 4 ? rep.get_observer().as_dynamic() : ser.get_observer().as_dynamic();
            for (size_t i = 0; i < orig.size(); ++i)
            {
                if (r.chance(1, 6))
                    add(i);
                if (!on_source.empty() && r.chance(1, 10))
                {
                    auto& s = on_source[size_t(r.below(int(on_source.size())))];
                    if (s.left == size_t(-1))
                    {
                        s.d.dispose();
                        s.left = i;
                    }
                }
                if (r.chance(1, 2))
                    dob.on_next(orig[i]);
                else
                    dob.on_next(Val{ids[i]});
            }
            if (r.chance(1, 3))
                add(orig.size());
            dob.on_completed();
            std::vector<int> want = ids;
            if (src == 3)
                want.insert(want.begin(), ids[0]);
            // distinct operators swallow the repeated first value of a behavior subject
            std::vector<int> all = w.prefix;
            all.insert(all.end(), want.begin(), want.end());
            if (src != 3 || what.find("distinct") == std::string::npos)
                check("chain", what, all, main[0].got);
            for (auto& s : on_source)
            {
                const size_t     left = std::min(s.left, ids.size());
                std::vector<int> exp;
                if (src == 3)
                    exp.push_back(s.joined ? ids[s.joined - 1] : ids[0]);
                exp.insert(exp.end(), ids.begin() + long(src == 4 ? 0 : std::min(s.joined, left)), ids.begin() + long(left));
                if (src == 4 && s.left < s.joined)
                    continue;
                check("sharing", what + vh::fmt(" consumer mode %d joined %zu left %zd", s.mode, s.joined, ssize_t(s.left)), exp, s.got);
                vh::events(long(s.got.size()));
            }
        }
        else
        {
            for (int k = 0; k < subs; ++k)
            {
                for (auto& s : w.sinks)
                    s.got.clear(), s.over = false;
                main[k].mode    = mode;
                const bool again = k && (what.find("tee|") != std::string::npos || what.find("ref_count|") != std::string::npos || what.find("replay|") != std::string::npos || what.find("window_toggle|") != std::string::npos || sided);
                if (again)
                    break; // shared parts are over
                const long copies0 = Val::copies.load();
                w.sub(o, main[k]);
                const long       copies = Val::copies.load() - copies0;
                std::vector<int> all    = w.prefix;
                all.insert(all.end(), ids.begin(), ids.end());
                check(k ? "second-subscription" : "chain", what, all, main[k].got);
                // copies made for items that flow (constants of the stages apart)
                const bool constants = what.find("zip|") != std::string::npos || what.find("combine_latest|") != std::string::npos || what.find("with_latest_from|") != std::string::npos || what.find("scan_seed|") != std::string::npos || what.find("start_with|") != std::string::npos;
                if (!constants && src != 5)
                {
                    if (copies > per_item * n)
                        vh::fail("copies", vh::fmt("%ld copies for %d items, %ld per item are documented || ", copies, n, per_item) + what);
                    vh::count("copy-bounded cases");
                    vh::count("max_copies per item", copies / n);
                }
            }
        }
        for (auto& s : w.sinks)
        {
            if (s.got.empty() && subs == 2)
                continue;
            std::vector<int> g = s.got, want = ids;
            // prefixes and repeated first value come in upstream of some of them only
            for (int x : g)
                if (x < 0 || x == Val::MOVED)
                {
                    check("side:" + s.name, what, want, g);
                    break;
                }
            size_t at = 0;
            for (int x : g)
                if (at < want.size() && x == want[at])
                    ++at;
            if (at != want.size())
                check("side:" + s.name, what, want, g);
            vh::events(long(g.size()));
        }
        for (size_t i = 0; i < orig.size(); ++i)
            if (orig[i].get() != keep[i].get())
                vh::fail("source-modified", vh::fmt("item %zu given as an lvalue was changed to %d || ", i, orig[i].get()) + what);
        if (beh.get_value().get() == Val::MOVED)
            vh::fail("behavior-value", "latest value of the behavior subject is moved-from || " + what);
        uint64_t h = 3;
        for (char ch : what)
            h = vh::mix(h, uint64_t(ch));
        for (int x : main[0].got)
            h = vh::mix(h, uint64_t(x));
        h = vh::mix(h, on_source.size());
        vh::sig(h);
        vh::events(long(main[0].got.size() + main[1].got.size()));
        vh::sample(what + vh::fmt(" => %zu items, %zu consumers aside", main[0].got.size(), w.sinks.size() + on_source.size()));
    }

    // ------------------------------------------------------------- move-only
    struct Mo
    {
        std::unique_ptr<int> p;
        explicit Mo(int v = 0)
            : p{std::make_unique<int>(v)}
        {
        }
        int get() const { return p ? *p : Val::MOVED; }
    };
    // what a stage that owns its item does with it; the library must hand it over as an rvalue
    Mo own(Mo&& v) { return std::move(v); }
    Mo own(const Mo& v)
    {
        vh::fail("move-only:lvalue", vh::fmt("move-only item %d arrived as an lvalue", v.get()));
        return Mo{v.get()};
    }
    template<typename F>
    void move_only(const char* name, int n, F&& build, std::vector<int> want)
    {
        std::vector<int> got;
        auto             src = so::create<Mo>([n](auto&& obs) {
            for (int i = 1; i <= n; ++i)
                obs.on_next(Mo{i});
            obs.on_completed();
        });
        build(src).subscribe([&](auto&& v) { got.push_back(own(std::forward<decltype(v)>(v)).get()); });
        check(std::string("move-only:") + name, vh::fmt("%s with %d items", name, n), want, got);
        uint64_t h = vh::mix(77, uint64_t(n));
        for (const char* c = name; *c; ++c)
            h = vh::mix(h, uint64_t(*c));
        vh::sig(h);
        vh::events(long(got.size()));
    }
    void move_only_case(vh::Rng& r)
    {
        rs::test_scheduler ts{};
        Drained            drained{ts};
        const int        n = r.range(0, 9), k = r.range(1, 9);
        std::vector<int> all, tail, head;
        for (int i = 1; i <= n; ++i)
            all.push_back(i);
        tail.assign(all.begin() + std::max(0, n - k), all.end());
        head.assign(all.begin(), all.begin() + std::min(n, k));
        switch (r.below(12))
        {
        case 0: return move_only("map", n, [](auto& s) { return s | op::map([](auto&& v) { return own(std::forward<decltype(v)>(v)); }) | op::filter([](const Mo& v) { return v.get() > 0; }); }, all);
        case 1: return move_only("take", n, [k](auto& s) { return s | op::take(size_t(k)) | op::tap([](const Mo&) {}); }, head);
        case 2: return move_only("take_last", n, [k](auto& s) { return s | op::take_last(size_t(k)); }, tail);
        case 3: return move_only("observe_on", n, [](auto& s) { return s | op::observe_on(rs::current_thread{}) | op::delay(std::chrono::seconds{0}, rs::immediate{}); }, all);
        case 4: return move_only("merge", n, [](auto& s) { return s | op::merge_with(so::empty<Mo>()) | op::take_until(so::never<int>()); }, all);
        case 5: return move_only("skip", n, [](auto& s) { return s | op::skip(0) | op::take_while([](const Mo&) { return true; }) | op::retry(1); }, all);
        case 6: return move_only("zip", n, [](auto& s) { return s | op::zip([](auto&& a, int) { return own(std::forward<decltype(a)>(a)); }, so::from_iterable(std::vector<int>(20, 1), rs::immediate{})); }, all);
        case 7: return move_only("buffer", n, [k](auto& s) { return s | op::buffer(size_t(k)) | op::map([](const std::vector<Mo>& v) { return Mo{v.empty() ? 0 : v.back().get()}; }); }, [&] {
            std::vector<int> w;
            for (int i = k; i < n; i += k)
                w.push_back(i);
            if (n)
                w.push_back(n);
            return w;
        }());
        case 8: return move_only("last", n ? n : 1, [](auto& s) { return s | op::last(); }, {n ? n : 1});
        case 9: return move_only("timeout", n, [&ts](auto& s) { return s | op::timeout(std::chrono::seconds{9}, ts) | op::finally([]() noexcept {}); }, all);
        case 10: return move_only("dynamic", n, [](auto& s) { return s.as_dynamic() | op::map([](auto&& v) { return own(std::forward<decltype(v)>(v)); }) | op::on_error_resume_next([](const std::exception_ptr&) { return so::empty<Mo>(); }); }, all);
        default: return move_only("scan", n, [](auto& s) { return s | op::map([](const Mo& v) { return v.get(); }) | op::scan([](int a, int b) { return a + b; }) | op::map([](int v) { return Mo{v}; }); }, [&] {
            std::vector<int> w;
            int              a = 0;
            for (int x : all)
                w.push_back(a += x);
            return w;
        }());
        }
    }

    // ------------------------------------------- finite sources replay the same items
    void sources(vh::Rng& r)
    {
        const int        n = r.range(1, 8), k = r.below(8);
        std::vector<Val> v;
        std::vector<int> ids;
        for (int i = 0; i < n; ++i)
        {
            v.emplace_back(10 + i);
            ids.push_back(10 + i);
        }
        Val  a{1}, b{2}, c{3};
        Obs  o = so::never<Val>().as_dynamic();
        int  calls = 0;
        bool fixed = false;
        switch (k)
        {
        case 0: o = so::just(a, b, c).as_dynamic(); fixed = true; break;
        case 1: o = so::just<rpp::memory_model::use_shared>(a, b, c).as_dynamic(); fixed = true; break;
        case 2: o = so::just(rs::immediate{}, a, b, c).as_dynamic(); fixed = true; break;
        case 3: o = so::from_iterable(v).as_dynamic(); break;
        case 4: o = so::from_iterable<rpp::memory_model::use_shared>(v).as_dynamic(); break;
        case 5: o = so::from_iterable(std::list<Val>(v.begin(), v.end()), rs::immediate{}).as_dynamic(); break;
        case 6: o = so::defer([&] { ++calls; return so::from_iterable(v); }).as_dynamic(); break;
        default: o = (so::from_callable([&] { ++calls; return v; }) | op::flat_map([](std::vector<Val> x) { return so::from_iterable(std::move(x)); })).as_dynamic(); break;
        }
        if (fixed)
            ids = {1, 2, 3};
        const bool rep = r.chance(1, 3);
        if (rep)
        {
            o = (o | op::repeat(2)).as_dynamic();
            auto x = ids;
            ids.insert(ids.end(), x.begin(), x.end());
        }
        World w{.r = r};
        for (int s = r.range(1, 3); s > 0; --s)
        {
            Sink x;
            x.mode = Mode(r.below(3));
            w.sub(o, x);
            check(vh::fmt("source%d", k), vh::fmt("source kind %d, %d items, consumer mode %d%s", k, n, x.mode, rep ? ", repeated" : ""), ids, x.got);
            vh::events(long(x.got.size()));
            uint64_t h = vh::mix(vh::mix(vh::mix(55, uint64_t(k)), uint64_t(n)), uint64_t(x.mode * 2 + rep));
            vh::sig(h);
        }
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].get() != 10 + int(i))
                vh::fail("source-modified", vh::fmt("source kind %d changed the user's item %zu", k, i));
        if (a.get() != 1 || b.get() != 2 || c.get() != 3)
            vh::fail("source-modified", vh::fmt("source kind %d changed the user's items", k));
    }
} // namespace

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](vh::Rng& r, long) {
        const int  k    = r.below(20);
        const long live = Val::live.load();
        g_what = k == 0 ? "move-only chain" : k <= 2 ? "finite source" : "";
        if (k == 0)
            move_only_case(r);
        else if (k <= 2)
            sources(r);
        else
            chain(r);
        if (Val::live.load() != live)
            vh::fail("leak:values", vh::fmt("%ld items alive after the case || ", Val::live.load() - live) + g_what);
    });
}
