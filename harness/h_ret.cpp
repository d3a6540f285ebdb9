// Retention: a pipeline that lives on must not accumulate what its ended parts
// used. The same cycle of events is repeated, and the number of live heap bytes
// must stop growing.
#include "vclock.hpp"
#include "vh.hpp"

#include <rpp/rpp.hpp>
#include <rpp/schedulers/run_loop.hpp>
#include <sanitizer/allocator_interface.h>

using Obs = rpp::dynamic_observable<int>;

namespace
{
    struct Boom
    {
    };

    struct Ctx
    {
        vh::Rng&                            r;
        rpp::subjects::publish_subject<int> s{}; // the main source
        rpp::subjects::publish_subject<int> b{}; // a secondary source
        rpp::subjects::publish_subject<int> c{}; // ends what is pending
        rpp::subjects::publish_subject<int> z{}; // emits as often as s
        rpp::schedulers::run_loop           rl{};
        std::string                         d{};
        int                                 timed{0};
        bool                                multi{false};
    };

    // an inner source
    auto inner(Ctx& x, std::string& d)
    {
        const int k = x.r.below(7);
        d += vh::fmt("i%d", k);
        auto c = x.c.get_observable();
        auto b = x.b.get_observable();
        return [k, c, b](int v) -> Obs {
            switch (k)
            {
            case 0: return rpp::source::just(rpp::schedulers::immediate{}, v).as_dynamic();
            case 1: return rpp::source::create<int>([v](auto&& o) {
                               for (int i = 0; i < 3; ++i)
                                   o.set_upstream(rpp::make_callback_disposable([v, i]() noexcept { (void)v; (void)i; }));
                               o.on_next(v);
                               o.on_completed();
                           })
                    .as_dynamic();
            case 2: return (c | rpp::ops::take(1)).as_dynamic();
            case 3: return (b | rpp::ops::take_until(c)).as_dynamic();
            case 4: return (rpp::source::error<int>(std::make_exception_ptr(Boom{})) | rpp::ops::on_error_resume_next([v](const std::exception_ptr&) { return rpp::source::just(rpp::schedulers::immediate{}, v); })).as_dynamic();
            case 5: return rpp::source::empty<int>().as_dynamic();
            default: return (rpp::source::never<int>() | rpp::ops::merge_with(c | rpp::ops::take(1)) | rpp::ops::take_until(c)).as_dynamic();
            }
        };
    }

    Obs stage(Ctx& x, const Obs& o, bool first)
    {
        auto& r = x.r;
        auto& d = x.d;
        switch (r.below(34))
        {
        case 0: d += "|flat_map:"; return (o | rpp::ops::flat_map(inner(x, d))).as_dynamic();
        case 1: d += "|map|concat:"; return (o | rpp::ops::map(inner(x, d)) | rpp::ops::concat()).as_dynamic();
        case 2: d += "|map|switch:"; return (o | rpp::ops::map(inner(x, d)) | rpp::ops::switch_on_next()).as_dynamic();
        case 3:
        {
            const int n = r.range(1, 3);
            d += vh::fmt("|window(%d)|merge", n);
            return (o | rpp::ops::window(size_t(n)) | rpp::ops::merge()).as_dynamic();
        }
        case 4:
        {
            const int n = r.range(1, 3);
            d += vh::fmt("|window(%d)|flat_map(take)", n);
            return (o | rpp::ops::window(size_t(n)) | rpp::ops::flat_map([](const auto& w) { return w | rpp::ops::take(1); })).as_dynamic();
        }
        case 5:
        {
            const int n = r.range(1, 3);
            d += vh::fmt("|window(%d)|switch", n);
            return (o | rpp::ops::window(size_t(n)) | rpp::ops::switch_on_next()).as_dynamic();
        }
        case 6:
        {
            const int n = r.range(1, 3);
            d += vh::fmt("|window(%d)|concat", n);
            return (o | rpp::ops::window(size_t(n)) | rpp::ops::map([](const auto& w) { return w | rpp::ops::take_last(1); }) | rpp::ops::concat()).as_dynamic();
        }
        case 7:
            d += "|window(ignored)";
            return (o | rpp::ops::window(2) | rpp::ops::map([](const auto&) { return 1; })).as_dynamic();
        case 8:
        case 9:
        {
            const int k = r.below(3);
            d += vh::fmt("|window_toggle(b,%d)|merge", k);
            auto c = x.c.get_observable();
            return (o | rpp::ops::window_toggle(x.b.get_observable(), [c, k](int v) -> Obs {
                        if (k == 0)
                            return (c | rpp::ops::take(1)).as_dynamic();
                        if (k == 1)
                            return c.as_dynamic();
                        return rpp::source::just(rpp::schedulers::immediate{}, v).as_dynamic(); })
                    | rpp::ops::merge())
                .as_dynamic();
        }
        case 10: d += "|group_by|merge"; return (o | rpp::ops::group_by([](int v) { return v % 3; }) | rpp::ops::merge()).as_dynamic();
        case 11: d += "|group_by|flat_map(take_until c)"; return (o | rpp::ops::group_by([](int v) { return v % 3; }) | rpp::ops::flat_map([c = x.c.get_observable()](const auto& g) { return g | rpp::ops::take_until(c); })).as_dynamic();
        case 12: d += "|merge_with(b)"; return (o | rpp::ops::merge_with(x.b.get_observable())).as_dynamic();
        case 13:
            if (!first)
                return o;
            d += "|zip(z)";
            return (o | rpp::ops::zip([](int a, int b) { return a + b; }, x.z.get_observable())).as_dynamic();
        case 14: d += "|combine_latest(b)"; return (o | rpp::ops::combine_latest([](int a, int b) { return a + b; }, x.b.get_observable())).as_dynamic();
        case 15: d += "|with_latest_from(b)"; return (o | rpp::ops::with_latest_from([](int a, int b) { return a + b; }, x.b.get_observable())).as_dynamic();
        case 16: d += "|take_until(never)"; return (o | rpp::ops::take_until(rpp::source::never<int>())).as_dynamic();
        case 17: d += "|buffer(2)"; return (o | rpp::ops::buffer(2) | rpp::ops::map([](const std::vector<int>& v) { return v[0]; })).as_dynamic();
        case 18: d += "|duc|scan"; return (o | rpp::ops::distinct_until_changed() | rpp::ops::scan(1, [](int a, int v) { return (a * 3 + v) % 101; })).as_dynamic();
        case 19: d += "|tap|finally"; return (o | rpp::ops::tap([](int) {}) | rpp::ops::finally([]() noexcept {})).as_dynamic();
        case 20:
        case 21:
            // every third item ends this attempt
            d += "|throwing|retry";
            return (o | rpp::ops::map([](int v) { if (v % 3 == 0) throw Boom{}; return v; }) | rpp::ops::retry()).as_dynamic();
        case 22:
        case 23:
        {
            const int k = r.below(2);
            d += vh::fmt("|throwing|retry_when(%d)", k);
            auto c = x.c.get_observable();
            return (o | rpp::ops::map([](int v) { if (v % 3 == 0) throw Boom{}; return v; }) | rpp::ops::retry_when([c, k](const std::exception_ptr&) -> Obs { return k ? c.as_dynamic() : rpp::source::just(rpp::schedulers::immediate{}, 1).as_dynamic(); })).as_dynamic();
        }
        case 24:
        case 25:
            d += "|take(2)|repeat";
            return (o | rpp::ops::take(2) | rpp::ops::repeat()).as_dynamic();
        case 26: d += "|publish|ref_count"; return (o | rpp::ops::publish() | rpp::ops::ref_count()).as_dynamic();
        case 27: ++x.timed; d += "|delay"; return (o | rpp::ops::delay(std::chrono::milliseconds(r.range(1, 20)), x.rl)).as_dynamic();
        case 28: ++x.timed; d += "|debounce"; return (o | rpp::ops::debounce(std::chrono::milliseconds(r.range(1, 20)), x.rl)).as_dynamic();
        case 29: ++x.timed; d += "|timeout"; return (o | rpp::ops::timeout(std::chrono::hours(100), x.rl)).as_dynamic();
        case 30: ++x.timed; d += "|observe_on"; return (o | rpp::ops::observe_on(x.rl)).as_dynamic();
        case 31: d += "|throttle"; return (o | rpp::ops::throttle<rpp::schedulers::immediate>(std::chrono::milliseconds(5))).as_dynamic();
        case 32:
        {
            // a timed inner: its timer must go with it
            ++x.timed;
            d += "|flat_map(timer)";
            return (o | rpp::ops::flat_map([rl = &x.rl](int v) { return rpp::source::timer(std::chrono::milliseconds(1 + v % 3), *rl) | rpp::ops::map([v](size_t) { return v; }); })).as_dynamic();
        }
        default: d += "|start_with|skip"; return (o | rpp::ops::start_with(4) | rpp::ops::skip(1)).as_dynamic();
        }
    }

    size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }

    void drain(rpp::schedulers::run_loop& rl)
    {
        for (int i = 0; i < 1000 && rl.is_any_ready_schedulable(); ++i)
            rl.dispatch_if_ready();
    }

    // runs cycle() until the heap is judged
    template<typename Fn>
    void judge(const std::string& d, Fn&& cycle, uint64_t& h)
    {
        constexpr int W = 40;
        auto          run = [&](int n) {
            for (int i = 0; i < n; ++i)
                cycle();
        };
        run(W);
        const auto b1 = bytes();
        run(3 * W);
        const auto b4 = bytes();
        vh::count("cycles observed", 4 * W);
        if (long(b4) - long(b1) >= 1400)
        {
            run(12 * W);
            const auto b16 = bytes();
            if (long(b16) - long(b4) >= 4000)
                vh::fail("retained", vh::fmt("%s: live heap grows with every cycle of events: %ld bytes over 120 cycles, %ld over the next 480", d.c_str(), long(b4) - long(b1), long(b16) - long(b4)));
            else
                vh::count("growth that stopped");
        }
        vh::sig(vh::mix(h, std::hash<std::string>{}(d)));
        vh::sample(vh::fmt("%s: %ld bytes of growth over 120 cycles", d.c_str(), long(b4) - long(b1)));
    }

    void pipeline_case(vh::Rng& r)
    {
        Ctx x{r};
        x.d   = "s";
        Obs o = x.s.get_observable().as_dynamic();
        for (int i = r.range(1, 3), k = 0; k < i; ++k)
            o = stage(x, o, k == 0);
        // the cycle
        struct Step
        {
            int kind, v;
        };
        std::vector<Step> steps;
        for (int n = r.range(2, 5); n > 0; --n)
            steps.push_back({r.below(4), r.below(9)});
        steps.push_back({0, 4});
        int npush = 0;
        for (auto& st : steps)
        {
            npush += st.kind == 0;
            x.d += vh::fmt(" %c%d", "sbct"[st.kind], st.v);
        }
        uint64_t h    = 1;
        long     evs  = 0;
        int      live = 1;
        auto     on   = [&](int v) { h = vh::mix(h, uint64_t(v)); ++evs; };
        auto     oe   = [&](const std::exception_ptr&) { live = 0; };
        auto     oc   = [&] { live = 0; };
        auto     d    = rpp::composite_disposable_wrapper::make();
        const int form = r.below(3);
        if (vh::G().opt.verbose)
            fprintf(stderr, "%s\n", x.d.c_str());
        if (form == 0)
            o.subscribe(d, on, oe, oc);
        else if (form == 1)
            d = o.subscribe_with_disposable(on, oe, oc);
        else
            o.subscribe(d, rpp::make_lambda_observer<int>(on, oe, oc));
        judge(
            x.d, [&] {
                for (auto& st : steps)
                    switch (st.kind)
                    {
                    case 0:
                        x.s.get_observer().on_next(st.v);
                        x.z.get_observer().on_next(st.v);
                        break;
                    case 1: x.b.get_observer().on_next(st.v); break;
                    case 2: x.c.get_observer().on_next(st.v); break;
                    default:
                        vclock::now_ns += st.v * vclock::MS;
                        drain(x.rl);
                    }
                for (int i = 0; i < 32; ++i)
                {
                    x.c.get_observer().on_next(1);
                    if (x.timed && i % 4 == 0)
                    {
                        vclock::now_ns += 50 * vclock::MS;
                        drain(x.rl);
                    }
                }
                vh::events(long(steps.size()) + 32);
            },
            h);
        vh::count("events delivered", evs);
        if (!live)
            vh::count("pipelines that ended");
        d.dispose();
        vclock::now_ns += 1000000 * int64_t(1000) * vclock::MS;
        drain(x.rl);
    }

    template<typename Subject>
    void churn(vh::Rng& r, Subject subj, const char* name)
    {
        std::string d = vh::fmt("churn %s:", name);
        uint64_t    h = 1;
        // what every cycle does: join, leave, emit
        std::vector<int> steps;
        for (int n = r.range(3, 8); n > 0; --n)
            steps.push_back(r.below(5));
        for (int s : steps)
            d += vh::fmt(" %d", s);
        std::vector<rpp::composite_disposable_wrapper> here;
        int                                            v = 0;
        judge(
            d, [&] {
                for (int s : steps)
                    switch (s)
                    {
                    case 0:
                    case 1:
                        here.push_back(subj.get_observable().subscribe_with_disposable([&h](int q) { h = vh::mix(h, uint64_t(q)); }));
                        break;
                    case 2:
                        if (!here.empty())
                        {
                            here.front().dispose();
                            here.erase(here.begin());
                        }
                        break;
                    case 3: subj.get_observer().on_next(++v % 7); break;
                    default: (subj.get_observable() | rpp::ops::take(1)).subscribe([&h](int q) { h = vh::mix(h, uint64_t(q)); });
                    }
                for (auto& q : here)
                    q.dispose();
                here.clear();
                here.shrink_to_fit();
                subj.get_observer().on_next(++v % 7);
                vh::events(long(steps.size()));
            },
            h);
    }

    void connect_case(vh::Rng& r)
    {
        rpp::subjects::publish_subject<int> s;
        const int                           kind = r.below(3);
        std::string                         d    = vh::fmt("connections(%d):", kind);
        std::vector<int>                    steps;
        for (int n = r.range(3, 8); n > 0; --n)
            steps.push_back(r.below(5));
        for (int q : steps)
            d += vh::fmt(" %d", q);
        uint64_t h  = 1;
        auto     on = [&h](int q) { h = vh::mix(h, uint64_t(q)); };
        long     connections = 0;
        auto     src         = rpp::source::create<int>([&connections, o = s.get_observable()](auto&& obs) {
            ++connections;
            o.subscribe(std::forward<decltype(obs)>(obs));
        });
        auto     run         = [&](auto&& conn, const Obs& shared) {
            rpp::disposable_wrapper                        cur = rpp::disposable_wrapper::empty();
            std::vector<rpp::composite_disposable_wrapper> here;
            judge(
                d, [&] {
                    for (int q : steps)
                        switch (q)
                        {
                        case 0: here.push_back(shared.subscribe_with_disposable(on)); break;
                        case 1:
                            if (!here.empty())
                            {
                                here.back().dispose();
                                here.pop_back();
                            }
                            break;
                        case 2: s.get_observer().on_next(int(h % 5)); break;
                        case 3:
                            if (kind == 0)
                                cur = conn.connect();
                            break;
                        default:
                            if (kind == 0)
                                cur.dispose();
                            else
                                here.push_back(shared.subscribe_with_disposable(on));
                        }
                    cur.dispose();
                    for (auto& q : here)
                        q.dispose();
                    here.clear();
                    here.shrink_to_fit();
                    vh::events(long(steps.size()));
                },
                h);
            vh::count("connections made", connections);
        };
        auto conn = src | rpp::ops::publish();
        if (kind == 0)
            run(conn, conn.as_dynamic());
        else if (kind == 1)
            run(conn, (conn | rpp::ops::ref_count()).as_dynamic());
        else
            run(conn, (src | rpp::ops::map([](int v) { return v; }) | rpp::ops::publish() | rpp::ops::ref_count() | rpp::ops::take(2)).as_dynamic());
    }

    void disposables_case(vh::Rng& r)
    {
        std::string      d = "disposables:";
        std::vector<int> steps;
        for (int n = r.range(3, 9); n > 0; --n)
            steps.push_back(r.below(6));
        for (int q : steps)
            d += vh::fmt(" %d", q);
        uint64_t                                      h    = 1;
        auto                                          root = rpp::composite_disposable_wrapper::make();
        auto                                          rc   = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
        std::vector<rpp::disposable_wrapper>          mine;
        std::vector<rpp::composite_disposable_wrapper> refs;
        judge(
            d, [&] {
                for (int q : steps)
                    switch (q)
                    {
                    case 0:
                    case 1:
                    {
                        auto k = rpp::make_callback_disposable([&h]() noexcept { h = vh::mix(h, 1); });
                        root.add(k);
                        mine.push_back(k);
                        break;
                    }
                    case 2:
                        if (!mine.empty())
                        {
                            root.remove(mine.back());
                            mine.back().dispose();
                            mine.pop_back();
                        }
                        break;
                    case 3: root.clear(); break;
                    case 4: refs.push_back(rc.lock()->add_ref()); break;
                    default:
                        if (!refs.empty())
                        {
                            refs.front().dispose();
                            refs.erase(refs.begin());
                        }
                    }
                for (auto& k : mine)
                    root.remove(k);
                mine.clear();
                mine.shrink_to_fit();
                for (auto& k : refs)
                    k.dispose();
                refs.clear();
                refs.shrink_to_fit();
                vh::events(long(steps.size()));
            },
            h);
    }
} // namespace

int main(int argc, char** argv)
{
    return vh::run_deep(argc, argv, [](vh::Rng& r, long) {
        const int k = r.below(20);
        if (k < 13)
            pipeline_case(r);
        else if (k < 17)
            switch (r.below(6))
            {
            case 0: churn(r, rpp::subjects::publish_subject<int>{}, "publish"); break;
            case 1: churn(r, rpp::subjects::serialized_publish_subject<int>{}, "serialized publish"); break;
            case 2: churn(r, rpp::subjects::behavior_subject<int>{1}, "behavior"); break;
            case 3: churn(r, rpp::subjects::serialized_behavior_subject<int>{1}, "serialized behavior"); break;
            case 4: churn(r, rpp::subjects::replay_subject<int>{3}, "replay(3)"); break;
            default: churn(r, rpp::subjects::serialized_replay_subject<int>{2}, "serialized replay(2)"); break;
            }
        else if (k < 19)
            connect_case(r);
        else
            disposables_case(r);
    });
}
