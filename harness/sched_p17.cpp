// P17: time operators and sources under random scripts of events and clock steps,
// on the virtual-time scheduler and on a run_loop driven by a virtual clock.
#include "sched.hpp"

namespace sc
{
    namespace rs = rpp::schedulers;
    namespace
    {
        enum SK
        {
            Delay,
            ObserveOn,
            Debounce,
            Throttle,
            Timeout,
            TimeoutFallback,
            TimeoutSlowFallback, // fallback is an interval on the same scheduler
            NKinds
        };
        const char* names[] = {"delay", "observe_on", "debounce", "throttle", "timeout", "timeout_fallback", "timeout_interval"};
        struct Stage
        {
            int  kind;
            long d;
        };
        struct Ev
        {
            char k; // n e c
            int  v;
        };
        struct Step
        {
            std::vector<Ev>  src;      // source events at that instant
            std::vector<int> sub;      // subscribe a new subscriber; value: it disposes inside of its n-th callback (0: never)
            std::vector<int> dispose;  // dispose of that subscriber
        };
        struct Script
        {
            bool               test{true};
            std::vector<Stage> st;
            std::vector<Step>  steps;
            std::string        str() const
            {
                std::ostringstream o;
                o << (test ? "test_scheduler" : "run_loop");
                for (auto& s : st)
                    o << " | " << names[s.kind] << "(" << s.d << ")";
                o << ";";
                for (size_t t = 0; t < steps.size(); ++t)
                {
                    auto& s = steps[t];
                    if (s.src.empty() && s.sub.empty() && s.dispose.empty())
                        continue;
                    o << " @" << t << ":";
                    for (int x : s.sub)
                        o << "S" << x;
                    for (auto& e : s.src)
                        o << e.k << e.v;
                    for (int x : s.dispose)
                        o << "D" << x;
                }
                return o.str();
            }
        };
        struct Sub
        {
            // reference of one subscription
            const Script&                             s;
            int                                       id;
            int                                       stop_at;
            Log                                       log{};
            long                                      start{0};
            bool                                      done{false};
            bool                                      ambiguous{false};
            int                                       seen{0};
            struct St
            {
                std::deque<std::pair<long, Ev>> q;
                std::optional<int>              val;
                long                            due{-1};
                bool                            over{false}; // terminal passed this stage
                std::optional<long>             last;
                bool                            fallback{false};
                int                             tick{0};
            };
            std::vector<St> st;
            Sub(const Script& sc, int i, int stop, long now)
                : s{sc}
                , id{i}
                , stop_at{stop}
                , start{now}
                , st(sc.st.size())
            {
                for (size_t i2 = 0; i2 < st.size(); ++i2)
                    if (s.st[i2].kind >= Timeout)
                        st[i2].due = now + s.st[i2].d;
            }
            void out(const Ev& e, long t)
            {
                if (done)
                    return;
                log.add(std::to_string(id) + e.k + (e.k == 'c' ? "" : std::to_string(e.v)) + "@" + std::to_string(t));
                if (e.k != 'n' || ++seen == stop_at)
                    done = true;
            }
            void pass(size_t i, const Ev& e, long t)
            {
                if (e.k != 'n')
                    st[i].over = true;
                feed(i + 1, e, t);
            }
            void feed(size_t i, const Ev& e, long t)
            {
                if (done)
                    return;
                if (i == st.size())
                    return out(e, t);
                auto& x = st[i];
                if (x.over || x.fallback)
                    return;
                const long d = s.st[i].d;
                switch (s.st[i].kind)
                {
                case ObserveOn:
                    if (e.k == 'e')
                    {
                        x.q.clear();
                        return pass(i, e, t);
                    }
                    [[fallthrough]];
                case Delay: x.q.emplace_back(t + d, e); break;
                case Debounce:
                    if (e.k == 'n')
                    {
                        x.val = e.v;
                        x.due = t + d;
                        break;
                    }
                    if (e.k == 'c' && x.val)
                        feed(i + 1, {'n', *std::exchange(x.val, std::nullopt)}, t);
                    x.val.reset();
                    return pass(i, e, t);
                case Throttle:
                    if (e.k == 'n')
                    {
                        if (x.last && t < *x.last + d)
                            return;
                        x.last = t;
                    }
                    return pass(i, e, t);
                default: // timeouts
                    if (e.k == 'n')
                        x.due = t + d;
                    return pass(i, e, t);
                }
            }
            // what became due by t is emitted at t
            void tick(long t)
            {
                // two stages that are due at one instant: their order is not specified
                int due = 0;
                for (size_t i = 0; i < st.size() && !done; ++i)
                {
                    auto& x = st[i];
                    switch (s.st[i].kind)
                    {
                    case Delay:
                    case ObserveOn: due += !x.over && !x.q.empty() && x.q.front().first <= t; break;
                    case Debounce: due += !x.over && x.val && x.due <= t; break;
                    case Throttle: break;
                    default: due += !x.over && x.due <= t;
                    }
                }
                if (due > 1)
                    ambiguous = true;
                for (size_t i = 0; i < st.size() && !done; ++i)
                {
                    auto& x = st[i];
                    switch (s.st[i].kind)
                    {
                    case Delay:
                    case ObserveOn:
                        while (!x.q.empty() && x.q.front().first <= t && !x.over)
                        {
                            const auto e = x.q.front().second;
                            x.q.pop_front();
                            pass(i, e, t);
                        }
                        break;
                    case Debounce:
                        if (x.val && x.due <= t && !x.over)
                        {
                            feed(i + 1, {'n', *std::exchange(x.val, std::nullopt)}, t);
                        }
                        break;
                    case Throttle: break;
                    default:
                        if (x.fallback)
                        {
                            while (x.due <= t && !done)
                            {
                                feed(i + 1, {'n', 800 + x.tick++}, x.due);
                                x.due += s.st[i].d;
                            }
                            break;
                        }
                        if (x.over || x.due > t)
                            break;
                        if (s.st[i].kind == Timeout)
                            pass(i, {'e', -2}, t);
                        else if (s.st[i].kind == TimeoutFallback)
                        {
                            feed(i + 1, {'n', 801}, t);
                            pass(i, {'c', 0}, t);
                        }
                        else
                        {
                            x.fallback = true;
                            x.due      = t + s.st[i].d;
                        }
                    }
                }
            }
        };

        struct Timer
        {
            std::function<void(long)> advance; // one millisecond, and run what is due
            std::function<void()>     settle;  // run what is due now
            std::function<long()>     now;
        };

        template<typename Sched>
        Obs apply(Obs o, const Stage& st, const Sched& sch)
        {
            const std::chrono::milliseconds d{st.d};
            switch (st.kind)
            {
            case Delay: return (o | rpp::ops::delay(d, sch)).as_dynamic();
            case ObserveOn: return st.d ? (o | rpp::ops::observe_on(sch, d)).as_dynamic() : (o | rpp::ops::observe_on(sch)).as_dynamic();
            case Debounce: return (o | rpp::ops::debounce(d, sch)).as_dynamic();
            case Throttle: return (o | rpp::ops::throttle<Sched>(d)).as_dynamic();
            case Timeout: return (o | rpp::ops::timeout(d, sch)).as_dynamic();
            case TimeoutFallback: return (o | rpp::ops::timeout(d, rpp::source::just(rs::immediate{}, Val{801}), sch)).as_dynamic();
            default: return (o | rpp::ops::timeout(d, rpp::source::interval(d, sch) | rpp::ops::map([](size_t n) { return Val{800 + int(n)}; }), sch)).as_dynamic();
            }
        }

        struct SrcSub
        {
            std::shared_ptr<Dobs> o;
            bool                  released{false};
        };
        template<typename Sched>
        void run_ops(const Script& s, const Sched& sch, const Timer& tm)
        {
            const long tok0 = Tok::live.load(), val0 = Val::live.load();
            // reference
            std::vector<Sub>                 subs;
            std::vector<std::vector<bool>>   done_at; // per step, per subscriber
            long                             t = 0;
            std::vector<std::pair<int, bool>> src_over; // source ended for subscriber
            for (auto& stp : s.steps)
            {
                ++t;
                for (auto& x : subs)
                    x.tick(t);
                for (int stop : stp.sub)
                {
                    subs.emplace_back(s, int(subs.size()), stop, t);
                }
                for (auto& e : stp.src)
                    for (auto& x : subs)
                    {
                        if (x.start > t)
                            continue;
                        x.feed(0, e, t);
                        if (s.test || s.st.size() > 1) // zero delays are due at once
                            x.tick(t);
                    }
                for (auto& x : subs)
                    x.tick(t);
                for (int k : stp.dispose)
                    if (size_t(k) < subs.size())
                        subs[size_t(k)].done = true;
                done_at.emplace_back();
                for (auto& x : subs)
                    done_at.back().push_back(x.done);
            }
            for (auto& x : subs)
                if (x.ambiguous && s.st.size() > 1)
                {
                    vh::count("skipped: order at one instant not specified");
                    return;
                }
            // real
            {
                std::deque<SrcSub>                           srcs;
                std::deque<Log>                              logs;
                std::deque<rpp::composite_disposable_wrapper> ds;
                std::deque<int>                              seen;
                const long                                   t0 = tm.now();
                Obs                                          o  = rpp::source::create<Val>([&srcs](auto&& obs) {
                                             auto& x = srcs.emplace_back();
                                             obs.set_upstream(rpp::make_callback_disposable([&x]() noexcept { x.released = true; }));
                                             x.o = std::make_shared<Dobs>(std::forward<decltype(obs)>(obs).as_dynamic());
                                         }).as_dynamic();
                for (auto& st : s.st)
                    o = apply(o, st, sch);
                bool ended = false;
                long i     = -1;
                for (auto& stp : s.steps)
                {
                    ++i;
                    tm.advance(1);
                    for (int stop : stp.sub)
                    {
                        const size_t id = logs.size();
                        logs.emplace_back();
                        seen.push_back(0);
                        ds.push_back(rpp::composite_disposable_wrapper::make());
                        auto put = [&logs, &tm, id, t0, tok = Tok{}](char k, int v) {
                            tok.touch();
                            logs[id].add(std::to_string(id) + k + (k == 'c' ? "" : std::to_string(v)) + "@" + std::to_string(tm.now() - t0));
                        };
                        o.subscribe(
                            ds[id],
                            [put, &seen, &ds, id, stop](const Val& v) {
                                put('n', v.get());
                                if (++seen[id] == stop)
                                    ds[id].dispose();
                            },
                            [put](const std::exception_ptr& e) {
                                int c = -99;
                                try
                                {
                                    std::rethrow_exception(e);
                                }
                                catch (const VErr& x)
                                {
                                    c = x.code;
                                }
                                catch (const rpp::utils::timeout_reached&)
                                {
                                    c = -2;
                                }
                                catch (...)
                                {
                                }
                                put('e', c);
                            },
                            [put] { put('c', 0); });
                    }
                    for (auto& e : stp.src)
                    {
                        for (size_t k = 0; k < srcs.size(); ++k)
                        {
                            auto keep = srcs[k].o;
                            if (!keep)
                                continue;
                            if (e.k == 'n')
                                keep->on_next(Val{e.v});
                            else if (e.k == 'c')
                                keep->on_completed();
                            else
                                keep->on_error(std::make_exception_ptr(VErr{e.v}));
                            if (!s.test && s.st.size() > 1)
                                tm.settle();
                        }
                    }
                    tm.settle();
                    for (int k : stp.dispose)
                        if (size_t(k) < ds.size())
                            ds[size_t(k)].dispose();
                    for (size_t k = 0; k < srcs.size(); ++k)
                        if (k < done_at[size_t(i)].size() && done_at[size_t(i)][k])
                        {
                            if (!srcs[k].released)
                                failp("P17", "not-released", vh::fmt("subscriber %zu is over at step %ld but the source is still subscribed || ", k, i + 1) + s.str());
                            srcs[k].o.reset();
                        }
                    (void)ended;
                }
                bool same = true;
                for (size_t k = 0; k < subs.size(); ++k)
                {
                    same = same && subs[k].log.v == logs[k].v;
                    compare("P17", std::string("timing:") + (s.test ? "T" : "L") + ":" + [&] {
                        std::string n;
                        for (auto& st : s.st)
                            n += std::string(n.empty() ? "" : "+") + names[st.kind];
                        return n;
                    }(), s.str(), subs[k].log, logs[k]);
                    observe(s.str() + "#" + std::to_string(k), logs[k]);
                }
                for (auto& d : ds)
                    d.dispose();
                for (auto& x : srcs)
                    x.o.reset();
                tm.advance(200);
                for (size_t k = 0; k < subs.size(); ++k)
                    if (same && logs[k].v.size() > subs[k].log.v.size())
                        failp("P17", "after-dispose", "events after everybody was disposed || " + s.str());
            }
            if (Tok::live.load() != tok0 || Val::live.load() != val0)
                failp("P08", "leak:time", vh::fmt("%ld callbacks and %ld values alive || ", Tok::live.load() - tok0, Val::live.load() - val0) + s.str());
        }

        // ------------------------------------------------------ interval, timer
        struct IScript
        {
            int  sched; // 0 test_scheduler, 1 run_loop, 2 current_thread, 3 immediate
            int  form;  // 0 interval(period) 1 interval(initial, period) 2 interval(time point, period) 3 timer(delay) 4 timer(time point)
            long initial, period;
            int  count;             // take
            bool inside;            // ends by dispose inside of a callback instead of take
            std::vector<int> slow;  // callback k takes that long
            std::vector<int> more;  // other subscriptions, at these steps (schedulers 0 and 1)
            int  nested;            // current_thread: subscribed from inside of a task
            std::string str() const
            {
                std::ostringstream o;
                o << (form < 3 ? "interval" : "timer") << form << "(" << initial << "," << period << ") on " << "TLCI"[sched] << " count=" << count << (inside ? " dispose" : " take") << (nested ? " nested" : "") << " slow:";
                for (int x : slow)
                    o << x << " ";
                o << "more:";
                for (int x : more)
                    o << x << " ";
                return o.str();
            }
        };
        template<typename Sched>
        void run_interval(const IScript& s, const Sched& sch, const Timer& tm, const std::function<rs::time_point(long)>& at)
        {
            const long tok0 = Tok::live.load();
            const long t0   = tm.now();
            const std::chrono::milliseconds in{s.initial}, pe{s.period};
            auto make = [&] {
                switch (s.form)
                {
                case 0: return rpp::source::interval(pe, sch).as_dynamic();
                case 1: return rpp::source::interval(in, pe, sch).as_dynamic();
                case 2: return rpp::source::interval(at(t0 + s.initial), pe, sch).as_dynamic();
                case 3: return rpp::source::timer(in, sch).as_dynamic();
                default: return rpp::source::timer(at(t0 + s.initial), sch).as_dynamic();
                }
            };
            {
                auto            o = make();
                std::deque<Log> logs, want;
                std::deque<rpp::composite_disposable_wrapper> ds;
                auto            start = [&] {
                    const size_t id = logs.size();
                    logs.emplace_back();
                    ds.push_back(rpp::composite_disposable_wrapper::make());
                    auto n = std::make_shared<int>(0);
                    auto f = [&, id, n, tok = Tok{}](size_t v) {
                        tok.touch();
                        logs[id].add(std::to_string(v) + "@" + std::to_string(tm.now() - t0));
                        const int k = (*n)++;
                        if (s.sched != 0 && size_t(k) < s.slow.size())
                            vclock::now_ns += s.slow[size_t(k)] * vclock::MS;
                        if (s.inside && k + 1 == s.count)
                            ds[id].dispose();
                    };
                    auto c = [&, id] { logs[id].add("c@" + std::to_string(tm.now() - t0)); };
                    if (s.inside)
                        o.subscribe(ds[id], f, c);
                    else
                        (o | rpp::ops::take(size_t(s.count))).subscribe(ds[id], f, c);
                };
                // reference: ticks on the grid, a late one is delivered as soon as possible
                auto expect = [&](long sub_at) {
                    Log  l;
                    long first = s.form == 0 ? sub_at + s.period : (s.form == 2 || s.form == 4) ? s.initial : sub_at + s.initial;
                    long now = sub_at, due = first;
                    const int n = s.form >= 3 ? 1 : s.count;
                    for (int k = 0; k < n; ++k)
                    {
                        now = std::max(now, due);
                        l.add(std::to_string(k) + "@" + std::to_string(now));
                        if (s.sched != 0 && size_t(k) < s.slow.size())
                            now += s.slow[size_t(k)];
                        due += s.period;
                    }
                    if (!s.inside || (s.form >= 3 && s.count > 1))
                        l.add("c@" + std::to_string(now));
                    want.push_back(l);
                };
                if (s.sched >= 2)
                {
                    expect(0);
                    if (s.nested && s.sched == 2)
                    {
                        auto dummy = rpp::make_lambda_observer<int>([](int) {}).as_dynamic();
                        rs::current_thread::create_worker().schedule([&](const auto&) -> rs::optional_delay_from_now {
                            start();
                            return std::nullopt;
                        },
                                                                     std::move(dummy));
                    }
                    else
                        start();
                }
                else
                {
                    expect(0);
                    start();
                    const bool many = !s.more.empty();
                    for (int step = 1; step < 150; ++step)
                    {
                        tm.settle();
                        tm.advance(1);
                        if (many && std::find(s.more.begin(), s.more.end(), step) != s.more.end())
                        {
                            expect(tm.now() - t0);
                            start();
                        }
                    }
                }
                for (size_t k = 0; k < logs.size(); ++k)
                {
                    compare("P17", std::string("timing:") + "TLCI"[s.sched] + (s.form < 3 ? ":interval" : ":timer"), s.str(), want[k], logs[k]);
                    observe(s.str() + "#" + std::to_string(k), logs[k]);
                }
                for (auto& d : ds)
                    d.dispose();
                if (s.sched < 2)
                    tm.advance(100);
            }
            if (Tok::live.load() != tok0)
                failp("P08", "leak:interval", "callbacks alive after the end || " + s.str());
        }
    } // namespace

    namespace
    {
        template<typename Fn>
        void with_test(Fn&& fn)
        {
            rs::test_scheduler ts{};
            const auto         base = rs::test_scheduler::now();
            Timer              tm;
            tm.now     = [] { return long(rs::test_scheduler::now().time_since_epoch().count() / vclock::MS); };
            tm.settle  = [] {};
            tm.advance = [&](long n) {
                for (long k = 0; k < n; ++k)
                    ts.time_advance(std::chrono::milliseconds{1});
            };
            (void)base;
            fn(ts, tm, [](long ms) { return rs::time_point{std::chrono::nanoseconds{ms * vclock::MS}}; });
        }
        template<typename Fn>
        void with_loop(Fn&& fn)
        {
            rs::run_loop loop{};
            Timer        tm;
            tm.now    = [] { return long(vclock::now_ns / vclock::MS); };
            tm.settle = [&] {
                for (int guard = 0; loop.is_any_ready_schedulable() && guard < 10000; ++guard)
                    loop.dispatch_if_ready();
            };
            tm.advance = [&](long n) {
                for (long k = 0; k < n; ++k)
                {
                    vclock::now_ns += vclock::MS;
                    tm.settle();
                }
            };
            fn(loop, tm, [](long ms) { return rs::time_point{std::chrono::nanoseconds{ms * vclock::MS}}; });
        }
    } // namespace

    void case_p17(vh::Rng& r)
    {
        if (r.chance(1, 4))
        {
            IScript s{};
            s.sched   = r.below(4);
            s.form    = r.below(5);
            s.initial = r.range(s.sched == 0 && (s.form == 2 || s.form == 4) ? 1 : 0, 12);
            s.period  = r.range(1, 9);
            s.count   = r.range(1, 8);
            s.inside  = r.chance(1, 3);
            s.nested  = r.chance(1, 3);
            if (s.sched != 0 && r.chance(1, 2))
                for (int k = r.range(1, 6); k > 0; --k)
                    s.slow.push_back(r.range(0, 14));
            if (s.sched < 2 && s.slow.empty() && s.form != 2 && s.form != 4)
                for (int k = r.below(3); k > 0; --k)
                {
                    const int x = r.range(1, 40);
                    if (std::find(s.more.begin(), s.more.end(), x) == s.more.end())
                        s.more.push_back(x);
                }
            std::sort(s.more.begin(), s.more.end());
            switch (s.sched)
            {
            case 0: return with_test([&](auto& sch, const Timer& tm, auto at) { run_interval(s, sch, tm, at); });
            case 1: return with_loop([&](auto& sch, const Timer& tm, auto at) { run_interval(s, sch, tm, at); });
            default: break;
            }
            Timer tm;
            tm.now  = [] { return long(vclock::now_ns / vclock::MS); };
            auto at = [](long ms) { return rs::time_point{std::chrono::nanoseconds{ms * vclock::MS}}; };
            if (s.sched == 2)
                return run_interval(s, rs::current_thread{}, tm, at);
            return run_interval(s, rs::immediate{}, tm, at);
        }
        Script s;
        s.test       = r.chance(1, 2);
        const int ns = r.chance(2, 3) ? 1 : 2;
        for (int i = 0; i < ns; ++i)
        {
            Stage st{r.below(NKinds), r.range(1, 12)};
            if (ns > 1 && (st.kind == ObserveOn))
                st.kind = Delay;
            if (ns == 1 && st.kind < Timeout && r.chance(1, 8))
                st.d = 0;
            s.st.push_back(st);
        }
        const int len = r.range(5, 60);
        int       val = 0;
        const int density = r.range(2, 12);
        bool      over = false;
        s.steps.resize(size_t(len) + 45);
        s.steps[0].sub.push_back(r.chance(1, 4) ? r.range(1, 6) : 0);
        int nsub = 1;
        for (int t = 0; t < len && !over; ++t)
        {
            auto& stp = s.steps[size_t(t)];
            if (t && nsub < 3 && r.chance(1, 40))
            {
                stp.sub.push_back(r.chance(1, 4) ? r.range(1, 6) : 0);
                ++nsub;
            }
            if (r.chance(1, density))
            {
                for (int k = r.chance(1, 5) ? r.range(1, 3) : 1; k > 0; --k)
                    stp.src.push_back({'n', ++val});
                if (r.chance(1, 12))
                {
                    stp.src.push_back({r.chance(1, 2) ? 'c' : 'e', 700 + t});
                    over = true;
                }
            }
            if (r.chance(1, 80))
                stp.dispose.push_back(r.below(nsub));
        }
        if (!over && r.chance(2, 3))
            s.steps[size_t(len)].src.push_back({r.chance(1, 2) ? 'c' : 'e', 700 + len});
        if (s.test)
            with_test([&](auto& sch, const Timer& tm, auto) { run_ops(s, sch, tm); });
        else
            with_loop([&](auto& sch, const Timer& tm, auto) { run_ops(s, sch, tm); });
    }
} // namespace sc
