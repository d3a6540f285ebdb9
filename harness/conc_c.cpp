// Scheduler-driven operators: observe_on, delay, subscribe_on, debounce, timeout,
// interval, blocking subscription.
#include "conc.hpp"

namespace cc
{
    using namespace std::chrono_literals;
    namespace
    {
        // a run loop dispatched by a thread of ours
        struct Loop
        {
            rpp::schedulers::run_loop rl{};
            std::atomic<bool>         stop{false};
            std::thread               th;
            std::thread::id           id{};
            explicit Loop(bool blocking)
            {
                std::atomic<bool> up{false};
                th = std::thread([this, blocking, &up] {
                    vi::role(50);
                    id = std::this_thread::get_id();
                    up.store(true, std::memory_order_release);
                    while (!stop.load(std::memory_order_acquire))
                    {
                        if (blocking)
                            rl.dispatch();
                        else
                        {
                            rl.dispatch_if_ready();
                            vi::relax();
                        }
                    }
                });
                while (!up.load(std::memory_order_acquire))
                    vi::relax();
            }
            ~Loop()
            {
                stop.store(true, std::memory_order_release);
                // wakes a blocked dispatcher
                rl.create_worker().schedule([](const auto&) -> rpp::schedulers::optional_delay_from_now { return {}; }, rpp::make_lambda_observer<int>([](int) {}));
                th.join();
            }
        };
        rpp::schedulers::thread_pool& pool()
        {
            static auto* p = new rpp::schedulers::thread_pool{2};
            return *p;
        }
        template<typename F>
        void with_scheduler(Ctx& c, F&& f)
        {
            switch (c.r.below(5))
            {
            case 0: c.desc += " new_thread"; return f(rpp::schedulers::new_thread{}, std::thread::id{});
            case 1: c.desc += " thread_pool"; return f(pool(), std::thread::id{});
            case 2: c.desc += " computational"; return f(rpp::schedulers::computational{}, std::thread::id{});
            default:
            {
                c.desc += " run_loop";
                Loop l{c.r.chance(1, 2)};
                return f(l.rl, l.id);
            }
            }
        }

        // items and completions on one foreign thread, in order
        void check_affinity(const Mon& m, std::thread::id want, std::thread::id not_this, bool error_free_thread, const std::string& ctx)
        {
            std::thread::id th = want;
            for (auto& e : m.log())
            {
                if (e.kind == 'e' && error_free_thread)
                    continue;
                if (e.th == not_this || e.th == std::this_thread::get_id())
                    return failp("P16", "wrong-thread:" + m.name, "event delivered on the caller's or the emitting thread in " + ctx + ": " + m.str());
                if (th == std::thread::id{})
                    th = e.th;
                else if (e.th != th)
                    return failp("P16", "thread-changed:" + m.name, "events of one subscription delivered on different threads in " + ctx + ": " + m.str());
            }
        }
        void check_order16(const Mon& m, const Src& s, bool err, bool all, const std::string& ctx)
        {
            int k = 0;
            const auto l = m.log();
            for (auto& e : l)
                if (e.kind == 'n' && e.val != s.id * BASE + k++)
                    return failp("P16", "order:" + m.name, "items are not delivered in source order in " + ctx + ": " + m.str());
            if (k > s.accepted())
                failp("P16", "invented:" + m.name, ctx + ": " + m.str());
            if (all && k != s.accepted())
                failp("P16", "lost:" + m.name, vh::fmt("%d of %d items delivered in ", k, s.accepted()) + ctx + ": " + m.str());
            if (l.empty() || l.back().kind != (err ? 'e' : 'c'))
                failp("P16", "terminal:" + m.name, "wrong terminal event in " + ctx + ": " + m.str());
        }

        void sc_observe_on(Ctx& c)
        {
            const bool delay = c.r.chance(1, 2);
            const auto d     = c.r.chance(1, 2) ? rpp::schedulers::duration{0} : rpp::schedulers::duration{std::chrono::microseconds{c.r.range(50, 1500)}};
            c.desc           = delay ? "delay" : "observe_on";
            with_scheduler(c, [&](const auto& sched, std::thread::id lid) {
                Src             a{0};
                auto            m = mon(delay ? "delay" : "observe_on", c.pause_mon);
                std::thread::id emitter{};
                if (delay)
                    attach(a.observable() | rpp::ops::delay(d, sched), m);
                else
                    attach(a.observable() | rpp::ops::observe_on(sched, d), m);
                const bool err = c.r.chance(1, 4);
                Threads    t;
                const int  n = c.r.range(0, 12), p = c.pause_src;
                t.add([&] {
                    emitter = std::this_thread::get_id();
                    a.play(*a.sub(0), n, err ? 'e' : 'c', p);
                });
                t.run();
                wait_for([&] { return m->ended(); });
                a.drop();
                m->check_grammar(c.desc);
                if (delay || !err)
                    check_merge_like(c, *m, {&a}, err ? 'e' : 'c');
                check_order16(*m, a, err, delay || !err, c.desc);
                check_affinity(*m, lid, emitter, !delay, c.desc);
                // nothing is early
                if (d.count() && !err)
                    vh::count("delayed streams");
                c.observe({&a}, {m});
            });
        }

        // items arrive not before they are due
        void sc_delay_due(Ctx& c)
        {
            with_scheduler(c, [&](const auto& sched, std::thread::id) {
                const auto       d = std::chrono::microseconds{c.r.range(300, 3000)};
                const int        n = c.r.range(1, 6);
                auto             emitted = std::make_shared<std::vector<std::atomic<int64_t>>>(size_t(n) + 1);
                auto             early   = std::make_shared<std::atomic<int>>(0);
                Src              a{0};
                auto             m = mon("delay_due");
                using clk          = rpp::schedulers::clock_type;
                auto chk           = [emitted, early, d](int i) {
                    const auto now = std::chrono::duration_cast<std::chrono::nanoseconds>(clk::now().time_since_epoch()).count();
                    if (now < (*emitted)[size_t(i)].load(ORD) + std::chrono::nanoseconds{d}.count())
                        early->fetch_add(1, ORD);
                };
                (a.observable() | rpp::ops::delay(d, sched)).subscribe([m, chk](const Val& v) { chk(v.get()); m->on('n', v.get()); }, [m](const std::exception_ptr&) { m->on('e', 0); }, [m, chk, n]() { chk(n); m->on('c', 0); });
                Threads t;
                t.add([&, p = c.pause_src] {
                    auto o = a.sub(0);
                    for (int i = 0; i <= n; ++i)
                    {
                        (*emitted)[size_t(i)].store(std::chrono::duration_cast<std::chrono::nanoseconds>(clk::now().time_since_epoch()).count(), ORD);
                        if (i < n)
                            a.next(*o, i);
                        else
                            a.complete(*o);
                        vi::pause(p);
                    }
                });
                t.run();
                wait_for([&] { return m->ended(); });
                a.drop();
                m->check_grammar(c.desc);
                check_order16(*m, a, false, true, c.desc);
                if (early->load(ORD))
                    failp("P16", "early:delay", "event delivered before its delay had passed in " + c.desc);
                c.observe({&a}, {m});
            });
        }

        void sc_subscribe_on(Ctx& c)
        {
            with_scheduler(c, [&](const auto& sched, std::thread::id lid) {
                auto            m   = mon("subscribe_on", c.pause_mon);
                auto            sub = std::make_shared<std::thread::id>();
                const int       n   = c.r.below(6);
                const bool      err = c.r.chance(1, 4);
                auto            src = rpp::source::create<Val>([sub, n, err](auto&& o) {
                    *sub = std::this_thread::get_id();
                    for (int i = 0; i < n; ++i)
                        o.on_next(Val{i});
                    if (err)
                        o.on_error(mkerr(500));
                    else
                        o.on_completed();
                });
                const auto      me  = std::this_thread::get_id();
                attach(src | rpp::ops::subscribe_on(sched), m);
                wait_for([&] { return m->ended(); });
                m->check_grammar(c.desc);
                const auto l = m->log();
                if (*sub == me || (lid != std::thread::id{} && *sub != lid))
                    failp("P16", "wrong-thread:subscribe_on", "the subscription ran on the caller's thread in " + c.desc);
                int k = 0;
                for (auto& e : l)
                {
                    if (e.th != *sub)
                        failp("P16", "thread-changed:subscribe_on", c.desc + ": " + m->str());
                    if (e.kind == 'n' && e.val != k++)
                        failp("P16", "order:subscribe_on", c.desc + ": " + m->str());
                }
                if (k != n || l.back().kind != (err ? 'e' : 'c'))
                    failp("P16", "lost:subscribe_on", c.desc + ": " + m->str());
                c.observe({}, {m});
            });
        }

        // chains of hops: the last one decides the thread, order survives
        void sc_hops(Ctx& c)
        {
            const int n = c.r.range(1, 10);
            Src       a{0};
            auto      m = mon("hops", c.pause_mon);
            auto      mid_threads = std::make_shared<std::set<std::thread::id>>();
            Obs       o = a.observable().as_dynamic();
            const int hops = c.r.range(1, 3);
            std::unique_ptr<Loop> loop;
            std::thread::id       last{};
            for (int i = 0; i < hops; ++i)
            {
                last = {};
                switch (c.r.below(6))
                {
                case 0: o = (o | rpp::ops::observe_on(rpp::schedulers::new_thread{})).as_dynamic(); c.desc += " oo:nt"; break;
                case 1: o = (o | rpp::ops::observe_on(pool())).as_dynamic(); c.desc += " oo:tp"; break;
                case 2: o = (o | rpp::ops::delay(std::chrono::microseconds{c.r.range(0, 500)}, rpp::schedulers::computational{})).as_dynamic(); c.desc += " delay:comp"; break;
                case 3: o = (o | rpp::ops::delay(std::chrono::microseconds{c.r.range(0, 500)}, rpp::schedulers::new_thread{})).as_dynamic(); c.desc += " delay:nt"; break;
                case 4:
                    o = (o | rpp::ops::map([](const Val& v) { return v; }) | rpp::ops::observe_on(rpp::schedulers::computational{})).as_dynamic();
                    c.desc += " map oo:comp";
                    break;
                default:
                    if (!loop)
                        loop = std::make_unique<Loop>(c.r.chance(1, 2));
                    o    = (o | rpp::ops::observe_on(loop->rl)).as_dynamic();
                    last = loop->id;
                    c.desc += " oo:rl";
                }
            }
            attach(o, m);
            std::thread::id emitter{};
            Threads         t;
            const int       p = c.pause_src;
            t.add([&] {
                emitter = std::this_thread::get_id();
                a.play(*a.sub(0), n, 'c', p);
            });
            t.run();
            wait_for([&] { return m->ended(); });
            a.drop();
            m->check_grammar(c.desc);
            check_merge_like(c, *m, {&a}, 'c');
            check_order16(*m, a, false, true, c.desc);
            check_affinity(*m, last, emitter, false, c.desc);
            c.observe({&a}, {m});
        }

        void sc_debounce(Ctx& c)
        {
            with_scheduler(c, [&](const auto& sched, std::thread::id) {
                Src        a{0};
                auto       m = mon("debounce", c.pause_mon);
                const auto d = std::chrono::microseconds{c.r.range(1, 300)};
                attach(a.observable() | rpp::ops::debounce(d, sched), m);
                const bool err = c.r.chance(1, 5);
                const int  n   = c.r.range(1, 8);
                Threads    t;
                t.add([&, p = c.pause_src] {
                    auto o = a.sub(0);
                    for (int i = 0; i < n; ++i)
                    {
                        a.next(*o, i);
                        vi::pause(p + int(i & 1) * 2);
                    }
                    if (err)
                        a.error(*o, 500);
                    else
                        a.complete(*o);
                });
                t.run();
                if (!m->ended())
                    failp("P03", "no-end:debounce", "the source ended but the subscriber was not told");
                a.drop();
                m->check_grammar(c.desc);
                int        last = -1;
                const auto l    = m->log();
                for (auto& e : l)
                    if (e.kind == 'n')
                    {
                        if (e.val <= last)
                            failp("P03", "duplicated-or-reordered:debounce", m->str());
                        last = e.val;
                    }
                if (last >= n)
                    failp("P03", "invented:debounce", m->str());
                if (!err && last != n - 1)
                    failp("P03", "lost:debounce", vh::fmt("the last of %d items is not delivered before the completion: ", n) + m->str());
                c.observe({&a}, {m});
            });
        }

        void sc_timeout(Ctx& c)
        {
            with_scheduler(c, [&](const auto& sched, std::thread::id) {
                Src        a{0}, f{1};
                auto       m  = mon("timeout", c.pause_mon);
                const auto d  = std::chrono::microseconds{c.r.range(100, 600)};
                const bool fb = c.r.chance(1, 2);
                c.desc += fb ? " fallback" : " error";
                if (fb)
                    attach(a.observable() | rpp::ops::timeout(d, f.observable(), sched), m);
                else
                    attach(a.observable() | rpp::ops::timeout(d, sched), m);
                const char term = c.r.chance(1, 4) ? 'e' : c.r.chance(1, 3) ? '-' : 'c';
                Threads    t;
                const int  n = c.r.range(0, 8), p = c.pause_src + 1;
                t.add([&] { a.play(*a.sub(0), n, term, p); });
                if (fb)
                    t.add([&] {
                        if (!f.wait(0, [&] { return m->ended(); }))
                            return;
                        f.play(*f.sub(0), 3, 'c', p);
                    });
                t.run();
                wait_for([&] { return m->ended(); }); // either ends or times out
                m->check_grammar(c.desc);
                const auto l = m->log();
                int        k = 0, g = 0;
                for (auto& e : l)
                    if (e.kind == 'n')
                    {
                        if (e.val / BASE == 0)
                        {
                            if (e.val != k++ || g)
                                failp("P03", "reordered:timeout", m->str());
                        }
                        else if (e.val != BASE + g++)
                            failp("P03", "reordered:timeout", m->str());
                    }
                if (k > a.accepted() || g > f.accepted())
                    failp("P03", "invented:timeout", m->str());
                if (f.subscribed())
                {
                    if (g != 3 || l.back().kind != 'c')
                        failp("P03", "lost:timeout", "fallback not delivered completely: " + m->str());
                }
                else if (fb || l.back().kind == 'c' || l.back().val != -3)
                {
                    // ended by itself: nothing was lost
                    if (k != n)
                        failp("P03", "lost:timeout", vh::fmt("%d of %d items delivered without a timeout: ", k, n) + m->str());
                    if (l.back().kind != term)
                        failp("P03", "terminal:timeout", m->str());
                }
                if (l.back().kind == 'e' && l.back().val == -3 && fb)
                    failp("P03", "invented-error:timeout", m->str());
                a.drop();
                f.drop();
                c.observe({&a, &f}, {m});
            });
        }

        // blocking subscription
        void sc_blocking(Ctx& c)
        {
            auto      m    = mon("as_blocking", c.pause_mon);
            const int form = c.r.below(8);
            c.desc += vh::fmt(" form=%d", form);
            const int n = c.r.below(5);
            bool      effect = false; // plain: must be visible after the return
            auto      end    = [m, &effect](char k, int v) {
                const auto i = m->enter(k, v);
                vi::pause(3);
                effect = true;
                m->leave(i, k);
            };
            auto run = [&](const auto& o) {
                o.subscribe([m](const Val& v) { m->on('n', v.get()); }, [end](const std::exception_ptr& e) { end('e', code_of(e)); }, [end]() { end('c', 0); });
            };
            bool        disposed_case = false;
            char        want          = 'c';
            uint64_t    ret           = 0;
            std::thread helper;
            auto        body = [n](bool err) {
                return rpp::source::create<Val>([n, err](auto&& o) {
                    for (int i = 0; i < n; ++i)
                        o.on_next(Val{i});
                    vi::pause(2);
                    if (err)
                        o.on_error(mkerr(7));
                    else
                        o.on_completed();
                });
            };
            const bool err = c.r.chance(1, 3);
            want           = err ? 'e' : 'c';
            switch (form)
            {
            case 0: run(body(err) | rpp::ops::as_blocking()); break;
            case 1: run(body(err) | rpp::ops::subscribe_on(rpp::schedulers::new_thread{}) | rpp::ops::as_blocking()); break;
            case 2: run(body(err) | rpp::ops::observe_on(pool()) | rpp::ops::as_blocking()); break;
            case 3:
            {
                Src s{0};
                helper = std::thread([&] {
                    vi::role(2);
                    s.wait(0);
                    s.play(*s.sub(0), n, want, 2);
                    s.drop();
                });
                run(s.observable() | rpp::ops::as_blocking());
                ret = tick();
                helper.join();
                break;
            }
            case 4: // ends through take(), the source never ends itself
            {
                Src s{0};
                want   = 'c';
                helper = std::thread([&] {
                    vi::role(2);
                    s.wait(0);
                    s.play(*s.sub(0), n + 1, '-', 2);
                    s.drop();
                });
                run(s.observable() | rpp::ops::take(size_t(n) + 1) | rpp::ops::as_blocking());
                ret = tick();
                helper.join();
                break;
            }
            case 6:
            case 7: // the end arrives while the caller is about to wait
            {
                Src       s{0};
                const int range = c.r.range(4, 70), spin = c.r.below(200);
                helper          = std::thread([&, spin] {
                    vi::role(2);
                    s.wait(0);
                    for (volatile int i = 0; i < spin * 50; i = i + 1) {}
                    s.play(*s.sub(0), n, want, 0);
                    s.drop();
                });
                run(rpp::source::create<Val>([&s, range](auto&& o) {
                        s.observable().subscribe(std::forward<decltype(o)>(o));
                        vi::dense(range); // delays this thread once, within its next steps
                    })
                    | rpp::ops::as_blocking());
                ret = tick();
                helper.join();
                break;
            }
            case 5: // disposed from another thread
            {
                disposed_case = true;
                Src                                 s{0};
                auto                                d = rpp::composite_disposable_wrapper::make();
                std::shared_ptr<std::atomic<bool>>  gone = std::make_shared<std::atomic<bool>>(false);
                helper = std::thread([&, gone] {
                    vi::role(2);
                    if (!s.wait(0, [&] { return gone->load(); }))
                        return;
                    s.play(*s.sub(0), n, '-', 2);
                    d.dispose();
                });
                (s.observable() | rpp::ops::as_blocking()).subscribe(rpp::composite_disposable_wrapper{d}, [m](const Val& v) { m->on('n', v.get()); }, [end](const std::exception_ptr& e) { end('e', code_of(e)); }, [end]() { end('c', 0); });
                *gone = true;
                helper.join();
                s.drop();
                break;
            }
            }
            if (!ret)
                ret = tick();
            m->check_grammar(c.desc);
            const auto l = m->log();
            if (!disposed_case)
            {
                if (!effect || l.empty() || l.back().kind != want)
                    failp("P19", "early-return", "subscribe returned before the terminal callback finished in " + c.desc + ": " + m->str());
#ifndef VH_TSAN
                else if (l.back().e == 0 || l.back().e > ret)
                    failp("P19", "early-return", "subscribe returned before the terminal callback finished in " + c.desc + ": " + m->str());
#endif
                int k = 0;
                for (auto& e : l)
                    k += e.kind == 'n';
                if (form == 2 && err ? k > n : k != (form == 4 ? n + 1 : n)) // observe_on: an error overtakes items
                    failp("P19", "lost", c.desc + ": " + m->str());
            }
            c.observe({}, {m});
            vh::sig(vh::mix(vh::mix(uint64_t(form), uint64_t(n)), ret - (l.empty() ? ret : l.back().b)));
            vh::events(1);
        }

        // random compositions of multi-source and hopping operators
        struct Comp
        {
            Ctx&             c;
            std::deque<Src>& s;
            const std::vector<int>& sid;
            Obs build(int depth)
            {
                if (depth == 0 || c.r.chance(1, 6))
                {
                    const int id = int(s.size());
                    s.emplace_back(id);
                    c.desc += vh::fmt(" s%d", id);
                    return s.back().observable().as_dynamic();
                }
                switch (c.r.below(12))
                {
                case 0:
                case 1:
                case 2:
                {
                    c.desc += " merge(";
                    auto a = build(depth - 1);
                    auto b = build(depth - 1);
                    c.desc += " )";
                    return (a | rpp::ops::merge_with(b)).as_dynamic();
                }
                case 3: c.desc += " oo:pool"; return (build(depth - 1) | rpp::ops::observe_on(pool())).as_dynamic();
                case 4: c.desc += " oo:nt"; return (build(depth - 1) | rpp::ops::observe_on(rpp::schedulers::new_thread{})).as_dynamic();
                case 5: c.desc += " delay"; return (build(depth - 1) | rpp::ops::delay(std::chrono::microseconds{c.r.range(1, 300)}, pool())).as_dynamic();
                case 6:
                {
                    c.desc += " concat(";
                    auto a = build(depth - 1);
                    auto b = build(depth - 1);
                    c.desc += " )";
                    return (b | rpp::ops::start_with(a)).as_dynamic();
                }
                case 7: c.desc += " group"; return (build(depth - 1) | rpp::ops::group_by([](const Val& v) { return v.get() / BASE; }) | rpp::ops::merge()).as_dynamic();
                case 8: c.desc += " window"; return (build(depth - 1) | rpp::ops::window(2) | rpp::ops::concat()).as_dynamic();
                case 9: c.desc += " flat_map"; return (build(depth - 1) | rpp::ops::flat_map([](const Val& v) { return rpp::source::just(rpp::schedulers::immediate{}, v); })).as_dynamic();
                case 10: c.desc += " publish"; return (build(depth - 1) | rpp::ops::publish() | rpp::ops::ref_count()).as_dynamic();
                default: c.desc += " sub_on"; return (build(depth - 1) | rpp::ops::subscribe_on(pool())).as_dynamic();
                }
            }
        };
        void sc_compose(Ctx& c)
        {
            std::deque<Src>  s;
            std::vector<int> dummy;
            Comp             b{c, s, dummy};
            auto             o = b.build(c.r.range(1, 4));
            auto             m = mon("compose", c.pause_mon);
            attach(o, m);
            Threads     t;
            bool        err = false;
            const auto  p   = c.pause_src;
            for (auto& x : s)
            {
                const char term = pick_term(c.r, 1, 20);
                err |= term == 'e';
                const int n = c.r.below(5);
                t.add([&x, n, term, m, p] {
                    if (!x.wait(0, [&] { return m->ended(); }))
                        return;
                    x.play(*x.sub(0), n, term, p);
                });
            }
            t.run();
            wait_for([&] { return m->ended(); });
            m->check_grammar(c.desc);
            std::vector<const Src*> v;
            for (auto& x : s)
                v.push_back(&x);
            if (!err)
                check_merge_like(c, *m, v, 'c');
            else
            {
                std::map<int, int> next;
                for (auto& e : m->log())
                    if (e.kind == 'n' && e.val % BASE != next[e.val / BASE]++)
                        failp("P03", "lost-or-reordered:compose", c.desc + ": " + m->str());
                if (m->log().back().kind != 'e')
                    failp("P03", "no-error:compose", c.desc + ": " + m->str());
            }
            c.observe(v, {m});
            for (auto& x : s)
                x.drop();
        }
    } // namespace
    std::vector<Entry> scenarios_c()
    {
        return {{"observe_on", sc_observe_on, "P02 P03 P16", 2}, {"delay_due", sc_delay_due, "P16", 1}, {"subscribe_on", sc_subscribe_on, "P02 P16", 1}, {"hops", sc_hops, "P03 P16", 2}, {"debounce", sc_debounce, "P02 P03", 2}, {"timeout", sc_timeout, "P02 P03", 2}, {"blocking", sc_blocking, "P19", 1}, {"compose", sc_compose, "P02 P03", 3}};
    }
} // namespace cc
