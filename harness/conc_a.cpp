// Merging, concatenating and switching operators under threads.
#include "conc.hpp"

namespace cc
{
    namespace
    {
        std::vector<const Src*> ptrs(const std::deque<Src>& s)
        {
            std::vector<const Src*> r;
            for (auto& x : s)
                r.push_back(&x);
            return r;
        }
        void player(Ctx& c, Threads& t, Src& s, int n, char term, const MonP& m, int delay = 0)
        {
            const int p = c.pause_src;
            t.add([&s, n, term, m, p, delay] {
                for (int i = 0; i < delay; ++i)
                    vi::pause(2);
                if (!s.wait(0, [&] { return m->ended(); }))
                    return;
                s.play(*s.sub(0), n, term, p);
            });
        }

        // merge_with of hot sources
        void sc_merge_with(Ctx& c)
        {
            const int       n = c.r.range(2, 4);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto m = mon("merge_with", c.pause_mon);
            Obs  o = s[0].observable().as_dynamic();
            if (n == 2)
                o = (s[0].observable() | rpp::ops::merge_with(s[1].observable())).as_dynamic();
            else if (n == 3)
                o = (s[0].observable() | rpp::ops::merge_with(s[1].observable(), s[2].observable())).as_dynamic();
            else
                o = (s[0].observable() | rpp::ops::merge_with(s[1].observable(), s[2].observable(), s[3].observable())).as_dynamic();
            attach(o, m);
            Threads t;
            char    expect = 'c';
            for (int i = 0; i < n; ++i)
            {
                const char term = pick_term(c.r, 1, 6);
                if (term == 'e')
                    expect = 'e';
                player(c, t, s[size_t(i)], c.r.range(0, 6), term, m, c.r.range(0, 2));
            }
            t.run();
            m->check_grammar(c.desc);
            check_merge_like(c, *m, ptrs(s), expect);
            c.observe(ptrs(s), {m});
        }

        // merge of an asynchronous outer source and asynchronous inner ones
        void sc_merge(Ctx& c)
        {
            const int       n = c.r.range(1, 4);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto                                             m = mon("merge", c.pause_mon);
            std::shared_ptr<rpp::dynamic_observer<Obs>>      outer;
            const bool                                       flat = c.r.chance(1, 2);
            c.desc += flat ? " flat_map" : " merge";
            auto src = rpp::source::create<Obs>([&](auto&& o) { outer = std::make_shared<rpp::dynamic_observer<Obs>>(std::forward<decltype(o)>(o).as_dynamic()); });
            if (flat)
                attach(src | rpp::ops::flat_map([](const Obs& v) { return v; }), m);
            else
                attach(src | rpp::ops::merge(), m);
            Threads           t;
            char              expect  = 'c';
            const char        oterm   = c.r.chance(1, 8) ? 'e' : 'c';
            uint64_t          cut     = ~0ull;
            const int         op      = c.pause_src;
            t.add([&, oterm, op] {
                for (int i = 0; i < n; ++i)
                {
                    outer->on_next(s[size_t(i)].observable().as_dynamic());
                    vi::pause(op);
                }
                if (oterm == 'e')
                {
                    cut = tick();
                    outer->on_error(mkerr(500));
                }
                else
                    outer->on_completed();
            });
            for (int i = 0; i < n; ++i)
            {
                const char term = pick_term(c.r, 1, 8);
                if (term == 'e')
                    expect = 'e';
                player(c, t, s[size_t(i)], c.r.range(0, 5), term, m);
            }
            t.run();
            outer.reset();
            if (oterm == 'e')
                expect = '?';
            m->check_grammar(c.desc);
            check_merge_like(c, *m, ptrs(s), expect, cut);
            if (oterm == 'e' && (m->log().empty() || m->log().back().kind != 'e'))
                failp("P03", "no-error:merge", "outer source failed but the subscriber was not told: " + m->str());
            c.observe(ptrs(s), {m});
        }

        // concat: inner sources one after the other, whoever ends or pushes when
        void sc_concat(Ctx& c)
        {
            const int       n = c.r.range(1, 5);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto                                        m = mon("concat", c.pause_mon);
            std::shared_ptr<rpp::dynamic_observer<Obs>> outer;
            auto                                        src = rpp::source::create<Obs>([&](auto&& o) { outer = std::make_shared<rpp::dynamic_observer<Obs>>(std::forward<decltype(o)>(o).as_dynamic()); });
            attach(src | rpp::ops::concat(), m);
            std::atomic<bool> outer_done{false}, lost{false};
            Threads           t;
            const int         op = c.pause_src;
            t.add([&, op] {
                for (int i = 0; i < n; ++i)
                {
                    outer->on_next(s[size_t(i)].observable().as_dynamic());
                    vi::pause(op);
                }
                outer->on_completed();
                outer_done = true;
            });
            const int err_at = c.r.chance(1, 6) ? c.r.below(n) : -1;
            // empty inner sources most of the time: hand-over is the interesting moment
            std::vector<int> counts;
            for (int i = 0; i < n; ++i)
                counts.push_back(c.r.below(3));
            t.add([&, op] {
                for (int i = 0; i < n; ++i)
                {
                    auto& x = s[size_t(i)];
                    // once the outer source has finished and the previous inner one has
                    // completed, the next one must have been subscribed
                    if (!x.wait(0, [&] { return outer_done.load() || m->ended(); }))
                    {
                        if (!x.subscribed())
                        {
                            lost = !m->ended() || m->log().back().kind == 'c';
                            return;
                        }
                    }
                    x.play(*x.sub(0), counts[size_t(i)], i == err_at ? 'e' : 'c', op);
                    if (i == err_at)
                        return;
                }
            });
            t.run();
            outer.reset();
            m->check_grammar(c.desc);
            if (lost)
                failp("P03", "lost-source:concat", "a pushed observable is never subscribed although the previous one completed: " + m->str());
            else
            {
                check_merge_like(c, *m, ptrs(s), err_at >= 0 ? 'e' : 'c');
                int last = -1;
                for (auto& e : m->log())
                    if (e.kind == 'n')
                    {
                        if (e.val / BASE < last)
                            failp("P03", "mixed:concat", "items of different inner sources are mixed: " + m->str());
                        last = e.val / BASE;
                    }
            }
            for (auto& x : s)
                if (x.nsubs > 1)
                    failp("P03", "subscribed-twice:concat", "an inner source is subscribed more than once");
            c.observe(ptrs(s), {m});
        }

        // switch_on_next: every inner source has its own thread
        void sc_switch(Ctx& c)
        {
            const int       n = c.r.range(2, 4);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto                                        m = mon("switch_on_next", c.pause_mon);
            std::shared_ptr<rpp::dynamic_observer<Obs>> outer;
            auto                                        src = rpp::source::create<Obs>([&](auto&& o) { outer = std::make_shared<rpp::dynamic_observer<Obs>>(std::forward<decltype(o)>(o).as_dynamic()); });
            attach(src | rpp::ops::switch_on_next(), m);
            Threads           t;
            const int         op = c.pause_src;
            std::vector<Call> sw(size_t(n), Call{'n', 0, ~0ull, ~0ull});
            const bool        err = c.r.chance(1, 8);
            uint64_t          outer_end = ~0ull;
            t.add([&, op] {
                for (int i = 0; i < n; ++i)
                {
                    sw[size_t(i)].b = tick();
                    outer->on_next(s[size_t(i)].observable().as_dynamic());
                    sw[size_t(i)].e = tick();
                    vi::pause(op + 1);
                }
                outer_end = tick();
                outer->on_completed();
            });
            std::vector<char> terms;
            for (int i = 0; i < n; ++i)
            {
                terms.push_back(err && c.r.chance(1, 2) ? 'e' : 'c');
                player(c, t, s[size_t(i)], c.r.range(0, 5), terms.back(), m);
            }
            t.run();
            outer.reset();
            m->check_grammar(c.desc);
            const auto l = m->log();
            // per source: contiguous from the first one (it is current as soon as it is subscribed)
            std::map<int, int> next;
            int                last = -1;
            for (auto& e : l)
            {
                if (e.kind != 'n')
                    continue;
                const int k = e.val / BASE, q = e.val % BASE;
                if (k < 0 || k >= n)
                {
                    failp("P03", "invented:switch_on_next", m->str());
                    break;
                }
                if (q != next[k]++)
                    failp("P03", "lost-or-reordered:switch_on_next", vh::fmt("items of inner source %d are not contiguous: %s", k, m->str().c_str()));
                if (k < last)
                    failp("P03", "stale:switch_on_next", "item of an abandoned inner source after one of its successor: " + m->str());
#ifndef VH_TSAN
                // (an emission already in progress when the switch happens may still get through)
                for (auto& q2 : s[size_t(k)].calls)
                    if (q2.kind == 'n' && q2.val == e.val && k + 1 < n && sw[size_t(k) + 1].e < q2.b)
                        failp("P03", "stale:switch_on_next", "item emitted by an abandoned inner source after the switch returned: " + m->str());
#endif
                last = std::max(last, k);
            }
            const bool errored = !l.empty() && l.back().kind == 'e';
#ifndef VH_TSAN
            if (!errored)
                for (int k = 0; k < n; ++k)
                {
                    // items accepted completely before the next switch began must be there
                    int must = 0;
                    for (auto& q : s[size_t(k)].calls)
                        must += q.kind == 'n' && (k + 1 == n || q.e < sw[size_t(k) + 1].b);
                    if (next[k] < must)
                        failp("P03", "lost:switch_on_next", vh::fmt("inner source %d: %d items accepted while current, %d delivered: %s", k, must, next[k], m->str().c_str()));
                }
#endif
            if (!errored && (l.empty() || l.back().kind != 'c'))
            {
                // the last inner source completed (or failed, which must be told) and so did the outer one
                failp("P03", "no-completion:switch_on_next", "outer and last inner source have ended but the subscriber was not told: " + m->str());
            }
            if (errored && !err)
                failp("P03", "invented-error:switch_on_next", m->str());
            if (terms.back() == 'e' && !errored && l.size() && l.back().kind == 'c')
                failp("P03", "error-lost:switch_on_next", "the last inner source failed but the subscriber got a completion: " + m->str());
            c.observe(ptrs(s), {m});
        }

        // take_until: main and notifier on their own threads
        void sc_take_until(Ctx& c)
        {
            Src  a{0}, b{1};
            auto m = mon("take_until", c.pause_mon);
            attach(a.observable() | rpp::ops::take_until(b.observable()), m);
            Threads    t;
            const int  kind = c.r.below(4); // what the notifier does: item, completion, error, nothing
            const char term = pick_term(c.r, 1, 5);
            player(c, t, a, c.r.range(1, 8), term, m, c.r.below(2));
            player(c, t, b, kind == 0 ? 1 : 0, kind == 1 ? 'c' : kind == 2 ? 'e' : '-', m, c.r.below(3));
            t.run();
            m->check_grammar(c.desc);
            const auto l   = m->log();
            uint64_t   cut = ~0ull, cut_e = ~0ull;
            for (auto& q : b.calls)
            {
                cut   = q.b;
                cut_e = q.e;
            }
            check_merge_like(c, *m, {&a}, '?', cut);
            (void)cut_e;
#ifndef VH_TSAN
            for (auto& e : l)
                if (e.kind == 'n' && e.b > cut_e)
                    failp("P03", "late:take_until", "item delivered after the notifier's call returned: " + m->str());
#endif
            if (l.empty() || l.back().kind == 'n')
                failp("P03", "no-end:take_until", "a source ended but the subscriber was not told: " + m->str());
            c.observe({&a, &b}, {m});
        }

        // retry_when / retry / on_error_resume_next with endings and notifiers on different threads
        void sc_retry_when(Ctx& c)
        {
            Src       a{0}, nt{1};
            auto      m     = mon("retry_when", c.pause_mon);
            const int tries = c.r.range(1, 3);
            attach(a.observable() | rpp::ops::retry_when([&nt](const std::exception_ptr&) { return nt.observable(); }), m);
            Threads   t;
            const int op = c.pause_src;
            int       seq = 0;
            const int per = c.r.below(3);
            t.add([&, op] {
                for (int k = 0; k <= tries; ++k)
                {
                    if (!a.wait(k, [&] { return m->ended(); }))
                        return;
                    auto o = a.sub(k);
                    for (int i = 0; i < per; ++i)
                    {
                        a.next(*o, seq++);
                        vi::pause(op);
                    }
                    if (k < tries)
                        o->on_error(mkerr(500));
                    else
                        a.complete(*o);
                }
            });
            const bool twice = c.r.chance(1, 2);
            t.add([&, op, twice] {
                for (int k = 0; k < tries; ++k)
                {
                    if (!nt.wait(k, [&] { return m->ended(); }))
                        return;
                    auto o = nt.sub(k);
                    vi::pause(op);
                    o->on_next(Val{1});
                    if (twice) // ignored: the notifier has been abandoned
                        o->on_next(Val{2});
                    o->on_completed();
                }
            });
            t.run();
            m->check_grammar(c.desc);
            check_merge_like(c, *m, {&a}, 'c');
            if (a.nsubs != tries + 1)
                failp("P03", "resubscriptions:retry_when", vh::fmt("%d failures, %d subscriptions", tries, a.nsubs.load()));
            if (a.max_live->load() > 1)
                failp("P03", "attempts-overlap:retry_when", "two attempts were subscribed at the same time");
            c.observe({&a}, {m});
        }

        // source::concat / start_with / retry / repeat chains where each part runs on another thread
        void sc_sequence(Ctx& c)
        {
            const int       n = c.r.range(2, 4);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto m = mon("concat_source", c.pause_mon);
            Obs  o = s[0].observable().as_dynamic();
            const int form = c.r.below(3);
            if (form == 0)
            {
                std::vector<Obs> v;
                for (auto& x : s)
                    v.push_back(x.observable().as_dynamic());
                o = rpp::source::concat(v).as_dynamic();
            }
            else if (form == 1)
            {
                for (int i = n - 2; i >= 0; --i)
                {
                    if (i == n - 2)
                        o = (s[size_t(n) - 1].observable() | rpp::ops::start_with(s[size_t(i)].observable())).as_dynamic();
                    else
                        o = (o | rpp::ops::start_with(s[size_t(i)].observable())).as_dynamic();
                }
            }
            else
            {
                std::vector<Obs> v;
                for (auto& x : s)
                    v.push_back(x.observable().as_dynamic());
                o = (rpp::source::from_iterable(v, rpp::schedulers::immediate{}) | rpp::ops::concat()).as_dynamic();
            }
            attach(o, m);
            Threads t;
            for (auto& x : s)
                player(c, t, x, c.r.below(4), 'c', m);
            t.run();
            m->check_grammar(c.desc);
            check_merge_like(c, *m, ptrs(s), 'c');
            int last = -1;
            for (auto& e : m->log())
                if (e.kind == 'n')
                {
                    if (e.val / BASE < last)
                        failp("P03", "mixed:concat_source", m->str());
                    last = e.val / BASE;
                }
            c.observe(ptrs(s), {m});
        }

        // one thread disposes while the others emit
        void sc_dispose_race(Ctx& c)
        {
            const int       n = 3;
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto      m    = mon("dispose_race", c.pause_mon);
            const int form = c.r.below(6);
            c.desc += vh::fmt(" form=%d", form);
            Obs o = s[0].observable().as_dynamic();
            switch (form)
            {
            case 0: o = (s[0].observable() | rpp::ops::merge_with(s[1].observable(), s[2].observable())).as_dynamic(); break;
            case 1: o = (s[0].observable() | rpp::ops::combine_latest([](const Val& a, const Val&, const Val&) { return a; }, s[1].observable(), s[2].observable())).as_dynamic(); break;
            case 2: o = (s[0].observable() | rpp::ops::zip([](const Val& a, const Val&, const Val&) { return a; }, s[1].observable(), s[2].observable())).as_dynamic(); break;
            case 3: o = (s[0].observable() | rpp::ops::with_latest_from([](const Val& a, const Val&, const Val&) { return a; }, s[1].observable(), s[2].observable())).as_dynamic(); break;
            case 4: o = (s[0].observable() | rpp::ops::merge_with(s[1].observable()) | rpp::ops::take_until(s[2].observable())).as_dynamic(); break;
            case 5: o = (s[0].observable() | rpp::ops::merge_with(s[1].observable(), s[2].observable()) | rpp::ops::take(size_t(c.r.range(1, 4)))).as_dynamic(); break;
            }
            auto    d = attach(o, m);
            Threads t;
            for (auto& x : s)
                if (!(form == 4 && x.id == 2))
                    player(c, t, x, c.r.range(1, 5), c.r.chance(1, 3) ? 'c' : '-', m);
            const int dl = c.r.below(4);
            uint64_t  disposed_at = ~0ull;
            t.add([&, dl] {
                for (int i = 0; i < dl; ++i)
                    vi::pause(2);
                d.dispose();
                disposed_at = tick();
            });
            t.run();
            m->check_grammar(c.desc);
            // after dispose returned every upstream is released
            for (auto& x : s)
                if (x.live->load(ORD) != 0)
                    failp("P07", "upstream-kept", "an upstream is still subscribed after dispose returned in " + c.desc);
            c.observe(ptrs(s), {m});
        }
    } // namespace
    std::vector<Entry> scenarios_a()
    {
        return {{"merge_with", sc_merge_with, "P02 P03", 2}, {"merge", sc_merge, "P02 P03", 2}, {"concat", sc_concat, "P02 P03", 2}, {"switch", sc_switch, "P02 P03", 2}, {"take_until", sc_take_until, "P02 P03", 2}, {"retry_when", sc_retry_when, "P02 P03", 1}, {"sequence", sc_sequence, "P02 P03", 1}, {"dispose_race", sc_dispose_race, "P02 P07", 2}};
    }
} // namespace cc
