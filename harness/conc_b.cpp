// Combining operators and window_toggle under threads.
#include "conc.hpp"

namespace cc
{
    namespace
    {
        void player(Ctx& c, Threads& t, Src& s, int n, char term, const MonP& m)
        {
            const int p = c.pause_src;
            t.add([&s, n, term, m, p] {
                if (!s.wait(0, [&] { return m->ended(); }))
                    return;
                s.play(*s.sub(0), n, term, p);
            });
        }
        constexpr int W = 64;
        Val           enc(const Val& a, const Val& b, const Val& c) { return Val{((a.get() % BASE) * W + b.get() % BASE) * W + c.get() % BASE}; }
        struct Tup
        {
            int v[3];
        };
        Tup dec(int x) { return {{x / W / W, x / W % W, x % W}}; }
        std::string show(const Mon& m)
        {
            std::string s;
            for (auto& e : m.log())
                if (e.kind == 'n')
                {
                    const auto t = dec(e.val);
                    s += vh::fmt("(%d,%d,%d) ", t.v[0], t.v[1], t.v[2]);
                }
                else
                    s += e.kind;
            return s;
        }

        Obs combine(std::deque<Src>& s, int n, int op)
        {
            const auto sel3 = [](const Val& a, const Val& b, const Val& c) { return enc(a, b, c); };
            const auto sel2 = [](const Val& a, const Val& b) { return enc(a, b, Val{0}); };
            switch (op * 2 + (n == 3))
            {
            case 0: return (s[0].observable() | rpp::ops::combine_latest(sel2, s[1].observable())).as_dynamic();
            case 1: return (s[0].observable() | rpp::ops::combine_latest(sel3, s[1].observable(), s[2].observable())).as_dynamic();
            case 2: return (s[0].observable() | rpp::ops::zip(sel2, s[1].observable())).as_dynamic();
            case 3: return (s[0].observable() | rpp::ops::zip(sel3, s[1].observable(), s[2].observable())).as_dynamic();
            case 4: return (s[0].observable() | rpp::ops::with_latest_from(sel2, s[1].observable())).as_dynamic();
            default: return (s[0].observable() | rpp::ops::with_latest_from(sel3, s[1].observable(), s[2].observable())).as_dynamic();
            }
        }
        // how many of a source's items had certainly been accepted before / possibly begun by a ticket
        int ended_before(const Src& s, uint64_t t)
        {
            int k = 0;
            for (auto& c : s.calls)
                k += c.kind == 'n' && c.e < t;
            return k;
        }
        int begun_before(const Src& s, uint64_t t)
        {
            int k = 0;
            for (auto& c : s.calls)
                k += c.kind == 'n' && c.b < t;
            return k;
        }

        void sc_combine_latest(Ctx& c)
        {
            const int       n = c.r.range(2, 3);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto m = mon("combine_latest", c.pause_mon);
            attach(combine(s, n, 0), m);
            Threads          t;
            std::vector<int> cnt;
            bool             err = false;
            for (int i = 0; i < n; ++i)
            {
                cnt.push_back(c.r.chance(1, 8) ? 0 : c.r.range(1, 6));
                const char term = pick_term(c.r, 1, 10);
                err |= term == 'e';
                player(c, t, s[size_t(i)], cnt.back(), term, m);
            }
            t.run();
            m->check_grammar(c.desc);
            const auto l = m->log();
            Tup        prev{};
            bool       first = true;
            for (auto& e : l)
            {
                if (e.kind != 'n')
                    continue;
                const auto x = dec(e.val);
                if (!first)
                {
                    int steps = 0;
                    for (int k = 0; k < 3; ++k)
                    {
                        if (x.v[k] < prev.v[k] || x.v[k] > prev.v[k] + 1)
                            steps = 99;
                        steps += x.v[k] - prev.v[k];
                    }
                    if (steps != 1)
                    {
                        failp("P03", "wrong-step:combine_latest", "consecutive tuples must differ by one new item of one source: " + show(*m));
                        break;
                    }
                }
                first = false;
                prev  = x;
            }
            for (int k = 0; k < n; ++k)
                if (!first && prev.v[k] >= s[size_t(k)].accepted())
                    failp("P03", "invented:combine_latest", show(*m));
            if (!err)
            {
                bool all = true;
                for (int k = 0; k < n; ++k)
                    all &= cnt[size_t(k)] > 0;
                if (all && first)
                    failp("P03", "lost:combine_latest", "every source emitted but there is no tuple");
                if (!all && !first)
                    failp("P03", "invented:combine_latest", "tuple although a source is empty: " + show(*m));
                if (all && !first)
                    for (int k = 0; k < n; ++k)
                        if (prev.v[k] != cnt[size_t(k)] - 1)
                            failp("P03", "lost:combine_latest", "the last tuple does not hold the last items: " + show(*m));
                if (l.empty() || l.back().kind != 'c')
                    failp("P03", "no-completion:combine_latest", show(*m));
            }
            else if (l.empty() || l.back().kind == 'n')
                failp("P03", "no-end:combine_latest", show(*m));
#ifndef VH_TSAN
            // the first tuple may not be late: when every source had an item, it exists
            if (!first)
            {
                uint64_t at = ~0ull;
                Tup      f{};
                for (auto& e : l)
                    if (e.kind == 'n')
                    {
                        at = e.b;
                        f  = dec(e.val);
                        break;
                    }
                for (int k = 0; k < n; ++k)
                    if (f.v[k] + 1 > begun_before(s[size_t(k)], at))
                        failp("P03", "invented:combine_latest", show(*m));
                // items accepted after all sources had one give a tuple each
                uint64_t ready = 0;
                for (int k = 0; k < n; ++k)
                    for (auto& q : s[size_t(k)].calls)
                        if (q.kind == 'n')
                        {
                            ready = std::max(ready, q.e);
                            break;
                        }
                for (int k = 0; k < n && !err; ++k)
                    if (f.v[k] > begun_before(s[size_t(k)], ready))
                        failp("P03", "lost:combine_latest", "the first tuples are missing: " + show(*m));
            }
#endif
            std::vector<const Src*> p;
            for (auto& x : s)
                p.push_back(&x);
            c.observe(p, {m});
        }

        void sc_zip(Ctx& c)
        {
            const int       n = c.r.range(2, 3);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto m = mon("zip", c.pause_mon);
            attach(combine(s, n, 1), m);
            Threads t;
            int     mn  = 1000;
            bool    err = false;
            for (int i = 0; i < n; ++i)
            {
                const int k = c.r.range(0, 6);
                mn          = std::min(mn, k);
                const char term = pick_term(c.r, 1, 10);
                err |= term == 'e';
                player(c, t, s[size_t(i)], k, term, m);
            }
            t.run();
            m->check_grammar(c.desc);
            const auto l = m->log();
            int        k = 0;
            for (auto& e : l)
                if (e.kind == 'n')
                {
                    const auto x = dec(e.val);
                    if (x.v[0] != k || x.v[1] != k || (n == 3 && x.v[2] != k))
                    {
                        failp("P03", "mispaired:zip", "items must be paired by position: " + show(*m));
                        break;
                    }
                    ++k;
                }
            if (k > mn)
                failp("P03", "invented:zip", show(*m));
            if (!err && k != mn)
                failp("P03", "lost:zip", vh::fmt("%d pairs due, %d delivered: ", mn, k) + show(*m));
            if (!err && (l.empty() || l.back().kind != 'c'))
                failp("P03", "no-completion:zip", show(*m));
            if (err && (l.empty() || l.back().kind == 'n'))
                failp("P03", "no-end:zip", show(*m));
            std::vector<const Src*> p;
            for (auto& x : s)
                p.push_back(&x);
            c.observe(p, {m});
        }

        void sc_with_latest(Ctx& c)
        {
            const int       n = c.r.range(2, 3);
            std::deque<Src> s;
            for (int i = 0; i < n; ++i)
                s.emplace_back(i);
            auto m = mon("with_latest_from", c.pause_mon);
            attach(combine(s, n, 2), m);
            Threads t;
            bool    err = false;
            for (int i = 0; i < n; ++i)
            {
                const char term = pick_term(c.r, 1, 10);
                err |= term == 'e';
                player(c, t, s[size_t(i)], c.r.range(1, 7), term, m);
            }
            t.run();
            m->check_grammar(c.desc);
            const auto l = m->log();
            Tup        prev{{-1, 0, 0}};
            std::set<int> seen;
            for (auto& e : l)
                if (e.kind == 'n')
                {
                    const auto x = dec(e.val);
                    if (x.v[0] <= prev.v[0] || x.v[1] < prev.v[1] || x.v[2] < prev.v[2])
                    {
                        failp("P03", "reordered:with_latest_from", show(*m));
                        break;
                    }
                    seen.insert(x.v[0]);
#ifndef VH_TSAN
                    const auto& q = s[0].calls[size_t(x.v[0])];
                    for (int k = 1; k < n; ++k)
                    {
                        if (x.v[k] + 1 < ended_before(s[size_t(k)], q.b))
                            failp("P03", "stale:with_latest_from", "a newer item had been accepted before: " + show(*m));
                        if (x.v[k] + 1 > begun_before(s[size_t(k)], q.e))
                            failp("P03", "invented:with_latest_from", show(*m));
                    }
#endif
                    prev = x;
                }
#ifndef VH_TSAN
            if (!err)
                for (auto& q : s[0].calls)
                    if (q.kind == 'n')
                    {
                        bool due = true;
                        for (int k = 1; k < n; ++k)
                            due &= ended_before(s[size_t(k)], q.b) > 0;
                        if (due && !seen.count(q.val % BASE))
                            failp("P03", "lost:with_latest_from", vh::fmt("item %d lost: ", q.val) + show(*m));
                    }
#endif
            if (l.empty() || l.back().kind == 'n')
                failp("P03", "no-end:with_latest_from", show(*m));
            if (!err && l.size() && l.back().kind == 'e')
                failp("P03", "invented-error:with_latest_from", show(*m));
            std::vector<const Src*> p;
            for (auto& x : s)
                p.push_back(&x);
            c.observe(p, {m});
        }

        // window_toggle with source, openings and closings on their own threads
        void sc_window_toggle(Ctx& c)
        {
            Src       a{0}, op{1};
            const int nw = c.r.range(1, 3);
            std::deque<Src> closings;
            for (int i = 0; i < nw; ++i)
                closings.emplace_back(2 + i);
            auto                       outer = mon("window_toggle", c.pause_mon);
            std::vector<MonP>          inner;
            std::vector<uint64_t>      announced(size_t(nw), ~0ull);
            for (int i = 0; i < nw; ++i)
                inner.push_back(mon("window", c.pause_mon));
            std::atomic<int> idx{0};
            {
                auto o = a.observable() | rpp::ops::window_toggle(op.observable(), [&closings](const Val& v) { return closings[size_t(v.get() % BASE)].observable(); });
                o.subscribe(
                    [outer, inner, &idx, &announced](const auto& w) {
                        const auto i = outer->enter('n', idx);
                        const int  k = idx.fetch_add(1, ORD);
                        if (size_t(k) < inner.size())
                        {
                            attach(w, inner[size_t(k)]);
                            announced[size_t(k)] = tick();
                        }
                        outer->leave(i, 'n');
                    },
                    [outer](const std::exception_ptr& e) { outer->on('e', code_of(e)); },
                    [outer]() { outer->on('c', 0); });
            }
            Threads    t;
            const char term = pick_term(c.r, 1, 6);
            player(c, t, a, c.r.range(1, 10), term, outer);
            player(c, t, op, nw, c.r.chance(1, 8) ? 'e' : 'c', outer);
            std::vector<int> ck;
            for (int i = 0; i < nw; ++i)
            {
                ck.push_back(c.r.below(8)); // 0 error, 1 completion, 2 never, others: item
                auto&     s = closings[size_t(i)];
                const int k = ck.back();
                t.add([&s, k, outer, p = c.pause_src] {
                    if (!s.wait(0, [&] { return outer->ended(); }))
                        return;
                    if (k == 2)
                        return;
                    vi::pause(p + 1);
                    s.play(*s.sub(0), k > 2 ? 1 : 0, k == 1 ? 'c' : k == 0 ? 'e' : '-', p);
                });
            }
            t.run();
            outer->check_grammar(c.desc);
            const auto lo     = outer->log();
            const bool errors = !lo.empty() && lo.back().kind == 'e';
            for (int i = 0; i < nw; ++i)
            {
                auto& m = *inner[size_t(i)];
                m.check_grammar(c.desc);
                const auto l    = m.log();
                int        last = -1;
                std::set<int> got;
                for (auto& e : l)
                    if (e.kind == 'n')
                    {
                        const int q = e.val % BASE;
                        if (last >= 0 && q != last + 1)
                            failp("P03", "lost-or-reordered:window_toggle", "items of a window are not contiguous: " + m.str());
                        last = q;
                        got.insert(q);
                    }
                if (i >= idx.load())
                    continue;
#ifndef VH_TSAN
                // open from the announcement until the closing's call begins
                uint64_t close_b = ~0ull, close_e = ~0ull;
                for (auto& q : closings[size_t(i)].calls)
                {
                    close_b = std::min(close_b, q.b);
                    close_e = std::min(close_e, q.e);
                }
                uint64_t open_e = ~0ull, open_b = ~0ull;
                for (auto& q : op.calls)
                    if (q.kind == 'n' && q.val % BASE == i)
                    {
                        open_b = q.b;
                        open_e = q.e;
                    }
                if (!errors)
                    for (auto& q : a.calls)
                        if (q.kind == 'n')
                        {
                            const bool must = q.b > open_e && q.e < close_b;
                            const bool may  = q.e > open_b && q.b < close_e;
                            if (must && !got.count(q.val % BASE))
                                failp("P03", "lost:window_toggle", vh::fmt("item %d is missing in open window %d: ", q.val, i) + m.str());
                            if (!may && got.count(q.val % BASE))
                                failp("P03", "late:window_toggle", vh::fmt("item %d is in closed window %d: ", q.val, i) + m.str());
                        }
#endif
                // everything has ended: so has the window
                if (!errors && ck[size_t(i)] != 2 && (l.empty() || l.back().kind != 'c') && outer->ended())
                    failp("P03", "no-completion:window_toggle", "a window has not been completed: " + m.str());
            }
            if (!outer->ended())
                failp("P03", "no-end:window_toggle", "the source ended but the subscriber was not told");
            std::vector<MonP> ms{outer};
            ms.insert(ms.end(), inner.begin(), inner.end());
            c.observe({&a, &op}, ms);
        }
    } // namespace
    std::vector<Entry> scenarios_b()
    {
        return {{"combine_latest", sc_combine_latest, "P02 P03", 1}, {"zip", sc_zip, "P02 P03", 1}, {"with_latest_from", sc_with_latest, "P02 P03", 1}, {"window_toggle", sc_window_toggle, "P02 P03", 2}};
    }
} // namespace cc
