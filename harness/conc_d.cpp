// Subjects, connectable and ref-counted observables under threads.
#include "conc.hpp"

namespace cc
{
    namespace
    {
        constexpr int INIT = -5; // initial value of behavior subjects

        struct Member // a subscriber that joins and maybe leaves
        {
            MonP     m{};
            uint64_t sub_b{0}, sub_e{0}, dis_b{~0ull}, dis_e{~0ull};
            bool     leaves{false};
            std::string str() const
            {
                return vh::fmt("[%s sub %llu-%llu dis %lld-%lld: ", m->name.c_str(), (unsigned long long)sub_b, (unsigned long long)sub_e, (long long)dis_b, (long long)dis_e) + m->str() + "]";
            }
        };

        template<typename Observable>
        void join(Threads& t, Ctx& c, Member& me, const Observable& o, bool at_start)
        {
            const int  d1 = at_start ? 0 : c.r.below(5), d2 = c.r.below(4), st = 1 + c.r.below(3);
            const bool leaves = me.leaves;
            me.m              = mon("subject-member", c.pause_mon);
            auto body         = [&me, o, d1, d2, st, leaves] {
                for (int i = 0; i < d1; ++i)
                    vi::pause(st);
                me.sub_b = tick();
                auto d   = attach(o, me.m);
                me.sub_e = tick();
                if (!leaves)
                    return;
                for (int i = 0; i < d2; ++i)
                    vi::pause(st);
                me.dis_b = tick();
                d.dispose();
                me.dis_e = tick();
            };
            if (at_start)
            {
                // subscribed before anything is emitted, leaves concurrently
                me.sub_b  = tick();
                auto d    = attach(o, me.m);
                me.sub_e  = tick();
                if (leaves)
                    t.add([&me, d, d2, st] {
                        for (int i = 0; i < d2 * 2; ++i)
                            vi::pause(st);
                        me.dis_b = tick();
                        d.dispose();
                        me.dis_e = tick();
                    });
            }
            else
                t.add(body);
        }

        // kind: p(ublish) b(ehavior) r(eplay); bound of the replay (0: none retained, -1: everything)
        template<typename Subj>
        void subject_case(Ctx& c, Subj subj, char kind, long bound, bool serialized)
        {
            c.desc += vh::fmt(" kind=%c bound=%ld", kind, bound);
            const int        producers = serialized ? c.r.range(1, 3) : 1;
            const int        members   = c.r.range(1, 4);
            std::deque<Src>  s;
            for (int i = 0; i < producers; ++i)
                s.emplace_back(i);
            std::deque<Member> all;
            Threads            t;
            // the reference: subscribed from before the start to the end
            all.emplace_back();
            join(t, c, all[0], subj.get_observable(), true);
            for (int i = 0; i < members; ++i)
            {
                auto& me  = all.emplace_back();
                me.leaves = c.r.chance(2, 3);
                // plain behavior and replay subjects are documented as not synchronised
                const bool start = (!serialized && kind != 'p') || c.r.chance(1, 4);
                join(t, c, me, subj.get_observable(), start);
            }
            const int  ender = c.r.chance(2, 3) ? c.r.below(producers) : -1;
            const char term  = c.r.chance(1, 3) ? 'e' : 'c';
            auto       dobs  = std::make_shared<Dobs>(subj.get_observer().as_dynamic());
            for (int i = 0; i < producers; ++i)
            {
                const int  n  = c.r.range(1, 7);
                const char tt = i == ender ? term : '-';
                const int  p  = c.pause_src;
                t.add([&s, i, n, tt, p, dobs] { s[size_t(i)].play(*dobs, n, tt, p); });
            }
            t.run();
            const auto ctx = [&] {
                std::string x = c.desc + ":";
                for (auto& m : all)
                    x += " " + m.str();
                return x;
            };
            for (auto& me : all)
                me.m->check_grammar(c.desc);

            // the total order, from the reference
            std::vector<Ev> L = all[0].m->log();
            size_t          n0 = 0;
            if (kind == 'b')
            {
                if (L.empty() || L[0].kind != 'n' || L[0].val != INIT)
                    return failp("P12", "behavior-initial", "first value is not the current one in " + ctx());
                n0 = 1;
            }
            uint64_t term_b = ~0ull;
            for (auto& x : s)
                for (auto& k : x.calls)
                    if (k.kind != 'n')
                        term_b = k.b;
            std::map<int, int>  next;
            std::map<int, Call> call_of;
            for (auto& x : s)
                for (auto& k : x.calls)
                    if (k.kind == 'n')
                        call_of[k.val] = k;
            std::vector<int> order;
            char             fin = 0;
            for (size_t i = n0; i < L.size(); ++i)
            {
                if (L[i].kind != 'n')
                {
                    fin = L[i].kind;
                    continue;
                }
                const int q = L[i].val % BASE, src = L[i].val / BASE;
                if (!call_of.count(L[i].val))
                    return failp("P12", "invented", "value was never emitted in " + ctx());
                if (q != next[src]++)
                    return failp("P12", "producer-order", "items of one producer are lost, repeated or reordered for a subscriber present throughout in " + ctx());
                order.push_back(L[i].val);
            }
#ifndef VH_TSAN
            for (auto& [v, k] : call_of)
                if (k.e < term_b && std::find(order.begin(), order.end(), v) == order.end())
                    return failp("P12", "lost", vh::fmt("item %d, accepted before the end, never reached a subscriber present throughout in ", v) + ctx());
#endif
            if (ender >= 0 ? fin != term : fin != 0)
                return failp("P12", "terminal", "the terminal event is wrong for a subscriber present throughout in " + ctx());

            // everybody else: a contiguous part of that order
            std::vector<int> full = order;
            if (kind == 'b')
                full.insert(full.begin(), INIT);
            for (size_t w = 1; w < all.size(); ++w)
            {
                const auto& me  = all[w];
                const auto  l   = me.m->log();
                std::vector<int> got;
                char             end = 0;
                for (auto& e : l)
                    if (e.kind == 'n')
                        got.push_back(e.val);
                    else
                        end = e.kind;
#ifdef VH_TSAN
                continue;
#endif
                if (end && end != fin)
                    failp("P12", "terminal", "a subscriber got a terminal event that was not emitted in " + ctx());
                if (!me.leaves && ender >= 0 && !end)
                    failp("P12", "no-terminal", "a subscriber that stayed was not told about the end in " + ctx());
                // subsequence in the common order
                size_t pos = 0, first = full.size(), last = 0;
                bool   contiguous = true;
                for (size_t i = 0; i < got.size(); ++i)
                {
                    size_t p = pos;
                    while (p < full.size() && full[p] != got[i])
                        ++p;
                    if (p == full.size())
                    {
                        const bool elsewhere = std::find(full.begin(), full.end(), got[i]) != full.end();
                        return failp("P12", elsewhere ? "order-differs" : "invented", elsewhere ? "two subscribers saw different orders (or a repeated item) in " + ctx() : "a value nobody else saw in " + ctx());
                    }
                    if (i == 0)
                        first = p;
                    else if (p != pos)
                        contiguous = false;
                    last = p;
                    pos  = p + 1;
                }
                // with several producers on a publish subject an item in flight during
                // the subscription may miss the newcomer although a later one does not
                if (!contiguous && !(kind == 'p' && producers > 1))
                    return failp("P12", "gap", "a subscriber missed an item in the middle in " + ctx());
                for (auto& [v, k] : call_of)
                {
                    const auto it = std::find(full.begin(), full.end(), v);
                    if (it == full.end())
                        continue;
                    const bool has = std::find(got.begin(), got.end(), v) != got.end();
                    if (k.b > me.sub_e && k.e < me.dis_b && k.e < term_b && !has)
                        return failp("P12", "missed", vh::fmt("item %d was emitted while subscribed but not delivered in ", v) + ctx());
                    if (k.b > me.dis_e && has)
                        return failp("P12", "after-dispose", vh::fmt("item %d was emitted after the subscription was disposed in ", v) + ctx());
                    if (kind == 'p' && k.e < me.sub_b && has)
                        return failp("P12", "too-early", vh::fmt("item %d was emitted before the subscription in ", v) + ctx());
                }
                // retained history of a newcomer: nothing lost within the bound, nothing beyond it
                if (kind != 'p' && !(kind == 'b' && got.empty()))
                {
                    long done = 0, begun = 0; // entries certainly / possibly before the subscription
                    for (int v : order)
                    {
                        done += call_of[v].e < me.sub_b;
                        begun += call_of[v].b < me.sub_e;
                    }
                    const long shift = kind == 'b' ? 1 : 0;
                    const long lo    = bound < 0 ? 0 : std::max(0l, done + shift - bound);
                    const long hi    = bound < 0 ? 0 : std::max(0l, begun + shift - bound);
                    if (!got.empty() && (long(first) < lo || long(first) > hi))
                        return failp("P12", "retained", vh::fmt("a newcomer's run starts at entry %ld, expected %ld..%ld in ", long(first), lo, hi) + ctx());
                    if (got.empty() && me.dis_b == ~0ull && hi < long(full.size()))
                        return failp("P12", "retained", "a newcomer got nothing of the retained history in " + ctx());
                }
                (void)last;
            }
            std::vector<const Src*> ps;
            for (auto& x : s)
                ps.push_back(&x);
            std::vector<MonP> ms;
            for (auto& m : all)
                ms.push_back(m.m);
            c.observe(ps, ms);
        }

        void sc_subject_serialized(Ctx& c)
        {
            switch (c.r.below(4))
            {
            case 0: return subject_case(c, rpp::subjects::serialized_publish_subject<Val>{}, 'p', 0, true);
            case 1: return subject_case(c, rpp::subjects::serialized_behavior_subject<Val>{Val{INIT}}, 'b', 1, true);
            case 2: {
                const int k = c.r.range(1, 4);
                return subject_case(c, rpp::subjects::serialized_replay_subject<Val>{size_t(k)}, 'r', k, true);
            }
            default: return subject_case(c, rpp::subjects::serialized_replay_subject<Val>{}, 'r', -1, true);
            }
        }
        void sc_subject_plain(Ctx& c)
        {
            switch (c.r.below(4))
            {
            case 0:
            case 1: return subject_case(c, rpp::subjects::publish_subject<Val>{}, 'p', 0, false);
            case 2: return subject_case(c, rpp::subjects::behavior_subject<Val>{Val{INIT}}, 'b', 1, false);
            default: return subject_case(c, rpp::subjects::replay_subject<Val>{}, 'r', -1, false);
            }
        }

        // ref_count: observers come and go on several threads; when all calm down the
        // upstream is subscribed exactly once if anybody is left and not at all otherwise
        void sc_ref_count(Ctx& c)
        {
            const int  threads = c.r.range(2, 4);
            const int  form    = c.r.below(3);
            Src        s{0};
            Obs        shared = (form == 0   ? (s.observable() | rpp::ops::publish() | rpp::ops::ref_count()).as_dynamic()
                                 : form == 1 ? (s.observable() | rpp::ops::multicast(rpp::subjects::serialized_publish_subject<Val>{}) | rpp::ops::ref_count()).as_dynamic()
                                             : (s.observable() | rpp::ops::publish()).ref_count().as_dynamic());
            c.desc += vh::fmt(" form=%d", form);
            struct Slot
            {
                std::vector<std::pair<MonP, rpp::disposable_wrapper>> kept{};
            };
            std::deque<Slot> slots(static_cast<size_t>(threads));
            Threads          t;
            for (int i = 0; i < threads; ++i)
            {
                const int      rounds = c.r.range(1, 4);
                const uint64_t bits   = c.r.next();
                auto&          slot   = slots[size_t(i)];
                const int      pm     = c.pause_mon;
                t.add([rounds, bits, &slot, shared, pm] {
                    uint64_t b = bits;
                    for (int k = 0; k < rounds; ++k)
                    {
                        auto m = mon("ref_count", pm);
                        auto d = attach(shared, m);
                        for (uint64_t q = 0; q < (b & 3); ++q)
                            vi::pause(1);
                        b >>= 2;
                        if (b & 3)
                            d.dispose();
                        else
                            slot.kept.emplace_back(m, d);
                        b >>= 2;
                        if (b & 1)
                            vi::pause(1);
                        b >>= 1;
                    }
                });
            }
            t.run();
            size_t            left = 0;
            std::vector<MonP> ms;
            for (auto& x : slots)
            {
                left += x.kept.size();
                for (auto& k : x.kept)
                    ms.push_back(k.first);
            }
            const int live = s.live->load(ORD);
            vh::events(1 + long(left));
            if (live != (left ? 1 : 0))
                failp("P13", left ? (live ? "upstream-duplicated" : "upstream-missing") : "upstream-kept", vh::fmt("%zu subscribers are left and the upstream has %d subscriptions in ", left, live) + c.desc);
            if (left && live == 1)
            {
                // whichever subscription is alive feeds everyone left, exactly once
                const int total = s.nsubs.load();
                for (int i = 0; i < total; ++i)
                    s.next(*s.sub(i), i);
                for (auto& m : ms)
                    if (m->size() != 1)
                        failp("P13", "not-fed", vh::fmt("a remaining subscriber received %zu items instead of 1 in ", m->size()) + c.desc);
            }
            vh::sig(vh::mix(vh::mix(left, uint64_t(s.nsubs.load())), uint64_t(s.max_live->load(ORD)) + 31u * unsigned(threads) + 1000u * unsigned(form)));
            for (auto& x : slots)
                for (auto& k : x.kept)
                    k.second.dispose();
            if (s.live->load(ORD) != 0)
                failp("P13", "upstream-kept", "everybody left but the upstream is still subscribed in " + c.desc);
            s.drop();
            c.observe({&s}, ms);
        }

        // connect from several threads subscribes the source once
        void sc_connect(Ctx& c)
        {
            const int threads = c.r.range(2, 4);
            Src       s{0};
            auto      conn = s.observable() | rpp::ops::publish();
            Threads   t;
            std::vector<MonP>                    ms(static_cast<size_t>(threads));
            std::vector<rpp::disposable_wrapper> ds(static_cast<size_t>(threads), rpp::disposable_wrapper::empty());
            for (int i = 0; i < threads; ++i)
            {
                const bool subscribes = c.r.chance(1, 2);
                const int  pz         = c.r.below(3);
                t.add([&, i, subscribes, pz] {
                    for (int k = 0; k < pz; ++k)
                        vi::pause(1);
                    if (subscribes)
                    {
                        ms[size_t(i)] = mon("connect", 0);
                        attach(conn, ms[size_t(i)]);
                    }
                    ds[size_t(i)] = conn.connect();
                });
            }
            t.run();
            vh::events(threads);
            if (s.nsubs.load() != 1)
                failp("P13", "connected-again", vh::fmt("%d upstream subscriptions for one connection in ", s.nsubs.load()) + c.desc);
            else
                s.next(*s.sub(0), 0);
            for (auto& m : ms)
                if (m && m->size() != 1)
                    failp("P13", "not-fed", "a subscriber of the connection was not fed in " + c.desc);
            for (auto& d : ds)
                if (d.is_disposed())
                    failp("P13", "connection-handle", "connect returned a dead handle in " + c.desc);
            Threads t2;
            for (int i = 0; i < threads; ++i)
                t2.add([&, i] { ds[size_t(i)].dispose(); });
            t2.run();
            if (s.live->load(ORD) != 0)
                failp("P13", "upstream-kept", "the connection was disposed but the upstream is still subscribed in " + c.desc);
            std::vector<MonP> real;
            for (auto& m : ms)
                if (m)
                    real.push_back(m);
            s.drop();
            c.observe({&s}, real);
        }
    } // namespace
    std::vector<Entry> scenarios_d()
    {
        return {{"subject_serialized", sc_subject_serialized, "P12 P02", 3}, {"subject_plain", sc_subject_plain, "P12 P02", 2}, {"ref_count", sc_ref_count, "P13", 2}, {"connect", sc_connect, "P13", 1}};
    }
} // namespace cc
