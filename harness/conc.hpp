// Infrastructure of the concurrent harness: hot sources driven by threads, a
// subscriber monitor, and logs ordered by one global ticket counter.
#pragma once
#include "val.hpp"
#include "vh.hpp"
#include "vh_inject.hpp"

#include <rpp/rpp.hpp>

#include <algorithm>
#include <deque>
#include <map>
#include <optional>
#include <set>

#if defined(__has_feature)
    #if __has_feature(thread_sanitizer)
        #define VH_TSAN 1
    #endif
#endif

namespace cc
{
#ifdef VH_TSAN
    // no happens-before edges from the monitor: they would hide races
    inline constexpr auto ORD = std::memory_order_relaxed;
#else
    inline constexpr auto ORD = std::memory_order_seq_cst;
#endif
    inline std::atomic<uint64_t> g_ticket{1};
    inline uint64_t              tick() { return g_ticket.fetch_add(1, ORD); }

    using Obs  = rpp::dynamic_observable<Val>;
    using Dobs = rpp::dynamic_observer<Val>;

    inline int code_of(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const VErr& x)
        {
            return x.code;
        }
        catch (const rpp::utils::timeout_reached&)
        {
            return -3;
        }
        catch (...)
        {
            return -99;
        }
    }
    inline std::exception_ptr mkerr(int code) { return std::make_exception_ptr(VErr{code}); }

    // reports only for the property the run decides (mode "P20" observes everything
    // through the race detector instead)
    inline void failp(const char* prop, const std::string& key, const std::string& msg)
    {
        const auto& m = vh::G().opt.mode;
        if (m == prop || m == "all")
            vh::fail(key, msg);
    }

    constexpr int BASE = 1000; // value = source * BASE + sequence number

    struct Call
    {
        char     kind; // n e c s(ubscribe) d(ispose)
        int      val;
        uint64_t b, e;
    };

    struct Ev
    {
        char            kind; // n e c
        int             val;
        uint64_t        b, e;
        std::thread::id th;
    };

    // One subscriber. Its callbacks must never overlap.
    struct Mon
    {
        static constexpr int CAP = 4096;
        std::string          name;
        int                  pause{0};
        std::atomic<int>     inside{0};
        std::atomic<bool>    overlap{false};
        std::atomic<int>     terminal{0};
        std::atomic<long>    n_seen{0};
#ifdef VH_TSAN
        std::vector<Ev> evs{}; // deliberately unsynchronised: the callbacks must be ordered
#else
        std::vector<Ev>  evs = std::vector<Ev>(CAP);
        std::atomic<int> n{0};
#endif
        explicit Mon(std::string nm, int p = 0)
            : name{std::move(nm)}
            , pause{p}
        {
        }
        size_t enter(char k, int v)
        {
#ifdef VH_TSAN
            evs.push_back({k, v, 0, 0, std::this_thread::get_id()});
            if (pause)
                vi::pause(pause);
            return 0;
#else
            if (inside.fetch_add(1) != 0)
                overlap = true;
            const int i = n.fetch_add(1);
            if (i < CAP)
                evs[size_t(i)] = {k, v, tick(), 0, std::this_thread::get_id()};
            if (pause)
                vi::pause(pause);
            return size_t(i);
#endif
        }
        void leave(size_t i, char k)
        {
#ifndef VH_TSAN
            if (i < size_t(CAP))
                evs[i].e = tick();
            if (inside.fetch_sub(1) != 1)
                overlap = true;
#else
            (void)i;
#endif
            n_seen.fetch_add(1, std::memory_order_relaxed);
            if (k != 'n')
                terminal.fetch_add(1, std::memory_order_release);
        }
        void on(char k, int v)
        {
            const auto i = enter(k, v);
            leave(i, k);
        }
        size_t size() const
        {
#ifdef VH_TSAN
            return evs.size();
#else
            return size_t(std::min<int>(n.load(), CAP));
#endif
        }
        bool ended() const { return terminal.load(std::memory_order_acquire) > 0; }

        std::vector<Ev> log() const { return {evs.begin(), evs.begin() + long(size())}; }
        std::string     str() const
        {
            std::string s;
            for (auto& e : log())
            {
                s += e.kind == 'n' ? vh::fmt("%d ", e.val) : e.kind == 'e' ? vh::fmt("#%d ", e.val) : std::string("| ");
                if (s.size() > 1500)
                    break;
            }
            return s;
        }
        // P02: one at a time, one terminal, nothing after it
        void check_grammar(const std::string& ctx)
        {
            vh::events(long(size()));
            if (overlap)
                failp("P02", "overlap:" + name, "callbacks of one subscriber ran at the same time in " + ctx + ": " + str());
            const auto l     = log();
            bool       ended = false;
            for (auto& e : l)
            {
                if (ended)
                {
                    failp("P02", "after-terminal:" + name, "callback after the terminal event in " + ctx + ": " + str());
                    break;
                }
                ended = e.kind != 'n';
            }
        }
    };
    using MonP = std::shared_ptr<Mon>;
    inline MonP mon(std::string n, int pause = 0) { return std::make_shared<Mon>(std::move(n), pause); }

    template<typename O>
    rpp::disposable_wrapper attach(const O& o, MonP m)
    {
        return o.subscribe_with_disposable([m](const auto& v) { m->on('n', v.get()); }, [m](const std::exception_ptr& e) { m->on('e', code_of(e)); }, [m]() { m->on('c', 0); });
    }

    // A hot source used by one thread (per subscription).
    struct Src
    {
        int                                      id;
        std::vector<Call>                        calls{}; // of the emitting thread
        std::vector<std::shared_ptr<Dobs>>       subs{};  // one per subscription, in order
        std::mutex                               m{};
        std::atomic<int>                         nsubs{0};
        std::shared_ptr<std::atomic<int>>        live = std::make_shared<std::atomic<int>>(0);
        std::shared_ptr<std::atomic<int>>        max_live = std::make_shared<std::atomic<int>>(0);
        uint64_t                                 sub_b{0};

        explicit Src(int i)
            : id{i}
        {
            subs.reserve(16);
        }
        auto observable()
        {
            return rpp::source::create<Val>([this](auto&& o) { add(std::forward<decltype(o)>(o)); });
        }
        template<typename O>
        void add(O&& o)
        {
            const int now = live->fetch_add(1, ORD) + 1;
            int       mx  = max_live->load(ORD);
            while (mx < now && !max_live->compare_exchange_weak(mx, now, ORD))
            {
            }
            auto done = std::make_shared<std::atomic<bool>>(false);
            o.set_upstream(rpp::disposable_wrapper{rpp::make_callback_disposable([l = live, done]() noexcept {
                if (!done->exchange(true, ORD))
                    l->fetch_sub(1, ORD);
            })});
            auto p = std::make_shared<Dobs>(std::forward<O>(o).as_dynamic());
            {
                std::lock_guard l{m};
                subs.push_back(std::move(p));
            }
            nsubs.fetch_add(1, std::memory_order_release);
        }
        std::shared_ptr<Dobs> sub(int i)
        {
            std::lock_guard l{m};
            return subs.at(size_t(i));
        }
        void drop()
        {
            std::vector<std::shared_ptr<Dobs>> t;
            {
                std::lock_guard l{m};
                t.swap(subs);
            }
        }
        bool subscribed(int i = 0) const { return nsubs.load(std::memory_order_acquire) > i; }
        // waits for a subscription, gives up when stop() says so
        template<typename Stop>
        bool wait(int i, Stop&& stop) const
        {
            while (!subscribed(i))
            {
                if (stop())
                    return subscribed(i);
                vi::relax();
            }
            return true;
        }
        bool wait(int i = 0) const
        {
            return wait(i, [] { return false; });
        }
        void next(const Dobs& o, int seq)
        {
            Call c{'n', id * BASE + seq, tick(), 0};
            if (seq & 1)
            {
                const Val v{c.val};
                o.on_next(v);
            }
            else
                o.on_next(Val{c.val});
            c.e = tick();
            calls.push_back(c);
        }
        void error(const Dobs& o, int code)
        {
            Call c{'e', code, tick(), 0};
            o.on_error(mkerr(code));
            c.e = tick();
            calls.push_back(c);
        }
        void complete(const Dobs& o)
        {
            Call c{'c', 0, tick(), 0};
            o.on_completed();
            c.e = tick();
            calls.push_back(c);
        }
        // 0..n-1 then a terminal: 'c', 'e' or '-' (none)
        void play(const Dobs& o, int n, char term, int pause, int from = 0)
        {
            for (int i = from; i < from + n; ++i)
            {
                next(o, i);
                if (pause)
                    vi::pause(pause);
            }
            if (term == 'c')
                complete(o);
            else if (term == 'e')
                error(o, 500 + id);
        }
        int accepted() const
        {
            int k = 0;
            for (auto& c : calls)
                k += c.kind == 'n';
            return k;
        }
    };

    struct Threads
    {
        std::vector<std::function<void()>> fns{};
        void                               add(std::function<void()> f) { fns.push_back(std::move(f)); }
        // runs all to the end, started together
        void run()
        {
            std::atomic<int>         left{int(fns.size())};
            std::vector<std::thread> ts;
            for (size_t i = 0; i < fns.size(); ++i)
                ts.emplace_back([&, i] {
                    vi::role(i + 1);
                    vi::start_barrier(left);
                    fns[i]();
                });
            for (auto& t : ts)
                t.join();
        }
    };

    // waits until cond() holds; the hang watchdog bounds it
    template<typename F>
    void wait_for(F&& cond)
    {
        while (!cond())
            vi::relax();
    }

    struct Ctx
    {
        vh::Rng&    r;
        long        index;
        std::string desc{};
        int         pause_src{0}, pause_mon{0};
        uint64_t    sig{0};

        explicit Ctx(vh::Rng& rng, long i)
            : r{rng}
            , index{i}
        {
            pause_src = r.chance(1, 2) ? 0 : r.range(1, 3);
            pause_mon = r.chance(1, 2) ? 0 : r.range(1, 3);
        }
        // signature of what was observed: order of begin/end of all calls and callbacks
        void observe(const std::vector<const Src*>& srcs, const std::vector<MonP>& mons)
        {
            struct It
            {
                uint64_t t;
                int      code;
            };
            std::vector<It> its;
            for (auto* s : srcs)
                for (auto& c : s->calls)
                {
                    its.push_back({c.b, s->id * 4 + 1});
                    its.push_back({c.e, s->id * 4 + 2});
                }
            for (size_t i = 0; i < mons.size(); ++i)
                for (auto& e : mons[i]->log())
                    its.push_back({e.b, 1000 + int(i) * 16 + (e.kind == 'n' ? 1 : e.kind == 'e' ? 2 : 3)});
            std::stable_sort(its.begin(), its.end(), [](const It& a, const It& b) { return a.t < b.t; });
            uint64_t h = 7;
            for (char c : desc)
                h = vh::mix(h, uint64_t(c));
            for (auto& i : its)
                h = vh::mix(h, uint64_t(i.code));
            if (its.size() > 2)
                vh::sig(h);
            vh::events(long(its.size()));
            if (!mons.empty())
                vh::sample(desc + " => " + mons[0]->str());
        }
    };

    using Scenario = void (*)(Ctx&);
    struct Entry
    {
        const char* name;
        Scenario    fn;
        const char* props; // which checks run it
        int         weight;
    };
    std::vector<Entry> scenarios_a();
    std::vector<Entry> scenarios_b();
    std::vector<Entry> scenarios_c();
    std::vector<Entry> scenarios_d();
    std::vector<Entry> scenarios_e();
    std::vector<Entry> scenarios_f();
    std::vector<Entry> scenarios_g();

    // ------------------------------------------------------------------ oracles
    // Merge-like delivery: every source's items arrive in order, without gaps from
    // its first one, all of them if nothing failed, and all of those accepted before
    // the first failing call began otherwise.
    inline void check_merge_like(Ctx& c, const Mon& m, const std::vector<const Src*>& srcs, char expect, uint64_t cut_b = ~0ull)
    {
        std::map<int, int> next;
        std::set<int>      known;
        for (auto* s : srcs)
            known.insert(s->id);
        const auto l = m.log();
        for (auto& e : l)
        {
            if (e.kind != 'n')
                continue;
            const int s = e.val / BASE, q = e.val % BASE;
            if (!known.count(s) || e.val < 0)
                return failp("P03", "invented:" + m.name, vh::fmt("value %d was never emitted, in %s: %s", e.val, c.desc.c_str(), m.str().c_str()));
            if (q != next[s])
                return failp("P03", (q < next[s] ? "duplicated:" : "lost-or-reordered:") + m.name, vh::fmt("source %d: expected item %d, got %d, in %s: %s", s, next[s], q, c.desc.c_str(), m.str().c_str()));
            ++next[s];
        }
        uint64_t      first_err = cut_b;
        std::set<int> codes;
        for (auto* s : srcs)
            for (auto& k : s->calls)
                if (k.kind == 'e')
                {
                    first_err = std::min(first_err, k.b);
                    codes.insert(k.val);
                }
        for (auto* s : srcs)
        {
            int must = 0, may = 0;
            for (auto& k : s->calls)
                if (k.kind == 'n')
                {
                    ++may;
                    must += k.e < first_err;
                }
            if (next[s->id] > may)
                failp("P03", "invented:" + m.name, "more items than emitted in " + c.desc + ": " + m.str());
#ifndef VH_TSAN
            if (next[s->id] < must)
                failp("P03", "lost:" + m.name, vh::fmt("source %d: %d items accepted before any failure, %d delivered, in %s: %s", s->id, must, next[s->id], c.desc.c_str(), m.str().c_str()));
#endif
        }
        if (expect == 'c' && (l.empty() || l.back().kind != 'c'))
            failp("P03", "no-completion:" + m.name, "every source completed but the subscriber was not told, in " + c.desc + ": " + m.str());
        if (expect == 'e' && (l.empty() || l.back().kind != 'e' || !codes.count(l.back().val)))
            failp("P03", "no-error:" + m.name, "a source failed but the subscriber was not told, in " + c.desc + ": " + m.str());
        if (expect == '-' && !l.empty() && l.back().kind != 'n')
            failp("P03", "early-end:" + m.name, "terminal event without cause in " + c.desc + ": " + m.str());
    }
    inline char pick_term(vh::Rng& r, int err_num, int err_den) { return r.chance(err_num, err_den) ? 'e' : 'c'; }
} // namespace cc
