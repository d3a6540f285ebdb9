// Histories on subjects (P11), connectable observables (P13) and disposables (P14),
// with re-entrant operations, against reference models. Single-threaded, virtual clock.
#include "val.hpp"
#include "vclock.hpp"
#include "vh.hpp"

#include <rpp/rpp.hpp>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <sstream>

namespace
{
    using Dobs = rpp::dynamic_observer<Val>;
    using Obs  = rpp::dynamic_observable<Val>;

    bool is(const char* p) { return vh::G().opt.mode == p || vh::G().opt.mode == "all"; }
    void failp(const char* p, const std::string& k, const std::string& m)
    {
        if (is(p))
            vh::fail(k, m);
    }

    // ------------------------------------------------------------ subjects
    struct Op
    {
        char kind; // n emit, c complete, e error, s subscribe(spec a), u unsubscribe(#a), x throw, t advance clock, D dispose subject
                   // k connect, K disconnect, N source emits, C source completes, E source fails
        int a{0};
    };
    struct Reaction
    {
        int             at; // index among the observer's callbacks
        std::vector<Op> ops;
    };
    struct Spec
    {
        std::vector<Reaction> reactions;
    };
    struct Script
    {
        char              kind{'p'}; // p b r
        bool              serialized{false};
        long              bound{-1};
        long              age{-1}; // ms, -1: none
        int               form{0};
        std::vector<Spec> specs;
        std::vector<Op>   ops;
        // connectable: what a new upstream subscription emits by itself
        std::vector<std::string> prefixes;

        std::string str() const
        {
            std::ostringstream o;
            o << "kind=" << kind << (serialized ? "/serialized" : "") << " bound=" << bound << " age=" << age << " form=" << form << " ops:";
            auto put = [&](const std::vector<Op>& v) {
                for (auto& x : v)
                    o << ' ' << x.kind << x.a;
            };
            put(ops);
            for (size_t i = 0; i < specs.size(); ++i)
                for (auto& r : specs[i].reactions)
                {
                    o << " | spec" << i << "@" << r.at << ":";
                    put(r.ops);
                }
            for (auto& p : prefixes)
                o << " prefix=" << p;
            return o.str();
        }
    };

    struct Log
    {
        std::vector<std::string> v;
        void                     add(const std::string& s)
        {
            if (v.size() < 5000)
                v.push_back(s);
        }
        std::string str() const
        {
            std::string s;
            for (auto& x : v)
                s += x + " ";
            return s;
        }
    };

    constexpr int VINIT = -9;

    // What the reference and the real execution share: interpretation of scripts.
    struct World
    {
        const Script& sc;
        Log           log{};
        int           created{0};
        int           depth{0};
        bool          disposed_subject{false};
        explicit World(const Script& s)
            : sc{s}
        {
        }
        virtual ~World()                      = default;
        virtual void emit(int v)              = 0;
        virtual void end(char k, int code)    = 0; // c e
        virtual void subscribe(int id, int spec) = 0;
        virtual void unsubscribe(int id)      = 0;
        virtual void advance(int ms)          = 0;
        virtual void dispose_subject()        = 0;
        virtual void connect() {}
        virtual void disconnect() {}
        virtual void source(char, int) {}

        void run(const Op& op)
        {
            switch (op.kind)
            {
            case 'n': emit(op.a); break;
            case 'c':
            case 'e': end(op.kind, op.a); break;
            case 's':
                if (created < 40)
                {
                    const int id = created++;
                    subscribe(id, op.a);
                }
                break;
            case 'u':
                if (created)
                    unsubscribe(op.a % created);
                break;
            case 't': advance(op.a); break;
            case 'D': dispose_subject(); break;
            case 'k': connect(); break;
            case 'K': disconnect(); break;
            case 'N': source('n', op.a); break;
            case 'C': source('c', 0); break;
            case 'E': source('e', op.a); break;
            default: break;
            }
        }
        // returns true if the callback throws. initial: during the replay of retained values
        bool react(int spec, int index, char kind, bool initial)
        {
            bool th = false;
            for (auto& r : sc.specs[size_t(spec)].reactions)
            {
                if (r.at != index)
                    continue;
                for (auto& op : r.ops)
                {
                    if (op.kind == 'x')
                    {
                        th = kind == 'n';
                        continue;
                    }
                    // emitting from a terminal callback, or while retained values are
                    // replayed, is outside of what the subjects specify
                    const bool emits = strchr("nNkD", op.kind) != nullptr;
                    const bool ends  = strchr("ceCE", op.kind) != nullptr;
                    if ((initial && emits) || (kind != 'n' && (emits || ends || op.kind == 'K' || (op.kind == 's' && sc.kind == 'b'))))
                        continue;
                    ++depth;
                    run(op);
                    --depth;
                }
            }
            return th;
        }
    };

    // ------------------------------------------------------------ model
    struct Model : World
    {
        struct O
        {
            int  spec{};
            int  seen{0};
            bool alive{true};
            bool listed{false};
            int  ref{-1}; // ref-count generation it holds
            bool catching{false}; // (serialized) obtains the history, everything else is postponed
            std::vector<std::pair<char, int>> postponed{};
        };
        std::map<int, O>                     os{};
        std::vector<int>                     list{};
        char                                 term{0};
        int                                  code{0};
        int                                  cur{VINIT};
        std::deque<std::pair<int, int64_t>>  kept{};
        int64_t                              now{0};
        // connectable
        struct Up
        {
            bool alive{true};
        };
        std::vector<Up> ups{};
        int             conn{-1};
        bool            refc{false};
        int             gen{-1};
        std::map<int, int> refs{};   // generation -> references
        std::map<int, int> gen_up{}; // generation -> upstream

        using World::World;

        void die(int id)
        {
            auto& o = os[id];
            if (!o.alive)
                return;
            o.alive = false;
            list.erase(std::remove(list.begin(), list.end(), id), list.end());
            if (o.ref >= 0)
                release(o.ref);
        }
        void release(int g)
        {
            if (--refs[g] == 0)
            {
                if (gen == g)
                    gen = -1;
                if (gen_up.count(g))
                    kill_up(gen_up[g]);
            }
        }
        void kill_up(int u)
        {
            ups[size_t(u)].alive = false;
            if (conn == u)
                conn = -1;
        }
        void deliver(int id, char k, int v, bool initial = false)
        {
            auto& o = os[id];
            if (!o.alive)
                return;
            if (o.catching && !initial)
            {
                o.postponed.emplace_back(k, v);
                return;
            }
            log.add(std::to_string(id) + k + (k == 'c' ? "" : std::to_string(v)));
            const bool th = react(o.spec, o.seen++, k, initial);
            if (k != 'n')
                die(id);
            else if (th)
                deliver(id, 'e', 900 + id, initial);
        }
        void emit(int v) override
        {
            if (term)
                return;
            if (sc.kind == 'b')
                cur = v;
            if (sc.kind == 'r')
                kept.emplace_back(v, now);
            const auto snap = list;
            for (int id : snap)
                deliver(id, 'n', v);
        }
        void end(char k, int c) override
        {
            if (term)
                return;
            term            = k;
            code            = c;
            const auto snap = list;
            list.clear();
            for (int id : snap)
                deliver(id, k, c);
        }
        std::vector<int> retained()
        {
            std::vector<int> r;
            for (auto& [v, t] : kept)
                if (sc.age < 0 || now - t <= sc.age)
                    r.push_back(v);
            if (sc.bound >= 0 && long(r.size()) > sc.bound)
                r.erase(r.begin(), r.end() - sc.bound);
            return r;
        }
        void subscribe(int id, int spec) override
        {
            os[id].spec = spec;
            if (refc)
            {
                bool fresh = gen < 0;
                if (fresh)
                {
                    gen       = int(refs.size());
                    refs[gen] = 0;
                }
                const int g = gen;
                ++refs[g];
                os[id].ref = g;
                subscribe_subject(id);
                if (fresh && refs[g] > 0)
                    do_connect(g);
                return;
            }
            subscribe_subject(id);
        }
        void subscribe_subject(int id)
        {
            // a serialized subject counts a newcomer from the beginning of its history
            const bool early = sc.serialized && sc.kind != 'p' && !term;
            if (early)
            {
                list.push_back(id);
                os[id].catching = true;
            }
            if (sc.kind == 'b' && !term)
                deliver(id, 'n', cur, true);
            if (sc.kind == 'r')
                for (int v : retained())
                    deliver(id, 'n', v, true);
            if (!os[id].alive)
                return;
            if (early)
            {
                os[id].catching = false;
                for (auto& [k, v] : std::exchange(os[id].postponed, {}))
                    deliver(id, k, v);
            }
            else if (!term)
                list.push_back(id);
            else if (term != 'D')
                deliver(id, term, code);
        }
        void unsubscribe(int id) override { die(id); }
        void advance(int ms) override { now += ms; }
        void dispose_subject() override
        {
            if (!term)
                term = 'D';
            list.clear();
            disposed_subject = true;
        }
        void connect() override
        {
            if (!refc)
                do_connect(-1);
        }
        void do_connect(int g)
        {
            if (term || conn >= 0)
                return;
            const int u = int(ups.size());
            ups.push_back({});
            conn = u;
            if (g >= 0)
                gen_up[g] = u;
            log.add("U+" + std::to_string(u));
            if (size_t(u) < sc.prefixes.size())
            {
                int q = 0;
                for (char ch : sc.prefixes[size_t(u)])
                    from_up(u, ch, 500 + 10 * u + q++);
            }
        }
        void from_up(int u, char ch, int v)
        {
            if (!ups[size_t(u)].alive)
                return;
            if (ch == 'n')
                emit(v);
            else
            {
                end(ch, v);
                kill_up(u);
            }
        }
        void disconnect() override
        {
            if (!refc && conn >= 0)
                kill_up(conn);
        }
        void source(char k, int v) override
        {
            // a hot source: it feeds whichever subscription is alive
            const auto n = ups.size();
            for (size_t u = 0; u < n; ++u)
                from_up(int(u), k, v);
        }
        int live() const
        {
            int n = 0;
            for (auto& u : ups)
                n += u.alive;
            return n;
        }
    };

    // ------------------------------------------------------------ real
    struct Real : World
    {
        std::map<int, rpp::composite_disposable_wrapper> ds{};
        std::map<int, std::pair<int, int>>               st{}; // spec, seen
        std::map<int, bool>                              initial{};
        std::function<void(int)>                         do_emit{};
        std::function<void(char, int)>                   do_end{};
        std::function<void(int)>                         do_sub{};
        std::function<void()>                            do_dispose{};
        std::function<int()>                             get_value{};
        std::function<void()>                            do_connect{};
        std::function<void()>                            do_disconnect{};
        struct Up
        {
            std::shared_ptr<Dobs> o{};
            bool                  alive{true};
            int                   released{0};
        };
        std::deque<Up> ups{};

        using World::World;

        void event(int id, char k, int v)
        {
            log.add(std::to_string(id) + k + (k == 'c' ? "" : std::to_string(v)));
            auto&      s  = st[id];
            const bool in = initial[id];
            if (react(s.first, s.second++, k, in))
                throw VErr{900 + id};
        }
        template<typename O>
        void sub_to(int id, const O& o)
        {
            initial[id] = true;
            o.subscribe(
                ds[id],
                [this, id, t = Tok{}](const Val& v) {
                    t.touch();
                    event(id, 'n', v.get());
                },
                [this, id, t = Tok{}](const std::exception_ptr& e) {
                    t.touch();
                    int c = -99;
                    try
                    {
                        std::rethrow_exception(e);
                    }
                    catch (const VErr& x)
                    {
                        c = x.code;
                    }
                    catch (...)
                    {
                    }
                    event(id, 'e', c);
                },
                [this, id, t = Tok{}]() {
                    t.touch();
                    event(id, 'c', 0);
                });
            initial[id] = false;
        }
        void emit(int v) override { do_emit(v); }
        void end(char k, int c) override { do_end(k, c); }
        void subscribe(int id, int spec) override
        {
            st[id] = {spec, 0};
            ds[id] = rpp::composite_disposable_wrapper::make();
            do_sub(id);
        }
        void unsubscribe(int id) override { ds[id].dispose(); }
        void advance(int ms) override { vclock::now_ns += int64_t(ms) * 1'000'000; }
        void dispose_subject() override
        {
            disposed_subject = true;
            do_dispose();
        }
        void connect() override
        {
            if (do_connect)
                do_connect();
        }
        void disconnect() override
        {
            if (do_disconnect)
                do_disconnect();
        }
        void source(char k, int v) override
        {
            const auto n = ups.size();
            for (size_t u = 0; u < n; ++u)
                from_up(u, k, v);
        }
        void from_up(size_t u, char k, int v)
        {
            if (!ups[u].alive)
                return;
            auto o = ups[u].o; // may be dropped by the reaction
            if (k == 'n')
                o->on_next(Val{v});
            else if (k == 'c')
                o->on_completed();
            else
                o->on_error(std::make_exception_ptr(VErr{v}));
        }
        auto make_source()
        {
            return rpp::source::create<Val>([this](auto&& o) {
                const size_t u = ups.size();
                ups.emplace_back();
                log.add("U+" + std::to_string(u));
                for (auto& i : initial) // whoever is being subscribed by ref_count is in the subject now
                    i.second = false;
                o.set_upstream(rpp::make_callback_disposable([this, u]() noexcept {
                    ups[u].alive = false;
                    ++ups[u].released;
                }));
                ups[u].o = std::make_shared<Dobs>(std::forward<decltype(o)>(o).as_dynamic());
                if (u < sc.prefixes.size())
                {
                    int q = 0;
                    for (char ch : sc.prefixes[u])
                        from_up(u, ch, 500 + 10 * int(u) + q++);
                }
            });
        }
        int live() const
        {
            int n = 0;
            for (auto& u : ups)
                n += u.alive;
            return n;
        }
    };

    // ------------------------------------------------------------ generators
    std::vector<Op> gen_ops(vh::Rng& r, Script& s, int n, int level, bool reaction, bool conn);
    int             gen_spec(vh::Rng& r, Script& s, int level, bool conn)
    {
        const int id = int(s.specs.size());
        s.specs.emplace_back();
        if (level < 3 && r.chance(1, 2))
        {
            const int k = r.range(1, 2);
            for (int i = 0; i < k; ++i)
            {
                Reaction x{r.below(4), {}};
                x.ops = gen_ops(r, s, r.range(1, 2), level + 1, true, conn);
                s.specs[size_t(id)].reactions.push_back(std::move(x));
            }
        }
        return id;
    }
    std::vector<Op> gen_ops(vh::Rng& r, Script& s, int n, int level, bool reaction, bool conn)
    {
        std::vector<Op> v;
        static int      val = 0;
        for (int i = 0; i < n; ++i)
        {
            const int w = r.below(100);
            if (conn)
            {
                if (w < 30)
                    v.push_back({'N', ++val % 400});
                else if (w < 55)
                    v.push_back({'s', gen_spec(r, s, level, conn)});
                else if (w < 72)
                    v.push_back({'u', r.below(100)});
                else if (w < 84)
                    v.push_back({'k', 0});
                else if (w < 90)
                    v.push_back({'K', 0});
                else if (w < 93)
                    v.push_back({'C', 0});
                else if (w < 96)
                    v.push_back({'E', 700 + r.below(9)});
                else if (reaction)
                    v.push_back({'x', 0});
                else
                    v.push_back({'N', ++val % 400});
                continue;
            }
            if (w < 45)
                v.push_back({'n', ++val % 400});
            else if (w < 67)
                v.push_back({'s', gen_spec(r, s, level, conn)});
            else if (w < 83)
                v.push_back({'u', r.below(100)});
            else if (w < 87)
                v.push_back({'c', 0});
            else if (w < 90)
                v.push_back({'e', 700 + r.below(9)});
            else if (w < 95)
            {
                if (reaction)
                    v.push_back({'x', 0});
                else
                    v.push_back({'n', ++val % 400});
            }
            else if (w < 99)
                v.push_back({'t', s.age >= 0 ? r.range(0, int(s.age) + 2) : 1});
            else
                v.push_back({'D', 0});
        }
        return v;
    }

    template<typename W>
    void drive(W& w, const std::function<void(size_t)>& after)
    {
        for (size_t i = 0; i < w.sc.ops.size(); ++i)
        {
            // a replay or behavior subject that was disposed says nothing about newcomers
            if (w.disposed_subject && w.sc.kind != 'p' && w.sc.ops[i].kind == 's')
                continue;
            w.run(w.sc.ops[i]);
            after(i);
        }
    }

    void compare(const char* prop, const Script& s, const Log& m, const Log& r, const std::string& what)
    {
        if (m.v == r.v)
            return;
        size_t i = 0;
        while (i < m.v.size() && i < r.v.size() && m.v[i] == r.v[i])
            ++i;
        failp(prop, std::string("history:") + s.kind + (s.serialized ? "s" : "") + (what.empty() ? "" : ":" + what), "first difference at event " + std::to_string(i) + ": expected " + (i < m.v.size() ? m.v[i] : "nothing") + ", got " + (i < r.v.size() ? r.v[i] : "nothing") + " || " + s.str() + " || expected " + m.str() + " || got " + r.str());
    }
    void observe(const Script& s, const Log& l)
    {
        uint64_t h = 1;
        for (char c : s.str())
            h = vh::mix(h, uint64_t(c));
        for (auto& e : l.v)
            for (char c : e)
                h = vh::mix(h, uint64_t(c));
        if (!l.v.empty())
            vh::sig(h);
        vh::events(long(l.v.size()));
        vh::sample(s.str() + " => " + l.str());
    }

    long base_values = 0; // values alive before the subject under test was made
    template<typename Subj>
    void run_subject(const Script& s, Subj subj)
    {
        const long tok0 = Tok::live.load(), val0 = base_values;
        Model      m{s};
        std::vector<size_t> active, logsz;
        drive(m, [&](size_t) {
            size_t n = 0;
            for (auto& [id, o] : m.os)
                n += o.alive;
            active.push_back(m.list.size());
            (void)n;
            logsz.push_back(m.log.v.size());
        });
        {
            Real r{s};
            {
                auto obs  = std::make_shared<Dobs>(subj->get_observer().as_dynamic());
                r.do_emit = [&](int v) {
                    if (v & 1)
                    {
                        const Val x{v};
                        obs->on_next(x);
                        if (x.get() != v)
                            failp("P22", "lvalue-changed", "a subject changed the caller's lvalue");
                    }
                    else
                        obs->on_next(Val{v});
                };
                r.do_end = [&](char k, int c) {
                    if (k == 'c')
                        obs->on_completed();
                    else
                        obs->on_error(std::make_exception_ptr(VErr{c}));
                };
                r.do_sub     = [&](int id) { r.sub_to(id, subj->get_observable()); };
                r.do_dispose = [&] { subj->get_disposable().dispose(); };
                size_t k     = 0;
                drive(r, [&](size_t i) {
                    if (r.log.v.size() != logsz[k] && m.log.v.size() > r.log.v.size())
                    {
                    }
                    const long toks = Tok::live.load() - tok0;
                    // 3 tokens per observer held by the subject; others must be gone
                    if (toks != long(active[k]) * 3 && std::equal(r.log.v.begin(), r.log.v.end(), m.log.v.begin(), m.log.v.begin() + long(std::min(r.log.v.size(), m.log.v.size()))))
                        failp("P08", "observer-retained", vh::fmt("after op %zu the subject holds %ld callback tokens, expected %zu (%zu observers) || ", i, toks, active[k] * 3, active[k]) + s.str());
                    ++k;
                });
                if constexpr (requires { subj->get_value(); })
                {
                    if (subj->get_value().get() != m.cur)
                        failp("P11", "get_value", vh::fmt("get_value is %d, expected %d || ", subj->get_value().get(), m.cur) + s.str());
                }
                compare("P11", s, m.log, r.log, "");
                observe(s, r.log);
            }
            subj.reset();
            r.ds.clear();
        }
        if (Tok::live.load() != tok0 || Val::live.load() != val0)
            failp("P08", "leak", vh::fmt("%ld callbacks and %ld values alive after everything was dropped || ", Tok::live.load() - tok0, Val::live.load() - val0) + s.str());
    }

    template<typename S>
    std::shared_ptr<S> make_behavior() { return std::make_shared<S>(Val{VINIT}); }

    void case_subject(vh::Rng& r)
    {
        base_values = Val::live.load();
        Script s;
        s.kind       = "pbr"[r.below(3)];
        s.serialized = r.chance(1, 3);
        s.form       = 0;
        if (s.kind == 'r' && r.chance(2, 3))
            s.bound = r.range(1, 4);
        if (s.kind == 'r' && s.bound > 0 && r.chance(1, 2))
            s.age = r.range(1, 6);
        s.ops = gen_ops(r, s, r.range(2, 16), 0, false, false);
        const auto ms = std::chrono::milliseconds(s.age);
        const auto sz = size_t(s.bound);
        namespace sj  = rpp::subjects;
        if (s.kind == 'p')
        {
            if (s.serialized)
                run_subject(s, std::make_shared<sj::serialized_publish_subject<Val>>());
            else
                run_subject(s, std::make_shared<sj::publish_subject<Val>>());
        }
        else if (s.kind == 'b')
        {
            if (s.serialized)
                run_subject(s, make_behavior<sj::serialized_behavior_subject<Val>>());
            else
                run_subject(s, make_behavior<sj::behavior_subject<Val>>());
        }
        else if (s.serialized)
            run_subject(s, s.bound < 0 ? std::make_shared<sj::serialized_replay_subject<Val>>() : s.age < 0 ? std::make_shared<sj::serialized_replay_subject<Val>>(sz)
                                                                                                             : std::make_shared<sj::serialized_replay_subject<Val>>(sz, ms));
        else
            run_subject(s, s.bound < 0 ? std::make_shared<sj::replay_subject<Val>>() : s.age < 0 ? std::make_shared<sj::replay_subject<Val>>(sz)
                                                                                                  : std::make_shared<sj::replay_subject<Val>>(sz, ms));
    }

    // ------------------------------------------------------------ connectable
    template<typename Make>
    void run_connectable(const Script& s, bool refc, Make&& make)
    {
        const long tok0 = Tok::live.load(), val0 = Val::live.load();
        Model      m{s};
        m.refc = refc;
        std::vector<std::pair<int, size_t>> expect; // live upstreams, total upstreams
        drive(m, [&](size_t) { expect.emplace_back(m.live(), m.ups.size()); });
        int released_twice = 0;
        {
            Real r{s};
            make(r);
            size_t k = 0;
            drive(r, [&](size_t i) {
                if (r.live() != expect[k].first)
                    failp("P13", "upstream-live", vh::fmt("after op %zu %d upstream subscriptions are alive, expected %d || ", i, r.live(), expect[k].first) + s.str() + " || got " + r.log.str());
                if (r.ups.size() != expect[k].second)
                    failp("P13", "upstream-count", vh::fmt("after op %zu %zu upstream subscriptions were made, expected %zu || ", i, r.ups.size(), expect[k].second) + s.str());
                ++k;
            });
            compare("P13", s, m.log, r.log, refc ? "ref_count" : "connect");
            observe(s, r.log);
            for (auto& u : r.ups)
            {
                released_twice += u.released > 1;
                if (u.released > 1)
                    failp("P08", "released-twice", "an upstream was told twice that it is not needed || " + s.str());
            }
            for (auto& [id, d] : r.ds)
                d.dispose();
            r.disconnect();
            if (r.live())
                failp("P13", "upstream-kept", "everybody left but the upstream is still subscribed || " + s.str());
            for (auto& u : r.ups)
                u.o.reset();
            r.do_sub = {};
            r.do_connect = {};
            r.do_disconnect = {};
            r.ds.clear();
        }
        if (Tok::live.load() != tok0 || Val::live.load() != val0)
            failp("P08", "leak", vh::fmt("connectable: %ld callbacks and %ld values alive after everything was dropped || ", Tok::live.load() - tok0, Val::live.load() - val0) + s.str());
    }
    void case_connectable(vh::Rng& r)
    {
        Script s;
        s.kind          = "ppbr"[r.below(4)];
        s.form          = r.below(6);
        const bool refc = r.chance(1, 2);
        if (s.kind == 'r')
            s.bound = -1;
        const int np = r.range(0, 3);
        for (int i = 0; i < np; ++i)
        {
            std::string p;
            for (int k = r.below(4); k > 0; --k)
                p += 'n';
            if (r.chance(1, 5))
                p += r.chance(1, 2) ? 'c' : 'e';
            s.prefixes.push_back(p);
        }
        s.ops = gen_ops(r, s, r.range(3, 18), 0, false, true);
        if (refc)
            s.form += 10;
        auto handle = [&](Real& w, auto conn) {
            if (refc)
            {
                std::shared_ptr<Obs> shared;
                if (s.form & 1)
                    shared = std::make_shared<Obs>((conn | rpp::ops::ref_count()).as_dynamic());
                else
                    shared = std::make_shared<Obs>(conn.ref_count().as_dynamic());
                w.do_sub = [&w, shared](int id) { w.sub_to(id, *shared); };
                return;
            }
            auto c       = std::make_shared<decltype(conn)>(std::move(conn));
            auto d       = std::make_shared<rpp::composite_disposable_wrapper>(rpp::composite_disposable_wrapper::empty());
            w.do_sub     = [&w, c](int id) { w.sub_to(id, *c); };
            w.do_connect = [c, d, &w] {
                if (!d->is_disposed())
                {
                    const auto again = c->connect(); // connected: must not subscribe again
                    if (w.live() && again.is_disposed())
                        failp("P13", "handle", "connect on a live connection returned a dead handle");
                    return;
                }
                auto mine = rpp::composite_disposable_wrapper::make();
                *d        = mine;
                c->connect(mine);
            };
            w.do_disconnect = [d] { d->dispose(); };
        };
        run_connectable(s, refc, [&](Real& w) {
            namespace sj = rpp::subjects;
            auto src     = w.make_source();
            switch (s.kind)
            {
            case 'p':
                if (s.form & 2)
                    return handle(w, src | rpp::ops::publish());
                return handle(w, src | rpp::ops::multicast(sj::publish_subject<Val>{}));
            case 'b': return handle(w, src | rpp::ops::multicast(sj::behavior_subject<Val>{Val{VINIT}}));
            default:
                if (s.form & 2)
                    return handle(w, src | rpp::ops::multicast<sj::replay_subject>());
                return handle(w, src | rpp::ops::multicast(sj::replay_subject<Val>{}));
            }
        });
    }

    // ------------------------------------------------------------ disposables
    struct DOp
    {
        char kind; // a(dd child b to a) r(emove b from a) c(lear a) d(ispose a) x(drop the handle of a)
        int  a, b;
        bool wa{false}, wb{false}; // through weak handles
    };
    struct DScript
    {
        std::vector<char>             kind;    // per node: c(allback) m(composite) s(tatic composite) r(efcount) f(reference taken from r)
        std::vector<int>              of;      // f: its refcount node
        std::vector<std::vector<DOp>> cleanup; // callback nodes: what they do
        std::vector<DOp>              ops;
        std::string                   str() const
        {
            std::ostringstream o;
            for (size_t i = 0; i < kind.size(); ++i)
            {
                o << i << ":" << kind[i];
                if (of[i] >= 0)
                    o << of[i];
                if (!cleanup[i].empty())
                {
                    o << "{";
                    for (auto& x : cleanup[i])
                        o << x.kind << (x.wa ? "w" : "") << x.a << "," << (x.wb ? "w" : "") << x.b << " ";
                    o << "}";
                }
                o << " ";
            }
            o << "ops:";
            for (auto& x : ops)
                o << " " << x.kind << (x.wa ? "w" : "") << x.a << "," << (x.wb ? "w" : "") << x.b;
            return o.str();
        }
    };
    struct DModel
    {
        const DScript&                s;
        std::vector<char>             disposed;
        std::vector<int>              runs;
        struct Kid
        {
            int  id;
            bool strong;
            bool operator==(int o) const { return id == o; }
        };
        std::vector<std::vector<Kid>> kids;
        std::vector<int>              refs;
        std::vector<char>             handle; // the user still has a strong one
        std::vector<std::vector<Kid>> clearing; // taken out by a clear, which has not returned
        std::vector<int>              pinned;   // calls in progress keep what they work on
        std::vector<int>              order;
        explicit DModel(const DScript& x)
            : s{x}
            , disposed(x.kind.size(), 0)
            , runs(x.kind.size(), 0)
            , kids(x.kind.size())
            , refs(x.kind.size(), 0)
            , handle(x.kind.size(), 1)
            , pinned(x.kind.size(), 0)
        {
            for (size_t i = 0; i < x.kind.size(); ++i)
                if (x.kind[i] == 'f')
                {
                    ++refs[size_t(x.of[i])];
                    kids[size_t(x.of[i])].push_back({int(i), false});
                }
        }
        // what nobody owns anymore is disposed by its destruction
        void released(int n)
        {
            const auto i = size_t(n);
            if (handle[i] || disposed[i] || pinned[i] || s.kind[i] == 'r') // references own their source
                return;
            for (auto* all : {&kids, &clearing})
                for (auto& k : *all)
                    for (auto& x : k)
                        if (x.id == n && x.strong)
                            return;
            dispose(n);
        }
        void dispose(int n)
        {
            const auto i = size_t(n);
            if (disposed[i])
                return;
            disposed[i] = 1;
            if (s.kind[i] == 'c')
            {
                ++runs[i];
                order.push_back(n);
                for (auto& o : s.cleanup[i])
                    run(o);
                return;
            }
            if (s.kind[i] == 'f')
            {
                const auto p = size_t(s.of[i]);
                if (!disposed[p])
                {
                    auto& k = kids[p];
                    k.erase(std::remove(k.begin(), k.end(), n), k.end());
                    if (--refs[p] == 0)
                        dispose(int(p));
                }
            }
            // children added from now on are disposed at once
            for (size_t q = 0; q < kids[i].size(); ++q)
                dispose(kids[i][q].id);
            kids[i].clear();
        }
        void run(const DOp& o)
        {
            const bool pin = o.kind == 'c' || o.kind == 'r' || o.kind == 'a';
            if (pin)
                ++pinned[size_t(o.a)];
            act(o);
            if (pin)
            {
                --pinned[size_t(o.a)];
                released(o.a);
            }
        }
        void act(const DOp& o)
        {
            const auto a = size_t(o.a);
            switch (o.kind)
            {
            case 'd': dispose(o.a); break;
            case 'a':
                if (disposed[size_t(o.b)] || o.a == o.b)
                    return;
                if (disposed[a])
                    dispose(o.b);
                else
                    kids[a].push_back({o.b, !o.wb && handle[size_t(o.b)]});
                break;
            case 'x':
                handle[a] = 0;
                released(o.a);
                break;
            case 'r':
                if (!disposed[a])
                {
                    auto& k = kids[a];
                    k.erase(std::remove(k.begin(), k.end(), o.b), k.end());
                    released(o.b);
                }
                break;
            case 'c':
                if (!disposed[a])
                {
                    auto k = std::move(kids[a]);
                    kids[a].clear();
                    clearing.push_back(k);
                    for (auto& x : k)
                        dispose(x.id);
                    clearing.pop_back();
                }
                break;
            default: break;
            }
        }
    };

    void case_disposables(vh::Rng& r)
    {
        DScript   s;
        const int n = r.range(3, 12);
        auto      node = [&](char k, int of) {
            s.kind.push_back(k);
            s.of.push_back(of);
            s.cleanup.emplace_back();
            return int(s.kind.size()) - 1;
        };
        for (int i = 0; i < n; ++i)
        {
            const int w = r.below(10);
            if (w < 5)
                node('c', -1);
            else if (w < 8)
                node(r.chance(1, 4) ? 's' : 'm', -1);
            else
            {
                const int x = node('r', -1);
                for (int k = r.range(1, 3); k > 0; --k)
                    node('f', x);
            }
        }
        const int total = int(s.kind.size());
        // children of higher index only: no cycle of ownership (a leak by construction)
        std::vector<int> uses(size_t(total), 0);
        auto             gen = [&](char forced) -> std::optional<DOp> {
            std::vector<int> parents;
            for (int i = 0; i < total; ++i)
                if (s.kind[size_t(i)] != 'c')
                    parents.push_back(i);
            if (parents.empty())
                return DOp{'d', r.below(total), 0};
            const int a = parents[size_t(r.below(int(parents.size())))];
            const int w = r.below(100);
            const bool wa = r.chance(1, 4), wb = r.chance(1, 4);
            if (forced == 'a' || w < 50)
            {
                if (a + 1 >= total)
                    return std::nullopt;
                const int b = r.range(a + 1, total - 1);
                // references are children of their refcount already
                if (s.kind[size_t(b)] == 'f' || s.kind[size_t(b)] == 'r')
                    return std::nullopt;
                if (s.kind[size_t(a)] == 's' && ++uses[size_t(a)] > 4)
                    return std::nullopt;
                return DOp{'a', a, b, wa, wb};
            }
            if (w < 62)
                return DOp{'r', a, r.below(total), wa, wb};
            if (w < 72)
                return DOp{'c', a, 0, wa};
            if (w < 84)
                return DOp{'x', r.below(total), 0};
            return DOp{'d', r.below(total), 0, wa};
        };
        for (int i = 0; i < total; ++i)
            if (s.kind[size_t(i)] == 'c' && r.chance(1, 3))
                for (int k = r.range(1, 3); k > 0; --k)
                    if (auto o = gen(0))
                        s.cleanup[size_t(i)].push_back(*o);
        for (int k = r.range(2, 14); k > 0; --k)
            if (auto o = gen(k > 8 ? 'a' : 0))
                s.ops.push_back(*o);
        // 'r'emove of a reference from a refcount would orphan it: not done by users
        auto fix = [&](std::vector<DOp>& v) {
            v.erase(std::remove_if(v.begin(), v.end(), [&](const DOp& o) { return (o.kind == 'r' && s.kind[size_t(o.b)] == 'f'); }), v.end());
        };
        fix(s.ops);
        for (auto& c : s.cleanup)
            fix(c);

        DModel m{s};
        // real
        using Static = rpp::composite_disposable_impl<rpp::details::disposables::static_disposables_container<64>>;
        struct N
        {
            rpp::disposable_wrapper           d = rpp::disposable_wrapper::empty();
            rpp::composite_disposable_wrapper c = rpp::composite_disposable_wrapper::empty();
            rpp::disposable_wrapper           wd = rpp::disposable_wrapper::empty();
            rpp::composite_disposable_wrapper wc = rpp::composite_disposable_wrapper::empty();
            bool                              dropped{false};
            int                               runs{0};
            rpp::disposable_wrapper           get(bool weak) const { return weak || dropped ? wd : d; }
            rpp::composite_disposable_wrapper get_c(bool weak) const { return weak || dropped ? wc : c; }
        };
        auto             ns = std::make_shared<std::vector<N>>(size_t(total));
        std::vector<int> order;
        std::function<void(const DOp&)> exec = [&](const DOp& o) {
            auto& v = *ns;
            switch (o.kind)
            {
            case 'd': {
                auto d = v[size_t(o.a)].get(o.wa);
                d.dispose();
                break;
            }
            case 'a': v[size_t(o.a)].get_c(o.wa).add(v[size_t(o.b)].get(o.wb)); break;
            case 'r': v[size_t(o.a)].get_c(o.wa).remove(v[size_t(o.b)].get(o.wb)); break;
            case 'c': v[size_t(o.a)].get_c(o.wa).clear(); break;
            case 'x': {
                auto& x   = v[size_t(o.a)];
                x.dropped = true;
                auto d    = std::exchange(x.d, rpp::disposable_wrapper::empty());
                auto c    = std::exchange(x.c, rpp::composite_disposable_wrapper::empty());
                break;
            }
            default: break;
            }
        };
        bool teardown = false;
        for (int i = 0; i < total; ++i)
        {
            auto& x = (*ns)[size_t(i)];
            switch (s.kind[size_t(i)])
            {
            case 'c':
                x.d = rpp::make_callback_disposable([&, i]() noexcept {
                    ++(*ns)[size_t(i)].runs;
                    order.push_back(i);
                    if (!teardown)
                        for (auto& o : s.cleanup[size_t(i)])
                            exec(o);
                });
                break;
            case 'm':
                x.c = rpp::composite_disposable_wrapper::make();
                x.d = x.c;
                break;
            case 's':
                x.c = rpp::composite_disposable_wrapper::make<Static>();
                x.d = x.c;
                break;
            case 'r': {
                auto rc = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
                x.c     = rc;
                x.d     = rc;
                // references follow directly
                for (int k = i + 1; k < total && s.of[size_t(k)] == i; ++k)
                {
                    (*ns)[size_t(k)].c = rc.lock()->add_ref();
                    (*ns)[size_t(k)].d = (*ns)[size_t(k)].c;
                }
                break;
            }
            default: break;
            }
        }
        for (auto& x : *ns)
        {
            x.wd = x.d.as_weak();
            x.wc = x.c.as_weak();
        }
        uint64_t h = 5;
        for (size_t k = 0; k < s.ops.size(); ++k)
        {
            m.run(s.ops[k]);
            exec(s.ops[k]);
            bool bad = false;
            for (int i = 0; i < total && !bad; ++i)
            {
                const auto& x = (*ns)[size_t(i)];
                if (x.runs > 1)
                    failp("P14", "cleanup-twice", vh::fmt("cleanup of %d ran %d times || ", i, x.runs) + s.str()), bad = true;
                else if (x.runs != m.runs[size_t(i)])
                    failp("P14", x.runs ? "cleanup-unexpected" : "cleanup-missing", vh::fmt("after op %zu cleanup of %d ran %d times, expected %d || ", k, i, x.runs, m.runs[size_t(i)]) + s.str()), bad = true;
                else if (x.get(k % 2).is_disposed() != bool(m.disposed[size_t(i)]))
                    failp("P14", "is_disposed", vh::fmt("after op %zu is_disposed of %d is %d || ", k, i, int(x.get(k % 2).is_disposed())) + s.str()), bad = true;
            }
            if (bad)
                break;
        }
        for (int i : order)
            h = vh::mix(h, uint64_t(i));
        for (char c : s.str())
            h = vh::mix(h, uint64_t(c));
        if (!order.empty())
            vh::sig(h);
        vh::events(long(s.ops.size() + order.size()));
        vh::sample(s.str());
        // dropping every handle disposes what is left, once
        teardown = true;
        for (auto& x : *ns)
        {
            x.d = rpp::disposable_wrapper::empty();
            x.c = rpp::composite_disposable_wrapper::empty();
        }
        for (int i = 0; i < total; ++i)
            if (s.kind[size_t(i)] == 'c' && (*ns)[size_t(i)].runs != 1)
                failp("P14", "cleanup-count", vh::fmt("cleanup of %d ran %d times in total || ", i, (*ns)[size_t(i)].runs) + s.str());
    }
} // namespace

int main(int argc, char** argv)
{
    return vh::run_deep(argc, argv, [](vh::Rng& r, long i) {
        if (is("P14") && (vh::G().opt.mode == "P14" || i % 3 == 0))
            case_disposables(r);
        else if (vh::G().opt.mode == "P13" || (vh::G().opt.mode != "P11" && i % 3 == 1))
            case_connectable(r);
        else
            case_subject(r);
    });
}
