// P15: random programs of tasks (relative, absolute, repeating in the three ways,
// nested, slow, throwing, disposing) on immediate, current_thread, run_loop and
// test_scheduler, compared with a reference queue on the same virtual clock.
#include "sched.hpp"

namespace sc
{
    namespace rs = rpp::schedulers;
    namespace
    {
        struct Act
        {
            char kind; // a(dvance by n) s(chedule task n) d(ispose handler n)
            int  n;
            char how{'r'}; // s: r relative, A absolute, z no delay given
            int  at{0};
        };
        struct Run
        {
            std::vector<Act>   acts;
            std::optional<int> ret;
            bool               thr{false};
        };
        struct Task
        {
            int              type; // 0 from now, 1 from this time point, 2 to time point
            int              handler;
            std::vector<Run> runs;
        };
        enum Kind
        {
            Imm,
            Cur,
            Loop,
            Test
        };
        struct Prog
        {
            int                              kind{Cur};
            int                              handlers{1};
            std::vector<Task>                tasks;
            std::vector<Act>                 ops; // s a d, and r (dispatch if ready) R (dispatch all ready) for run_loop
            std::vector<std::pair<int, int>> timed; // at that time, dispose that handler
            bool                             drop{false}; // destroy the scheduler with tasks still queued
            std::string                      str() const
            {
                std::ostringstream o;
                o << "scheduler=" << std::string("ICLT")[size_t(kind)] << " ";
                auto act = [&](const Act& a) {
                    o << a.kind << a.n;
                    if (a.kind == 's')
                        o << a.how << a.at;
                    o << " ";
                };
                for (size_t i = 0; i < tasks.size(); ++i)
                {
                    o << "T" << i << "(h" << tasks[i].handler << " " << "ntp"[tasks[i].type] << ")";
                    for (auto& r : tasks[i].runs)
                    {
                        o << "{";
                        for (auto& a : r.acts)
                            act(a);
                        if (r.thr)
                            o << "!";
                        else if (r.ret)
                            o << "->" << *r.ret;
                        o << "}";
                    }
                    o << " ";
                }
                o << "ops: ";
                for (auto& a : ops)
                    act(a);
                for (auto& t : timed)
                    o << "@" << t.first << "d" << t.second << " ";
                return o.str();
            }
        };
        struct Inst
        {
            int  task;
            int  done{0};
            long due{0};
            long seq{0};
        };
        struct World
        {
            const Prog&       p;
            Log               log{};
            std::vector<char> dead;
            std::vector<Inst> insts{};
            int               depth{0}, max_depth{0};
            explicit World(const Prog& pr)
                : p{pr}
                , dead(size_t(pr.handlers), 0)
            {
            }
            virtual ~World()                                  = default;
            virtual long now() const                          = 0;
            virtual void set_now(long t)                      = 0;
            virtual void put(int inst, char how, long at)     = 0; // at: delay or absolute time
            virtual void dispatch(bool) {}
            void moved(long from, long to)
            {
                for (auto& t : p.timed)
                    if (t.first > from && t.first <= to)
                        dead[size_t(t.second)] = 1;
            }
            void advance(long by)
            {
                const long f = now();
                set_now(f + by);
                moved(f, f + by);
            }
            void act(const Act& a)
            {
                switch (a.kind)
                {
                case 'a': advance(a.n); break;
                case 'd':
                    dead[size_t(a.n)] = 1;
                    break;
                case 's':
                    if (insts.size() < 60)
                    {
                        insts.push_back({a.n});
                        put(int(insts.size()) - 1, a.how, a.how == 'A' ? now() + a.at : a.at);
                    }
                    break;
                case 'r': dispatch(false); break;
                case 'R': dispatch(true); break;
                default: break;
                }
            }
            // one execution of a task; throws if it is told to
            std::optional<int> body(int inst)
            {
                auto& t = p.tasks[size_t(insts[size_t(inst)].task)];
                log.add("run" + std::to_string(inst) + "@" + std::to_string(now()) + (dead[size_t(t.handler)] ? "(dead)" : ""));
                const int k = insts[size_t(inst)].done++;
                if (size_t(k) >= t.runs.size())
                    return std::nullopt;
                ++depth;
                max_depth = std::max(max_depth, depth);
                for (auto& a : t.runs[size_t(k)].acts)
                    act(a);
                --depth;
                if (t.runs[size_t(k)].thr)
                    throw VErr{1000 + inst};
                return t.runs[size_t(k)].ret;
            }
        };

        // ---------------------------------------------------------- reference
        struct Model : World
        {
            long             clock{0};
            std::deque<int>  q{};
            long             seq{0};
            bool             active{false};
            using World::World;
            long now() const override { return clock; }
            void set_now(long t) override { clock = t; }
            void sleep_to(long t)
            {
                if (t > clock)
                {
                    const long f = clock;
                    clock        = t;
                    moved(f, t);
                }
            }
            void push(int i, long due)
            {
                insts[size_t(i)].due = due;
                insts[size_t(i)].seq = seq++;
                q.push_back(i);
                if (p.kind == Test) // drains what is due on every scheduling
                    dispatch(true);
            }
            int pop()
            {
                auto it = std::min_element(q.begin(), q.end(), [&](int a, int b) {
                    auto &x = insts[size_t(a)], &y = insts[size_t(b)];
                    return x.due != y.due ? x.due < y.due : x.seq < y.seq;
                });
                const int i = *it;
                q.erase(it);
                return i;
            }
            bool gone(int i) const { return dead[size_t(p.tasks[size_t(insts[size_t(i)].task)].handler)]; }
            // true: wants to run again at insts[i].due
            bool execute(int i)
            {
                std::optional<int> ret;
                try
                {
                    ret = body(i);
                }
                catch (const VErr& e)
                {
                    log.add("err" + std::to_string(e.code) + "h" + std::to_string(p.tasks[size_t(insts[size_t(i)].task)].handler));
                    return false;
                }
                if (!ret || gone(i))
                    return false;
                auto& x = insts[size_t(i)];
                x.due   = p.tasks[size_t(x.task)].type == 1 ? x.due + *ret : now() + *ret;
                return true;
            }
            void put(int i, char how, long at) override
            {
                if (gone(i) && p.kind != Test) // the virtual-time scheduler drains all the same
                    return;
                const long due = how == 'A' ? at : now() + at;
                if (p.kind == Imm)
                {
                    insts[size_t(i)].due = due;
                    do
                    {
                        if (gone(i))
                            return;
                        sleep_to(insts[size_t(i)].due);
                        if (gone(i))
                            return;
                    } while (execute(i));
                    return;
                }
                push(i, due);
                if (p.kind == Cur && !active)
                {
                    active = true;
                    while (!q.empty())
                    {
                        const int j = pop();
                        if (gone(j))
                            continue;
                        sleep_to(insts[size_t(j)].due);
                        if (gone(j))
                            continue;
                        if (execute(j))
                            push(j, insts[size_t(j)].due);
                    }
                    active = false;
                }
            }
            bool ready() const
            {
                for (int i : q)
                    if (insts[size_t(i)].due <= clock)
                        return true;
                return false;
            }
            void dispatch(bool all) override
            {
                // tasks of disposed handlers are invisible
                do
                {
                    q.erase(std::remove_if(q.begin(), q.end(), [&](int i) { return gone(i); }), q.end());
                    if (!ready())
                        return;
                    const int j = pop();
                    if (execute(j))
                        push(j, insts[size_t(j)].due);
                } while (all);
            }
        };

        // --------------------------------------------------------------- real
        struct Real;
        struct H
        {
            Real* r;
            int   h;
            Tok   t{};
            bool  is_disposed() const;
            void  on_error(const std::exception_ptr& e) const;
        };
        struct Real : World
        {
            int64_t                              base{vclock::now_ns};
            std::function<void(int, char, long)> sched{};
            std::function<void(bool)>            disp{};
            bool                                 test{false};
            using World::World;
            long now() const override
            {
                if (test)
                    return long((rs::test_scheduler::now().time_since_epoch().count() - base) / vclock::MS);
                return long((vclock::now_ns - base) / vclock::MS);
            }
            void set_now(long t) override { vclock::now_ns = base + t * vclock::MS; }
            void put(int i, char how, long at) override { sched(i, how, at); }
            void dispatch(bool all) override
            {
                if (disp)
                    disp(all);
            }
            rs::time_point abs(long at) const { return rs::time_point{std::chrono::nanoseconds{base + at * vclock::MS}}; }

            template<typename W>
            void schedule(const W& w, int i, char how, long at)
            {
                const auto& t  = p.tasks[size_t(insts[size_t(i)].task)];
                auto        go = [&](auto&& fn) {
                    const std::chrono::milliseconds d{at};
                    switch (how)
                    {
                    case 'z': w.schedule(fn, H{this, t.handler}, Val{i}, int{i}); break;
                    case 'r': w.schedule(d, fn, H{this, t.handler}, Val{i}, int{i}); break;
                    default: w.schedule(abs(at), fn, H{this, t.handler}, Val{i}, int{i}); break;
                    }
                };
                auto run = [this, tok = Tok{}](const H&, const Val& v, int& x) {
                    tok.touch();
                    if (v.get() != x)
                        failp("P15", "args", "arguments of a task changed");
                    return body(x);
                };
                if (t.type == 0)
                    go([run](const H& h, const Val& v, int& x) -> rs::optional_delay_from_now {
                        if (const auto q = run(h, v, x))
                            return rs::delay_from_now{std::chrono::milliseconds{*q}};
                        return std::nullopt;
                    });
                else if (t.type == 1)
                    go([run](const H& h, const Val& v, int& x) -> rs::optional_delay_from_this_timepoint {
                        if (const auto q = run(h, v, x))
                            return rs::delay_from_this_timepoint{std::chrono::milliseconds{*q}};
                        return std::nullopt;
                    });
                else
                    go([run, this](const H& h, const Val& v, int& x) -> rs::optional_delay_to {
                        if (const auto q = run(h, v, x))
                            return rs::delay_to{abs(now() + *q)};
                        return std::nullopt;
                    });
            }
        };
        bool H::is_disposed() const
        {
            t.touch();
            return r->dead[size_t(h)];
        }
        void H::on_error(const std::exception_ptr& e) const
        {
            t.touch();
            try
            {
                std::rethrow_exception(e);
            }
            catch (const VErr& x)
            {
                r->log.add("err" + std::to_string(x.code) + "h" + std::to_string(h));
            }
            catch (...)
            {
                r->log.add("err?");
            }
        }

        Act gen_sched(vh::Rng& r, int kind, int lo, int n)
        {
            Act a{'s', lo + r.below(n - lo)};
            a.how = "rrAz"[r.below(4)];
            if (a.how == 'A')
                a.at = r.range(kind == Test ? 1 : -3, 8);
            else if (a.how == 'r')
                a.at = r.chance(1, 3) ? 0 : r.range(0, 8);
            if (kind == Test && a.at < 1)
            {
                a.how = 'r';
                a.at  = r.range(1, 6);
            }
            return a;
        }
    } // namespace

    void case_p15(vh::Rng& r)
    {
        Prog p;
        p.kind      = r.below(4);
        p.handlers  = r.range(1, 3);
        const int n = r.range(1, 7);
        for (int i = 0; i < n; ++i)
        {
            Task t;
            t.type    = r.below(3);
            t.handler = r.below(p.handlers);
            for (int k = r.range(1, 4); k > 0; --k)
            {
                Run x;
                for (int c = r.below(4); c > 0; --c)
                {
                    const int w = r.below(10);
                    if (w < 6 && i + 1 < n)
                        x.acts.push_back(gen_sched(r, p.kind, i + 1, n));
                    else if (w < 8 && p.kind != Test)
                        x.acts.push_back({'a', r.range(0, 4)});
                    else if (w == 8 && r.chance(1, 3))
                        x.acts.push_back({'d', r.below(p.handlers)});
                }
                if (r.chance(1, 15))
                    x.thr = true;
                else if (k > 1)
                {
                    x.ret = r.chance(1, 3) ? 0 : r.range(0, 6);
                    if (t.type == 2 && p.kind != Test)
                        x.ret = r.range(-3, 6);
                }
                t.runs.push_back(std::move(x));
            }
            p.tasks.push_back(std::move(t));
        }
        for (int k = r.range(1, 8); k > 0; --k)
        {
            const int w = r.below(10);
            if (w < 5)
                p.ops.push_back(gen_sched(r, p.kind, 0, n));
            else if (w < 6)
                p.ops.push_back({'a', p.kind == Test ? 1 : r.range(0, 5)});
            else if (p.kind == Loop)
                p.ops.push_back({w < 8 ? 'r' : 'R', 0});
            else if (p.kind == Test)
                for (int q = r.range(1, 6); q > 0; --q)
                    p.ops.push_back({'a', 1});
            else
                p.ops.push_back(gen_sched(r, p.kind, 0, n));
            if (r.chance(1, 12))
                p.ops.push_back({'d', r.below(p.handlers)});
        }
        p.drop = r.chance(1, 3);
        if ((p.kind == Loop || p.kind == Test) && !p.drop)
            for (int q = 0; q < 60; ++q)
            {
                p.ops.push_back({'a', 1});
                if (p.kind == Loop)
                    p.ops.push_back({'R', 0});
            }
        if (p.kind != Test)
            for (int k = r.below(3); k > 0; --k)
                p.timed.emplace_back(r.range(1, 30), r.below(p.handlers));

        const long tok0 = Tok::live.load(), val0 = Val::live.load();
        Model      m{p};
        std::vector<std::string> states;
        for (auto& a : p.ops)
        {
            if (p.kind == Test && a.kind == 'a')
            {
                m.clock += 1;
                m.dispatch(true);
                continue;
            }
            m.act(a);
            if (p.kind == Loop)
            {
                bool any_dead = false; // tasks of disposed handlers may still be counted
                for (char d : m.dead)
                    any_dead |= d;
                states.push_back(any_dead ? "" : std::string(m.q.empty() ? "E" : "e") + (m.ready() ? "R" : "r"));
            }
        }
        {
            Real x{p};
            switch (p.kind)
            {
            case Imm:
                x.sched = [&](int i, char how, long at) { x.schedule(rs::immediate::create_worker(), i, how, at); };
                break;
            case Cur:
                x.sched = [&](int i, char how, long at) { x.schedule(rs::current_thread::create_worker(), i, how, at); };
                break;
            default: break;
            }
            vclock::on_sleep = [&](int64_t f, int64_t t) { x.moved(long((f - x.base) / vclock::MS), long((t - x.base) / vclock::MS)); };
            std::optional<rs::run_loop>       loop;
            std::optional<rs::test_scheduler> ts;
            if (p.kind == Loop)
            {
                loop.emplace();
                auto w  = std::make_shared<decltype(loop->create_worker())>(loop->create_worker());
                x.sched = [&x, w](int i, char how, long at) { x.schedule(*w, i, how, at); };
                x.disp  = [&](bool all) {
                    // a disposed task may take a dispatch of its own
                    do
                    {
                        const size_t before = x.log.v.size();
                        int          guard  = 0;
                        while (loop->is_any_ready_schedulable() && x.log.v.size() == before && ++guard < 200)
                        {
                            if (guard & 1)
                                loop->dispatch_if_ready();
                            else
                                loop->dispatch();
                        }
                        if (x.log.v.size() == before)
                        {
                            loop->dispatch_if_ready(); // nothing is ready: must do nothing
                            return;
                        }
                    } while (all);
                };
            }
            if (p.kind == Test)
            {
                ts.emplace();
                x.test  = true;
                x.base  = rs::test_scheduler::now().time_since_epoch().count();
                auto w  = std::make_shared<decltype(ts->create_worker())>(ts->create_worker());
                x.sched = [&x, w](int i, char how, long at) { x.schedule(*w, i, how, at); };
            }
            size_t k = 0;
            for (auto& a : p.ops)
            {
                if (p.kind == Test && a.kind == 'a')
                {
                    ts->time_advance(std::chrono::milliseconds{1});
                    continue;
                }
                x.act(a);
                if (p.kind == Loop)
                {
                    const auto s = std::string(loop->is_empty() ? "E" : "e") + (loop->is_any_ready_schedulable() ? "R" : "r");
                    if (!states[k].empty() && states[k] != s)
                        failp("P15", "run_loop-state", "run_loop reports " + s + ", expected " + states[k] + " || " + p.str());
                    ++k;
                }
            }
            compare("P15", std::string("order:") + "ICLT"[p.kind], p.str(), m.log, x.log);
            if (p.kind == Cur && x.max_depth > 1)
                failp("P18", "nested-run", "a task of current_thread ran inside of another one || " + p.str());
            observe(p.str(), x.log);
            if (p.kind == Loop || p.kind == Test)
            {
                auto left = std::move(x.sched); // a worker that outlives its scheduler accepts nothing
                loop.reset();
                ts.reset();
                const auto sz = x.log.v.size();
                if (!p.tasks.empty() && !x.insts.empty())
                {
                    x.insts.push_back({0});
                    left(int(x.insts.size()) - 1, 'r', 0);
                    if (x.log.v.size() != sz)
                        failp("P15", "run-after-end", "a task ran on a destroyed scheduler || " + p.str());
                }
            }
            vclock::on_sleep = nullptr;
        }
        if (Tok::live.load() != tok0 || Val::live.load() != val0)
            failp("P08", "leak:scheduler", vh::fmt("%ld callables and %ld arguments alive after the scheduler is gone || ", Tok::live.load() - tok0, Val::live.load() - val0) + p.str());
    }
} // namespace sc
