// Random task programs on real workers under several threads: every task records
// when and where it ran, the log is checked afterwards against what was asked.
#pragma once
#include "conc.hpp"

namespace wk
{
    using namespace cc;
    using clk = std::chrono::steady_clock;
    using us  = std::chrono::microseconds;

    inline int64_t ns(clk::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
    inline int64_t wall() { return ns(clk::now()); }

    struct Traits
    {
        const char* name;
        bool        one_thread;  // all tasks of a worker run on one thread
        bool        fifo_timed;  // earlier due goes first, also for delayed tasks
        bool        nested;      // current_thread work inside a task is handed to the worker
        bool        throwing;    // a throwing task is reported to its handler
        bool        outlives;    // accepted tasks run after the worker has gone
        int         slack_us{0}; // resolution of due times
    };

    struct Rec
    {
        uint64_t        b{0}, e{0};
        int64_t         tb{0}, te{0}; // te just before the task returns
        std::thread::id th{};
    };

    // closures of a task that has not been dropped yet
    struct Token
    {
        std::shared_ptr<std::atomic<int>> n;
        explicit Token(std::shared_ptr<std::atomic<int>> c)
            : n{std::move(c)}
        {
            n->fetch_add(1);
        }
        Token(const Token& o)
            : n{o.n}
        {
            if (n)
                n->fetch_add(1);
        }
        Token(Token&& o) noexcept
            : n{std::move(o.n)}
        {
        }
        Token& operator=(Token o)
        {
            std::swap(n, o.n);
            return *this;
        }
        ~Token()
        {
            if (n)
                n->fetch_sub(1, std::memory_order_acq_rel);
        }
    };

    struct Task
    {
        // program
        int              id{0}, w{0};
        int              delay{0}; // us
        bool             absolute{false};
        int              reps{0}; // runs after the first one
        int              rk{0};   // 0 delay_from_now 1 delay_from_this_timepoint 2 delay_to
        int              rd{0};   // us
        std::vector<int> kids{};
        bool             nested{false}; // through current_thread, from inside the parent
        int              by{-1};        // -1-producer, or the parent task
        int              victim{-1};
        int              pause{0};
        bool             throws{false};
        bool             born_dead{false};
        bool             dies{false}; // disposes its own handler in its first run
        // what happened
        std::atomic<bool>    disposed{false};
        std::atomic<int>      disposed_by{-1}; // task whose run did it
        std::atomic<uint64_t> disposed_tick{0};
        std::atomic<int>     errors{0};
        uint64_t             sub_b{0}, sub_e{0};
        int64_t              sub_tb{0}, sub_te{0}, due_abs{0};
        std::atomic<bool>    submitted{false};
        std::atomic<int>     runs{0};
        Rec                  recs[12]{};
    };

    struct Handler
    {
        Task* t;
        Token token;
        bool  is_disposed() const noexcept { return t->disposed.load(ORD); }
        void  on_error(const std::exception_ptr&) const { t->errors.fetch_add(1, ORD); }
    };

    template<typename Worker>
    struct Prog
    {
        Traits                             tr;
        Ctx&                               c;
        std::deque<Task>                   tasks{};
        std::vector<std::optional<Worker>> workers{};
        struct WState
        {
            std::atomic<int>  inside{0};
            std::atomic<bool> overlap{false};
            long              touch{0}; // plain: tasks of one worker must be ordered
        };
        std::deque<WState>                ws{};
        std::shared_ptr<std::atomic<int>> open = std::make_shared<std::atomic<int>>(0);
        bool                              drop_workers{false};

        Prog(Ctx& ctx, Traits t)
            : tr{t}
            , c{ctx}
        {
        }

        static constexpr int MAX = 60;

        int make(int by, int w, bool nested, int depth)
        {
            auto&     r  = c.r;
            const int id = int(tasks.size());
            Task&     t  = tasks.emplace_back();
            t.id         = id;
            t.w          = w;
            t.by         = by;
            t.nested     = nested;
            t.delay      = r.chance(1, 2) ? 0 : r.chance(1, 3) ? 300
                                                               : r.range(1, 1200);
            t.absolute   = !nested && r.chance(1, 4);
            if (r.chance(1, 4))
                t.reps = r.range(1, 3);
            t.rk    = r.below(3);
            t.rd    = r.chance(1, 2) ? 0 : r.range(1, 600);
            t.pause = r.chance(1, 3) ? r.range(1, 2) : 0;
            t.throws    = tr.throwing && r.chance(1, 16);
            t.born_dead = r.chance(1, 20);
            t.dies      = r.chance(1, 12);
            if (r.chance(1, 6))
                t.victim = r.below(id + 4);
            if (depth < 2)
                for (int k = r.chance(1, 3) ? r.range(1, 3) : 0; k > 0 && tasks.size() < MAX; --k)
                {
                    const bool n = tr.nested && r.chance(1, 2);
                    if (!n && drop_workers)
                        continue;
                    const int kw = n || r.chance(2, 3) ? w : r.below(int(ws.size()));
                    const int kid = make(id, kw, n, depth + 1);
                    tasks[size_t(id)].kids.push_back(kid);
                }
            return id;
        }

        void dispose(Task& v, int by)
        {
            if (v.disposed.exchange(true, ORD))
                return;
            v.disposed_tick.store(tick(), ORD);
            v.disposed_by.store(by, ORD);
        }

        template<typename W>
        void schedule_on(const W& worker, Task& t)
        {
            if (t.born_dead)
                dispose(t, t.by);
            t.sub_b  = tick();
            t.sub_tb = wall();
            auto go  = [&](auto fn) {
                Handler h{&t, Token{open}};
                if (t.absolute)
                {
                    const auto tp = rpp::schedulers::clock_type::now() + us{t.delay};
                    t.due_abs     = ns(tp);
                    worker.schedule(tp, std::move(fn), std::move(h));
                }
                else if (t.delay == 0)
                    worker.schedule(std::move(fn), std::move(h));
                else
                    worker.schedule(us{t.delay}, std::move(fn), std::move(h));
            };
            Prog* p = this;
            switch (t.rk)
            {
            case 0:
                go([p, k = Token{open}](const Handler& h) -> rpp::schedulers::optional_delay_from_now {
                    if (p->body(*h.t))
                        return rpp::schedulers::optional_delay_from_now{us{h.t->rd}};
                    return std::nullopt;
                });
                break;
            case 1:
                go([p, k = Token{open}](const Handler& h) -> rpp::schedulers::optional_delay_from_this_timepoint {
                    if (p->body(*h.t))
                        return rpp::schedulers::optional_delay_from_this_timepoint{us{h.t->rd}};
                    return std::nullopt;
                });
                break;
            default:
                go([p, k = Token{open}](const Handler& h) -> rpp::schedulers::optional_delay_to {
                    if (p->body(*h.t))
                        return rpp::schedulers::optional_delay_to{rpp::schedulers::clock_type::now() + us{h.t->rd}};
                    return std::nullopt;
                });
            }
            t.sub_te = wall();
            t.sub_e  = tick();
            t.submitted.store(true, ORD);
        }
        void submit(int id)
        {
            Task& t = tasks[size_t(id)];
            if (t.nested)
                schedule_on(rpp::schedulers::current_thread::create_worker(), t);
            else
                schedule_on(*workers[size_t(t.w)], t);
        }

        bool body(Task& t)
        {
            WState& s = ws[size_t(t.w)];
#ifndef VH_TSAN
            if (s.inside.fetch_add(1) != 0)
                s.overlap = true;
#endif
            s.touch++;
            const int n = t.runs.fetch_add(1, ORD);
            Rec*      r = n < 12 ? &t.recs[n] : nullptr;
            if (r)
            {
                r->tb = wall();
                r->b  = tick();
                r->th = std::this_thread::get_id();
            }
            if (t.pause)
                vi::pause(t.pause);
            if (t.victim >= 0 && size_t(t.victim) < tasks.size())
                dispose(tasks[size_t(t.victim)], t.id);
            if (n == 0)
                for (int k : t.kids)
                    submit(k);
            if (t.dies)
                dispose(t, t.id);
            if (r)
            {
                r->e  = tick();
                r->te = wall();
            }
#ifndef VH_TSAN
            if (s.inside.fetch_sub(1) != 1)
                s.overlap = true;
#endif
            if (t.throws)
                throw std::runtime_error{"asked for"};
            return n < t.reps;
        }

        // the earliest moment the n-th run may begin
        int64_t due(const Task& t, int n) const
        {
            const int64_t first = t.absolute ? t.due_abs : t.sub_tb + int64_t(t.delay) * 1000;
            if (n == 0)
                return first;
            const int64_t d = int64_t(t.rd) * 1000;
            if (t.rk == 1)
                return tr.slack_us ? t.recs[n - 1].tb + d : std::max(first + n * d, t.recs[n - 1].tb); // rounding adds up
            return t.recs[n - 1].te + d;
        }

        std::string show(const Task& t) const
        {
            return vh::fmt("task %d (worker %d, by %d%s, delay %dus%s, repeats %d kind %d after %dus%s%s, ran %d)", t.id, t.w, t.by, t.nested ? " nested" : "", t.delay, t.absolute ? " absolute" : "", t.reps, t.rk, t.rd, t.throws ? ", throws" : "", t.disposed ? ", disposed" : "", t.runs.load());
        }

        void check(const char* prop, std::thread::id where)
        {
            const auto f = [&](const std::string& key, const std::string& msg) {
                failp(prop, std::string(tr.name) + ":" + key, msg + " in " + c.desc);
            };
            std::map<int, std::thread::id> thread_of;
            if (where != std::thread::id{})
                for (size_t i = 0; i < ws.size(); ++i)
                    thread_of[int(i)] = where;
            std::vector<std::pair<uint64_t, int>> order;
            for (auto& t : tasks)
            {
                const int n = t.runs.load();
                vh::events(n);
                for (int i = 0; i < n && i < 12; ++i)
                {
                    order.push_back({t.recs[i].b, t.id * 4 + 1});
                    order.push_back({t.recs[i].e, t.id * 4 + 2});
                    const auto at = t.recs[i].tb, lim = due(t, i) - int64_t(tr.slack_us) * 1000;
                    if (at < lim)
                        f("early", vh::fmt("run %d began %lldus before it was due: ", i, (long long)(lim - at) / 1000) + show(t));
                    if (tr.one_thread)
                    {
                        auto [it, fresh] = thread_of.try_emplace(t.w, t.recs[i].th);
                        if (!fresh && it->second != t.recs[i].th)
                            f("threads", "a worker's tasks ran on different threads: " + show(t));
                    }
                    if (i && t.recs[i].b < t.recs[i - 1].e)
                        f("self-overlap", "a run began before the previous one ended: " + show(t));
                    if (t.disposed)
                    {
                        const int by = t.disposed_by;
                        if (by >= 0 && tasks[size_t(by)].w == t.w && t.disposed_tick.load() < t.recs[i].b)
                            f("disposed-ran", vh::fmt("run %d began though an earlier task (%d) of the worker had disposed its handler: ", i, by) + show(t));
                        if (t.born_dead)
                            f("disposed-ran", "ran though its handler was disposed when it was scheduled: " + show(t));
                    }
                }
                if (n > t.reps + 1)
                    f("too-often", "ran more often than it asked for: " + show(t));
                if (t.submitted && !t.disposed && !t.throws && n != t.reps + 1)
                    f("lost", "runs are missing: " + show(t));
                if (!t.submitted && n)
                    f("invented", "ran though it was not submitted: " + show(t));
                if (t.throws && !t.disposed && t.submitted && (n != 1 || t.errors != 1))
                    f("throw", vh::fmt("threw, %d errors reported: ", t.errors.load()) + show(t));
                if (!t.throws && t.errors)
                    f("error", "an error was reported to a task that did not throw: " + show(t));
            }
            for (size_t i = 0; i < ws.size(); ++i)
                if (ws[i].overlap)
                    f("overlap", vh::fmt("two tasks of worker %zu ran at the same time", i));
            // A was queued before B was submitted and could not be due later: A first
            for (auto& a : tasks)
                for (auto& b : tasks)
                {
                    if (&a == &b || a.w != b.w || !a.runs || !b.runs || a.sub_e >= b.sub_b)
                        continue;
                    bool first = false;
                    if (tr.fifo_timed)
                    {
                        const auto a_latest   = a.absolute ? a.due_abs : a.sub_te + int64_t(a.delay) * 1000;
                        const auto b_earliest = b.absolute ? b.due_abs : b.sub_tb + int64_t(b.delay) * 1000;
                        first                 = a_latest <= b_earliest;
                    }
                    else
                        first = a.delay == 0 && b.delay == 0 && !a.absolute && !b.absolute && a.nested == b.nested && (!a.nested || a.by == b.by);
                    if (first && a.recs[0].b > b.recs[0].b)
                        f("order", "a task ran after one submitted later and due later: " + show(a) + " and " + show(b));
                }
            // A was queued before B asked for another run and could not be due later: A first
            if (tr.fifo_timed)
                for (auto& a : tasks)
                    for (auto& b : tasks)
                    {
                        if (&a == &b || a.w != b.w || !a.runs || !a.submitted)
                            continue;
                        const auto a_latest = a.absolute ? a.due_abs : a.sub_te + int64_t(a.delay) * 1000;
                        for (int i = 1; i < b.runs && i < 12; ++i)
                        {
                            if (a.sub_e >= b.recs[i - 1].e)
                                continue;
                            const int64_t d     = int64_t(b.rd) * 1000;
                            const int64_t first = b.absolute ? b.due_abs : b.sub_tb + int64_t(b.delay) * 1000;
                            if (a_latest <= (b.rk == 1 ? first + i * d : b.recs[i - 1].te + d))
                            {
                                vh::count("reruns_behind_a_queued_task");
                                if (a.recs[0].b > b.recs[i].b)
                                    f("starved", vh::fmt("a task ran after run %d of another one, which was asked for later and due later: ", i) + show(a) + " and " + show(b));
                            }
                        }
                    }
            std::sort(order.begin(), order.end());
            uint64_t h = 11;
            for (auto& o : order)
                h = vh::mix(h, uint64_t(o.second));
            if (order.size() > 3)
                vh::sig(h);
            vh::sample(c.desc + vh::fmt(": %zu tasks, %zu runs", tasks.size(), order.size() / 2));
        }
    };

    // make(i): the i-th worker;  drain(): called once everything is submitted, returns when all ran
    template<typename Worker, typename Make, typename Drain>
    void program(Ctx& c, const char* prop, Traits tr, Make&& make, Drain&& drain, std::thread::id where = {})
    {
        Prog<Worker> p{c, tr};
        const int    nw = c.r.range(1, 3), np = c.r.range(1, 3);
        p.drop_workers  = tr.outlives && c.r.chance(1, 4);
        for (int i = 0; i < nw; ++i)
        {
            p.ws.emplace_back();
            p.workers.emplace_back(make(i));
        }
        struct Op
        {
            int kind, arg;
        };
        std::vector<std::vector<Op>> ops(static_cast<size_t>(np));
        for (int i = 0; i < np; ++i)
            for (int k = c.r.range(1, 6); k > 0 && p.tasks.size() < Prog<Worker>::MAX; --k)
            {
                if (c.r.chance(1, 6))
                    ops[size_t(i)].push_back({1, c.r.below(int(p.tasks.size()) + 1)});
                else
                    ops[size_t(i)].push_back({0, p.make(-1 - i, c.r.below(nw), false, 0)});
                if (c.r.chance(1, 4))
                    ops[size_t(i)].push_back({2, c.r.range(1, 2)});
            }
        c.desc = vh::fmt("%s: %d workers, %d producers, %zu tasks%s", tr.name, nw, np, p.tasks.size(), p.drop_workers ? ", workers dropped" : "");
        // vectors the tasks use are complete from here on
        std::atomic<bool> go{false};
        Threads           t;
        for (int i = 0; i < np; ++i)
            t.add([&, i] {
                for (auto& o : ops[size_t(i)])
                    switch (o.kind)
                    {
                    case 0: p.submit(o.arg); break;
                    case 1:
                        if (size_t(o.arg) < p.tasks.size())
                            p.dispose(p.tasks[size_t(o.arg)], -1 - i);
                        break;
                    default: vi::pause(o.arg);
                    }
            });
        drain(
            [&] {
                t.run();
                if (p.drop_workers)
                    p.workers.clear();
            },
            [&] { return p.open->load(std::memory_order_acquire) == 0; });
        p.check(prop, where);
        p.workers.clear();
    }
} // namespace wk
