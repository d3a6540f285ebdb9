// P18: trampoline of current_thread: sources iterating on it under merging,
// concatenation and flat_map, deep chains of nested tasks, bounded stack.
#include "sched.hpp"

namespace sc
{
    namespace rs = rpp::schedulers;
    namespace
    {
        enum class X
        {
            Iter,    // from_iterable on current_thread
            IterImm, // the same on immediate
            Merge,
            Concat,
            Flat, // every item v becomes from_iterable of n items v*10+k
            FlatImm,
            Take,
            Map,
            Repeat,
            StartWith,
            Zip, // pairs by position: a*1000+b
            N
        };
        struct Ex
        {
            X                t;
            std::vector<int> vals;
            int              n{0};
            std::vector<Ex>  in;
            void             str(std::ostringstream& o) const
            {
                static const char* nm[] = {"iter", "iterImm", "merge", "concat", "flat", "flatImm", "take", "map", "repeat", "start", "zip"};
                o << nm[int(t)];
                if (n)
                    o << n;
                if (t <= X::IterImm)
                {
                    o << "[";
                    for (int v : vals)
                        o << v << " ";
                    o << "]";
                }
                if (!in.empty())
                {
                    o << "(";
                    for (auto& x : in)
                    {
                        x.str(o);
                        o << ",";
                    }
                    o << ")";
                }
            }
        };

        // -------------------------------------------------------- reference
        struct Tramp
        {
            bool                              active{false};
            std::deque<std::function<bool()>> q{};
            void                              drain()
            {
                while (!q.empty())
                {
                    auto f = std::move(q.front());
                    q.pop_front();
                    if (f())
                        q.push_back(std::move(f));
                }
                active = false;
            }
            void put(std::function<bool()> f)
            {
                q.push_back(std::move(f));
                if (!active)
                {
                    active = true;
                    drain();
                }
            }
            struct Own
            {
                Tramp& t;
                bool   mine;
                explicit Own(Tramp& x)
                    : t{x}
                    , mine{!x.active}
                {
                    t.active = true;
                }
                ~Own()
                {
                    if (mine)
                        t.drain();
                }
            };
        };
        struct Sink
        {
            std::function<void(int)> next;
            std::function<void()>    done;
            std::function<bool()>    dead;
        };
        void sub(Tramp& t, const Ex& e, Sink s);
        void sub_iter(Tramp& t, std::vector<int> vals, bool imm, Sink s)
        {
            if (imm)
            {
                for (int v : vals)
                {
                    if (s.dead())
                        return;
                    s.next(v);
                }
                if (!s.dead())
                    s.done();
                return;
            }
            if (s.dead())
                return;
            auto i = std::make_shared<size_t>(0);
            t.put([=] {
                if (s.dead())
                    return false;
                if (*i < vals.size())
                {
                    s.next(vals[*i]);
                    if (++*i < vals.size())
                        return !s.dead();
                }
                if (!s.dead())
                    s.done();
                return false;
            });
        }
        void sub(Tramp& t, const Ex& e, Sink s)
        {
            switch (e.t)
            {
            case X::Iter: return sub_iter(t, e.vals, false, s);
            case X::IterImm: return sub_iter(t, e.vals, true, s);
            case X::Map: return sub(t, e.in[0], {[s](int v) { s.next(v + 1); }, s.done, s.dead});
            case X::Take: {
                auto left = std::make_shared<int>(e.n);
                auto over = std::make_shared<bool>(false);
                auto dead = [=] { return *over || s.dead(); };
                return sub(t, e.in[0], {[=](int v) {
                                            if (dead())
                                                return;
                                            s.next(v);
                                            if (--*left == 0)
                                            {
                                                if (!dead())
                                                    s.done();
                                                *over = true;
                                            }
                                        },
                                        [=] {
                                            if (!dead())
                                                s.done();
                                        },
                                        dead});
            }
            case X::Merge: {
                auto left = std::make_shared<size_t>(e.in.size());
                Tramp::Own own{t};
                for (auto& x : e.in)
                    sub(t, x, {[s](int v) { if (!s.dead()) s.next(v); }, [=] { if (--*left == 0) s.done(); }, s.dead});
                return;
            }
            case X::Flat:
            case X::FlatImm: {
                auto       left = std::make_shared<int>(1);
                Tramp::Own own{t};
                auto       fin = [=] {
                    if (--*left == 0)
                        s.done();
                };
                return sub(t, e.in[0], {[=, &t, n = e.n, imm = e.t == X::FlatImm](int v) {
                                            if (s.dead())
                                                return;
                                            ++*left;
                                            std::vector<int> c;
                                            for (int k = 0; k < n; ++k)
                                                c.push_back((v * 10 + k) % 9973);
                                            sub_iter(t, c, imm, {s.next, fin, s.dead});
                                        },
                                        fin, s.dead});
            }
            case X::Concat: {
                auto go = std::make_shared<std::function<void(size_t)>>();
                auto list = std::make_shared<std::vector<Ex>>(e.in);
                *go     = [=, &t, w = std::weak_ptr<std::function<void(size_t)>>(go)](size_t i) {
                    if (s.dead())
                        return;
                    if (i == list->size())
                        return s.done();
                    auto again = w.lock();
                    sub(t, (*list)[i], {s.next, [again, i] { (*again)(i + 1); }, s.dead});
                };
                return (*go)(0);
            }
            case X::Repeat: {
                auto go = std::make_shared<std::function<void(int)>>();
                auto in = std::make_shared<Ex>(e.in[0]);
                *go     = [=, &t, w = std::weak_ptr<std::function<void(int)>>(go)](int i) {
                    if (s.dead())
                        return;
                    if (i == 0)
                        return s.done();
                    auto again = w.lock();
                    sub(t, *in, {s.next, [again, i] { (*again)(i - 1); }, s.dead});
                };
                return (*go)(e.n);
            }
            case X::StartWith: { // in[1] comes first
                auto second = std::make_shared<Ex>(e.in[0]);
                return sub(t, e.in[1], {s.next, [=, &t] { if (!s.dead()) sub(t, *second, s); }, s.dead});
            }
            case X::Zip: {
                struct St
                {
                    std::deque<int> q[2];
                    int             left{2};
                };
                auto       st = std::make_shared<St>();
                Tramp::Own own{t};
                auto       side = [=](int i) {
                    return Sink{[=](int v) {
                                    if (s.dead())
                                        return;
                                    st->q[i].push_back(v);
                                    if (!st->q[0].empty() && !st->q[1].empty())
                                    {
                                        const int a = st->q[0].front(), b = st->q[1].front();
                                        st->q[0].pop_front();
                                        st->q[1].pop_front();
                                        s.next((a * 31 + b) % 9973);
                                    }
                                },
                                [=] {
                                    if (--st->left == 0)
                                        s.done();
                                },
                                s.dead};
                };
                // the other source first, then the original one
                sub(t, e.in[1], side(1));
                sub(t, e.in[0], side(0));
                return;
            }
            default: return;
            }
        }

        // -------------------------------------------------------------- real
        Obs make(const Ex& e)
        {
            namespace so = rpp::source;
            namespace op = rpp::ops;
            switch (e.t)
            {
            case X::Iter:
            case X::IterImm: {
                std::vector<Val> v;
                for (int x : e.vals)
                    v.emplace_back(x);
                if (e.t == X::IterImm)
                    return so::from_iterable(v, rs::immediate{}).as_dynamic();
                if (v.size() == 2 && e.n == 0 && e.vals[0] % 2)
                    return so::just(v[0], v[1]).as_dynamic();
                return so::from_iterable(v).as_dynamic();
            }
            case X::Map: return (make(e.in[0]) | op::map([](const Val& v) { return Val{v.get() + 1}; })).as_dynamic();
            case X::Take: return (make(e.in[0]) | op::take(size_t(e.n))).as_dynamic();
            case X::Merge:
                if (e.in.size() == 2)
                    return (make(e.in[0]) | op::merge_with(make(e.in[1]))).as_dynamic();
                if (e.in.size() == 3)
                    return (make(e.in[0]) | op::merge_with(make(e.in[1]), make(e.in[2]))).as_dynamic();
                return (make(e.in[0]) | op::merge_with(make(e.in[1]), make(e.in[2]), make(e.in[3]))).as_dynamic();
            case X::Flat:
            case X::FlatImm: {
                auto many = [n = e.n](const Val& v) {
                    std::vector<Val> c;
                    for (int k = 0; k < n; ++k)
                        c.emplace_back((v.get() * 10 + k) % 9973);
                    return c;
                };
                if (e.t == X::FlatImm)
                    return (make(e.in[0]) | op::flat_map([many](const Val& v) { return so::from_iterable(many(v), rs::immediate{}); })).as_dynamic();
                return (make(e.in[0]) | op::flat_map([many](const Val& v) { return so::from_iterable(many(v)); })).as_dynamic();
            }
            case X::Concat:
                if (e.in.size() == 2)
                    return so::concat(make(e.in[0]), make(e.in[1])).as_dynamic();
                return so::concat(make(e.in[0]), make(e.in[1]), make(e.in[2])).as_dynamic();
            case X::Repeat: return (make(e.in[0]) | op::repeat(size_t(e.n))).as_dynamic();
            case X::StartWith: return (make(e.in[0]) | op::start_with(make(e.in[1]))).as_dynamic();
            default: return (make(e.in[0]) | op::zip([](const Val& a, const Val& b) { return Val{(a.get() * 31 + b.get()) % 9973}; }, make(e.in[1]))).as_dynamic();
            }
        }

        Ex gen(vh::Rng& r, int depth, int& val, int len)
        {
            Ex e{};
            if (depth == 0 || r.chance(1, 5))
            {
                e.t = r.chance(1, 5) ? X::IterImm : X::Iter;
                for (int k = r.range(0, len); k > 0; --k)
                    e.vals.push_back(++val % 90 + 10);
                return e;
            }
            e.t   = X(2 + r.below(int(X::N) - 2));
            int k = 1;
            switch (e.t)
            {
            case X::Merge: k = r.range(2, 4); break;
            case X::Concat: k = r.range(2, 3); break;
            case X::Flat:
            case X::FlatImm: e.n = r.range(1, 3); break;
            case X::Take: e.n = r.range(1, 8); break;
            case X::Repeat: e.n = r.range(1, 3); break;
            case X::StartWith:
            case X::Zip: k = 2; break;
            default: break;
            }
            for (; k > 0; --k)
                e.in.push_back(gen(r, depth - 1, val, len));
            return e;
        }

        __attribute__((noinline)) char* frame() { return static_cast<char*>(__builtin_frame_address(0)); }

        // stack used at delivery, relative to the caller
        template<typename O>
        std::pair<long, long> extent(const O& o)
        {
            char* base = frame();
            long  max = 0, n = 0;
            o.subscribe([&](const auto&) {
                max = std::max(max, long(base - frame()));
                ++n;
            });
            return {max, n};
        }
        void deep(vh::Rng& r)
        {
            const int shape = r.below(8);
            const int big   = r.range(300, 2500);
            auto      build = [&](int n) -> Obs {
                std::vector<Val> v(static_cast<size_t>(n), Val{1});
                namespace so = rpp::source;
                namespace op = rpp::ops;
                switch (shape)
                {
                case 0: return so::from_iterable(v).as_dynamic();
                case 1: return (so::from_iterable(v) | op::merge_with(so::from_iterable(v))).as_dynamic();
                case 2: return (so::from_iterable(v) | op::flat_map([](const Val& x) { return so::just(x); })).as_dynamic();
                case 3: return (so::just(Val{1}) | op::repeat(size_t(n))).as_dynamic();
                case 4: return (so::from_iterable(v) | op::map([](const Val& x) { return so::just(x, x); }) | op::concat()).as_dynamic();
                case 5: return (so::from_iterable(v) | op::observe_on(rs::current_thread{})).as_dynamic();
                case 6: return (so::from_iterable(v) | op::subscribe_on(rs::current_thread{}) | op::zip([](const Val& a, const Val&) { return a; }, so::from_iterable(v))).as_dynamic();
                default: return (so::from_iterable(v) | op::map([](const Val& x) { return so::just(x); }) | op::switch_on_next()).as_dynamic();
                }
            };
            const auto a = extent(build(20)), b = extent(build(big));
            const auto what = vh::fmt("deep shape %d length %d: stack %ld bytes after 20 items, %ld after %ld", shape, big, a.first, b.first, b.second);
            if (b.second < 1 || b.first > a.first + 2048)
                failp("P18", "stack:shape" + std::to_string(shape), what);
            Log l;
            l.add("deep" + std::to_string(shape) + ":" + std::to_string(b.second));
            observe(vh::fmt("deep shape %d length %d", shape, big), l);
        }
        // each task schedules the next: never inside of one another
        void chain(vh::Rng& r)
        {
            const int n      = r.range(50, 1500);
            const int fan    = r.range(1, 3);
            int       depth = 0, max_depth = 0, ran = 0, made = 0;
            char*     base      = frame();
            long      max_stack = 0;
            std::vector<int> order;
            const auto w = rs::current_thread::create_worker();
            std::function<void()> put = [&] {
                const int id = made++;
                auto      h  = rpp::make_lambda_observer<int>([](int) {}).as_dynamic();
                w.schedule([&, id](const auto&) -> rs::optional_delay_from_now {
                    max_depth = std::max(max_depth, ++depth);
                    max_stack = std::max(max_stack, long(base - frame()));
                    order.push_back(id);
                    ++ran;
                    for (int k = 0; k < fan && made < n; ++k)
                        put();
                    --depth;
                    return std::nullopt;
                },
                           h);
            };
            put();
            const auto what = vh::fmt("chain of %d tasks, fan-out %d", n, fan);
            if (ran != made)
                failp("P18", "returned-early", vh::fmt("%d of %d tasks had run when the outermost call returned || ", ran, made) + what);
            if (max_depth != 1)
                failp("P18", "nested-run", vh::fmt("tasks were nested %d deep || ", max_depth) + what);
            if (max_stack > 64 * 1024)
                failp("P18", "stack:chain", vh::fmt("stack grew by %ld bytes || ", max_stack) + what);
            for (size_t i = 0; i < order.size(); ++i)
                if (order[i] != int(i))
                {
                    failp("P18", "chain-order", "tasks of equal time did not run first in, first out || " + what);
                    break;
                }
            Log l;
            l.add("ran" + std::to_string(ran));
            observe(what, l);
        }
    } // namespace

    void case_p18(vh::Rng& r)
    {
        const int w = r.below(300);
        if (w <= 1)
            return deep(r);
        if (w == 2)
            return chain(r);
        const long tok0 = Tok::live.load(), val0 = Val::live.load();
        int        val  = r.below(50);
        const Ex   e    = gen(r, r.range(1, 4), val, r.range(1, 6));
        std::ostringstream os;
        e.str(os);
        const int  nested  = r.below(3); // 1: subscribed inside of a task, 2: two subscriptions inside of a task
        const auto what    = os.str() + (nested ? " nested" + std::to_string(nested) : "");
        Log        model, real;
        {
            Tramp t;
            auto  one = [&](int id) {
                auto dead = std::make_shared<bool>(false);
                sub(t, e, {[&, id](int v) { model.add(std::to_string(id) + "n" + std::to_string(v)); }, [&, id, dead] { model.add(std::to_string(id) + "c"); *dead = true; }, [dead] { return *dead; }});
            };
            if (!nested)
                one(0);
            else
                t.put([&] {
                    for (int k = 0; k < nested; ++k)
                        one(k);
                    model.add("task-end");
                    return false;
                });
            model.add("end");
        }
        if (model.v.size() > 3000)
            return;
        {
            const Obs o   = make(e);
            auto      one = [&](int id) {
                o.subscribe([&, id](const Val& v) { real.add(std::to_string(id) + "n" + std::to_string(v.get())); },
                            [&, id](const std::exception_ptr&) { real.add(std::to_string(id) + "e"); },
                            [&, id] { real.add(std::to_string(id) + "c"); });
            };
            if (!nested)
                one(0);
            else
                rs::current_thread::create_worker().schedule([&](const auto&) -> rs::optional_delay_from_now {
                    for (int k = 0; k < nested; ++k)
                        one(k);
                    real.add("task-end");
                    return std::nullopt;
                },
                                                             rpp::make_lambda_observer<int>([](int) {}).as_dynamic());
            real.add("end");
        }
        compare("P18", "interleaving", what, model, real);
        observe(what, real);
        if (Tok::live.load() != tok0 || Val::live.load() != val0)
            failp("P08", "leak:trampoline", vh::fmt("%ld values alive || ", Val::live.load() - val0) + what);
    }
} // namespace sc
