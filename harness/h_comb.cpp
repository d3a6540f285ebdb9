// P05 on histories: flattening and combining operators over hot sources that also act while
// they are being subscribed (emit, make other sources emit, end, make the subscriber leave),
// compared with a reference model, including which sources stay subscribed after each step.
#include "vh.hpp"

#include <rpp/rpp.hpp>

#include <deque>
#include <map>
#include <optional>
#include <sstream>

namespace
{
    namespace op = rpp::ops;
    namespace so = rpp::source;
    using Item   = long;
    using Obs    = rpp::dynamic_observable<Item>;

    enum Kind
    {
        Merge,
        FlatMap,
        Concat,
        Switch,
        MergeWith,
        Zip,
        CombineLatest,
        WithLatest,
        TakeUntil,
        ConcatFixed,
        NKINDS
    };
    const char* names[] = {"merge", "flat_map", "concat", "switch_on_next", "merge_with", "zip", "combine_latest", "with_latest_from", "take_until", "concat(fixed)"};
    bool        flattening(Kind k) { return k <= Switch; }

    constexpr Item DONE = -1, ERR = -10;

    enum ActKind
    {
        EmitSelf,
        EmitOther,
        EmitOuter, // the outer observable hands out another source
        EndSelf,
        FailSelf,
        Leave
    };
    struct Action
    {
        ActKind k;
        int     j;
    };
    enum OpKind
    {
        Emit,
        End,
        Fail,
        Outer,
        OuterEnd,
        OuterFail,
        MainLeaves
    };
    const char* op_names[] = {"emit", "end", "fail", "outer", "outer-end", "outer-fail", "leave"};
    struct Op
    {
        OpKind k;
        int    j;
    };
    struct Case
    {
        Kind            kind;
        int             n;         // sources
        int             leave_at;  // the subscriber leaves inside of this item
        uint64_t        seed;
        bool            calm;      // sources do nothing while being subscribed
        std::vector<Op> ops;

        std::vector<Action> plan(int j, int nth) const
        {
            std::vector<Action> p;
            uint64_t            h = vh::mix(vh::mix(seed, uint64_t(j)), uint64_t(nth));
            if (calm || h % 2)
                return p;
            for (uint64_t i = 0, m = (h >> 3) % 4; i < m; ++i)
            {
                h = vh::mix(h, i);
                if (nth < 4 && flattening(kind) && (h >> 20) % 8 == 0)
                    p.push_back({EmitOuter, int((h >> 9) % uint64_t(n))});
                else
                    p.push_back((h >> 5) % 2 ? Action{EmitSelf, 0} : Action{EmitOther, int((h >> 9) % uint64_t(n))});
            }
            h = vh::mix(h, 77);
            switch (h % 16)
            {
            case 0:
            case 1:
            case 2:
            case 3: p.push_back({EndSelf, 0}); break;
            case 4: p.push_back({FailSelf, 0}); break;
            case 5: p.push_back({Leave, 0}); break;
            default: break;
            }
            return p;
        }
        std::string text() const
        {
            std::ostringstream o;
            o << names[kind] << " of " << n << " seed " << (seed % 100000) << (calm ? " calm" : "") << " leaves at " << leave_at << ":";
            for (auto& x : ops)
                o << " " << op_names[x.k] << "(" << x.j << ")";
            return o.str();
        }
    };
    struct Outcome
    {
        std::vector<Item>             got;
        std::vector<std::vector<int>> live; // live subscriptions of each source after each step
    };

    // ---------------------------------------------------------------- model
    struct Model
    {
        const Case& c;
        Outcome     out;
        struct Sub
        {
            int  j, role;
            bool active;
        };
        std::deque<Sub>               subs;
        std::vector<std::vector<int>> hot;
        std::vector<int>              nth;
        long                          counter{0};
        bool                          dead{false}, outer{true};
        int                           items{0};
        // flattening
        int             inner{0}, last{-1};
        std::deque<int> queue;
        // combining
        std::vector<std::deque<Item>>    q;
        std::vector<std::optional<Item>> latest;
        int                              running{0};

        void kill()
        {
            dead = true;
            for (auto& s : subs)
                s.active = false;
        }
        void term(Item t)
        {
            if (dead)
                return;
            out.got.push_back(t);
            kill();
        }
        void down(Item v)
        {
            if (dead)
                return;
            out.got.push_back(v);
            if (++items == c.leave_at)
                kill();
        }
        void subscribe(int j, int role)
        {
            if (dead)
                return;
            const int s = int(subs.size());
            subs.push_back({j, role, true});
            if (c.kind == Switch)
                last = s;
            hot[size_t(j)].push_back(s);
            for (auto& a : c.plan(j, nth[size_t(j)]++))
                switch (a.k)
                {
                case EmitSelf: next(s, ++counter); break;
                case EmitOther: emit(a.j); break;
                case EmitOuter: outer_emits(a.j); break;
                case EndSelf: completed(s); break;
                case FailSelf: error(s); break;
                case Leave: kill(); break;
                }
        }
        void emit(int j)
        {
            const Item v    = ++counter;
            const auto list = hot[size_t(j)];
            for (int s : list)
                next(s, v);
        }
        void next(int s, Item v)
        {
            if (!subs[size_t(s)].active)
                return;
            const auto r = size_t(subs[size_t(s)].role);
            switch (c.kind)
            {
            case Zip:
            {
                q[r].push_back(v);
                Item x = 0;
                for (auto& d : q)
                    if (d.empty())
                        return;
                for (auto& d : q)
                {
                    x = x * 1000 + d.front();
                    d.pop_front();
                }
                down(x);
                break;
            }
            case CombineLatest:
            {
                latest[r] = v;
                Item x    = 0;
                for (auto& l : latest)
                {
                    if (!l)
                        return;
                    x = x * 1000 + *l;
                }
                down(x);
                break;
            }
            case WithLatest:
            {
                if (r != 0)
                {
                    latest[r] = v;
                    return;
                }
                Item x = v;
                for (size_t i = 1; i < latest.size(); ++i)
                {
                    if (!latest[i])
                        return;
                    x = x * 1000 + *latest[i];
                }
                down(x);
                break;
            }
            case TakeUntil:
                if (r != 0)
                    term(DONE);
                else
                    down(v);
                break;
            default: down(v);
            }
        }
        void completed(int s)
        {
            if (!subs[size_t(s)].active)
                return;
            subs[size_t(s)].active = false;
            const auto r           = subs[size_t(s)].role;
            switch (c.kind)
            {
            case Merge:
            case FlatMap:
                if (--inner == 0 && !outer)
                    term(DONE);
                break;
            case Switch:
                inner = 0;
                if (!outer)
                    term(DONE);
                break;
            case Concat:
                inner = 0;
                drain();
                break;
            case ConcatFixed:
                if (r + 1 < c.n)
                    subscribe(r + 1, r + 1);
                else
                    term(DONE);
                break;
            case MergeWith:
            case Zip:
            case CombineLatest:
                if (--running == 0)
                    term(DONE);
                break;
            case WithLatest:
                if (r == 0)
                    term(DONE);
                break;
            case TakeUntil: term(DONE); break;
            default: break;
            }
        }
        void error(int s)
        {
            if (subs[size_t(s)].active)
                term(ERR - subs[size_t(s)].j);
        }
        void drain()
        {
            while (!dead && !inner && !queue.empty())
            {
                const int j = queue.front();
                queue.pop_front();
                inner = 1;
                subscribe(j, 0);
            }
            if (!inner && queue.empty() && !outer)
                term(DONE);
        }
        void outer_emits(int j)
        {
            if (dead || !outer)
                return;
            if (c.kind == Concat)
            {
                queue.push_back(j);
                drain();
                return;
            }
            if (c.kind == Switch)
            {
                if (last >= 0)
                    subs[size_t(last)].active = false;
                inner = 1;
            }
            else
                ++inner;
            subscribe(j, 0);
        }
        void run()
        {
            hot.resize(size_t(c.n));
            nth.resize(size_t(c.n));
            q.resize(size_t(c.n));
            latest.resize(size_t(c.n));
            running = c.n;
            switch (c.kind)
            {
            case MergeWith:
                for (int j = 0; j < c.n; ++j)
                    subscribe(j, j);
                break;
            case Zip:
            case CombineLatest:
            case WithLatest:
            case TakeUntil:
                for (int j = 1; j < c.n; ++j)
                    subscribe(j, j);
                subscribe(0, 0);
                break;
            case ConcatFixed: subscribe(0, 0); break;
            default: break;
            }
            note();
            for (auto& o : c.ops)
            {
                switch (o.k)
                {
                case Emit: emit(o.j); break;
                case End:
                case Fail:
                {
                    const auto list = std::exchange(hot[size_t(o.j)], {});
                    for (int s : list)
                        o.k == End ? completed(s) : error(s);
                    break;
                }
                case Outer: outer_emits(o.j); break;
                case OuterEnd:
                    if (dead || !outer)
                        break;
                    outer = false;
                    if (!inner && queue.empty())
                        term(DONE);
                    break;
                case OuterFail:
                    if (!dead && outer)
                        term(ERR - 9);
                    break;
                case MainLeaves: kill(); break;
                }
                note();
            }
        }
        void note()
        {
            std::vector<int> n(size_t(c.n), 0);
            for (auto& s : subs)
                if (s.active)
                    ++n[size_t(s.j)];
            n.push_back(flattening(c.kind) && !dead && outer ? 1 : 0);
            out.live.push_back(n);
        }
    };

    // ----------------------------------------------------------------- real
    struct coded
    {
        int code;
    };
    Item code_of(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const coded& c)
        {
            return ERR - c.code;
        }
        catch (...)
        {
            return -1000;
        }
    }
    std::exception_ptr error(int c) { return std::make_exception_ptr(coded{c}); }

    struct Real
    {
        const Case& c;
        Outcome     out;
        using Dob = rpp::dynamic_observer<Item>;
        std::vector<std::vector<Dob>>                  hot;
        std::vector<int>                               nth;
        std::vector<Dob>                               all;
        std::vector<int>                               source_of;
        std::optional<rpp::dynamic_observer<Obs>>      outer;
        rpp::composite_disposable_wrapper              d = rpp::composite_disposable_wrapper::make();
        long                                           counter{0};
        int                                            items{0};

        Obs source(int j)
        {
            return so::create<Item>([this, j](auto&& o) {
                       if (o.is_disposed())
                           return; // nobody is interested: nothing happens
                       Dob dob = std::forward<decltype(o)>(o).as_dynamic();
                       hot[size_t(j)].push_back(dob);
                       all.push_back(dob);
                       source_of.push_back(j);
                       for (auto& a : c.plan(j, nth[size_t(j)]++))
                           switch (a.k)
                           {
                           case EmitSelf: dob.on_next(++counter); break;
                           case EmitOther: emit(a.j); break;
                           case EmitOuter: outer->on_next(source(a.j)); break;
                           case EndSelf: dob.on_completed(); break;
                           case FailSelf: dob.on_error(error(j)); break;
                           case Leave: d.dispose(); break;
                           }
                   })
                .as_dynamic();
        }
        void emit(int j)
        {
            const Item v    = ++counter;
            const auto list = hot[size_t(j)];
            for (auto& o : list)
                o.on_next(v);
        }
        template<typename O>
        void start(const O& o)
        {
            o.subscribe(
                d,
                [this](Item v) {
                    out.got.push_back(v);
                    vh::events(1);
                    if (++items == c.leave_at)
                        d.dispose();
                },
                [this](const std::exception_ptr& e) { out.got.push_back(code_of(e)); vh::events(1); },
                [this] { out.got.push_back(DONE); vh::events(1); });
        }
        void run()
        {
            hot.resize(size_t(c.n));
            nth.resize(size_t(c.n));
            auto outer_source = so::create<Obs>([this](auto&& o) { outer.emplace(std::forward<decltype(o)>(o).as_dynamic()); });
            auto fn2          = [](Item a, Item b) { return a * 1000 + b; };
            auto fn3          = [](Item a, Item b, Item x) { return (a * 1000 + b) * 1000 + x; };
            switch (c.kind)
            {
            case Merge: start(outer_source | op::merge()); break;
            case FlatMap: start(outer_source | op::flat_map([](Obs x) { return x; })); break;
            case Concat: start(outer_source | op::concat()); break;
            case Switch: start(outer_source | op::switch_on_next()); break;
            case MergeWith: c.n == 2 ? start(source(0) | op::merge_with(source(1))) : start(source(0) | op::merge_with(source(1), source(2))); break;
            case Zip: c.n == 2 ? start(source(0) | op::zip(fn2, source(1))) : start(source(0) | op::zip(fn3, source(1), source(2))); break;
            case CombineLatest: c.n == 2 ? start(source(0) | op::combine_latest(fn2, source(1))) : start(source(0) | op::combine_latest(fn3, source(1), source(2))); break;
            case WithLatest: c.n == 2 ? start(source(0) | op::with_latest_from(fn2, source(1))) : start(source(0) | op::with_latest_from(fn3, source(1), source(2))); break;
            case TakeUntil: start(source(0) | op::take_until(source(1))); break;
            default: c.n == 2 ? start(so::concat(source(0), source(1))) : start(so::concat(source(0), source(1), source(2))); break;
            }
            note();
            for (auto& o : c.ops)
            {
                switch (o.k)
                {
                case Emit: emit(o.j); break;
                case End:
                case Fail:
                {
                    const auto list = std::exchange(hot[size_t(o.j)], {});
                    for (auto& x : list)
                        o.k == End ? x.on_completed() : x.on_error(error(o.j));
                    break;
                }
                case Outer: outer->on_next(source(o.j)); break;
                case OuterEnd: outer->on_completed(); break;
                case OuterFail: outer->on_error(error(9)); break;
                case MainLeaves: d.dispose(); break;
                }
                note();
            }
        }
        void note()
        {
            std::vector<int> n(size_t(c.n), 0);
            for (size_t i = 0; i < all.size(); ++i)
                if (!all[i].is_disposed())
                    ++n[size_t(source_of[i])];
            n.push_back(outer && !outer->is_disposed() ? 1 : 0);
            out.live.push_back(n);
        }
    };

    std::string show(const std::vector<Item>& v)
    {
        std::ostringstream o;
        for (Item x : v)
            x == DONE ? o << " done" : x <= ERR ? o << " error" << (ERR - x) : o << " " << x;
        return o.str();
    }
    std::string show(const std::vector<int>& v)
    {
        std::ostringstream o;
        for (int x : v)
            o << " " << x;
        return o.str();
    }

    void one(vh::Rng& r)
    {
        Case c;
        c.kind     = Kind(r.below(NKINDS));
        c.n        = c.kind == TakeUntil ? 2 : r.range(2, 3);
        c.leave_at = r.chance(1, 4) ? r.range(1, 6) : 0;
        c.seed     = r.next();
        c.calm     = r.chance(1, 4);
        const int len = r.range(2, 24);
        for (int i = 0; i < len; ++i)
        {
            const int x = r.below(100), j = r.below(c.n);
            if (flattening(c.kind) && x < 30)
                c.ops.push_back({Outer, j});
            else if (x < 80)
                c.ops.push_back({Emit, j});
            else if (x < 93)
                c.ops.push_back({End, j});
            else if (x < 95)
                c.ops.push_back({Fail, j});
            else if (x < 98 && flattening(c.kind))
                c.ops.push_back({x == 97 && r.chance(1, 2) ? OuterFail : OuterEnd, 0});
            else if (x == 99)
                c.ops.push_back({MainLeaves, 0});
            else
                c.ops.push_back({Emit, j});
        }
        const auto text = c.text();
        Model      m{.c = c};
        m.run();
        Real real{.c = c};
        real.run();
        const std::string nm = names[c.kind];
        if (m.out.got != real.out.got)
            vh::fail(nm, "expected" + show(m.out.got) + ", got" + show(real.out.got) + " || " + text);
        for (size_t i = 0; i < m.out.live.size(); ++i)
            if (m.out.live[i] != real.out.live[i])
            {
                vh::fail(nm + ":subscribed", vh::fmt("after step %zu live subscriptions of the sources (the outer one last) expected", i) + show(m.out.live[i]) + ", seen" + show(real.out.live[i]) + " || " + text);
                break;
            }
        vh::count("subscriptions of sources", long(real.all.size()));
        uint64_t h = vh::mix(uint64_t(c.kind), uint64_t(c.n));
        for (Item x : real.out.got)
            h = vh::mix(h, uint64_t(x));
        for (auto& l : real.out.live)
            for (int x : l)
                h = vh::mix(h, uint64_t(x));
        vh::sig(h);
        vh::sample(text);
    }
} // namespace

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](vh::Rng& r, long) { one(r); });
}
