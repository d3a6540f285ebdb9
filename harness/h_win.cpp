// P06 on histories: windows, toggled windows and groups whose outer and inner subscribers
// come late, leave early (also from inside of callbacks) and outlive each other, compared
// with a reference model; the upstream lives exactly as long as somebody is interested.
#include "val.hpp"

#include <rpp/rpp.hpp>

#include <deque>
#include <map>
#include <optional>
#include <set>
#include <sstream>

namespace
{
    namespace op = rpp::ops;
    namespace so = rpp::source;

    enum Kind
    {
        Window,
        Group,
        Toggle
    };
    // what a consumer logs: items as they are (>= 0), terminal events below
    constexpr int DONE = -1, ERR = -10; // ERR - code

    enum Act
    {
        Nothing,
        LeaveSelf,
        LeaveOuter,
        Join,
        LeaveNext
    };
    struct SubPlan
    {
        int at, act; // at the at-th item; at == 0: at the terminal event
    };
    struct OuterPlan
    {
        int subs, leave; // leave: 1 before and 2 after subscribing
    };
    enum OpKind
    {
        Item,
        Complete,
        Error,
        OuterLeaves,
        JoinWin,
        SubLeaves,
        Open,
        OpenComplete,
        OpenError,
        CloseItem,
        CloseComplete,
        CloseError
    };
    const char* op_names[] = {"item", "complete", "error", "outer-leaves", "join", "sub-leaves", "open", "openings-complete", "openings-error", "close", "close-by-completion", "closing-error"};
    struct Op
    {
        OpKind k;
        int    a;
    };

    struct Case
    {
        Kind            kind;
        int             n; // size or number of keys
        uint64_t        seed;
        int             gentle; // 1: nobody acts from inside of callbacks
        std::vector<Op> ops;

        uint64_t h(int a, int b, int c) const { return vh::mix(vh::mix(vh::mix(seed, uint64_t(a)), uint64_t(b)), uint64_t(c)); }
        SubPlan  sub(int w, int k) const
        {
            if (gentle || h(w, k, 1) % 3)
                return {-1, Nothing};
            static const int acts[] = {LeaveSelf, LeaveSelf, LeaveOuter, Join, LeaveNext};
            const int        at     = int(h(w, k, 2) % 4);
            return {at, at == 0 ? int(LeaveOuter) : acts[h(w, k, 3) % 5]};
        }
        OuterPlan outer(int w) const
        {
            const int leave = gentle ? 0 : int(h(w, 0, 4) % 12);
            return {int(h(w, 0, 5) % 4), leave > 2 ? 0 : leave};
        }
        int closing(int w) const // 0 subject 1 just 2 empty 3 error
        {
            const int x = int(h(w, 0, 6) % 16);
            return x < 12 ? 0 : x < 14 ? 1 : x == 14 ? 2 : (h(w, 0, 7) % 4 ? 0 : 3);
        }
        int  key(int v) const { return v % n; }
        auto text() const
        {
            std::ostringstream o;
            o << (kind == Window ? "window " : kind == Group ? "group_by mod " : "window_toggle ") << n << " seed " << (seed % 100000) << (gentle ? " gentle" : "") << ":";
            for (auto& x : ops)
                o << " " << op_names[x.k] << "(" << x.a << ")";
            return o.str();
        }
    };

    struct Log
    {
        int              w, k;
        bool             late{false}; // joined when its window was over: may at most see how it ended
        std::vector<int> got;
    };
    struct Outcome
    {
        std::vector<int>   outer; // ids of windows (keys of groups in a parallel list), then terminal
        std::vector<int>   keys;
        std::deque<Log>    subs;
        std::vector<bool>  alive; // upstream after every operation
        bool               outer_last{true};
    };

    // ---------------------------------------------------------------- model
    struct Model
    {
        const Case& c;
        Outcome     out;
        struct S
        {
            int  w, k, at{0}, log;
            bool active;
        };
        struct W
        {
            bool             open{true}, seen{true};
            std::vector<int> subs;
            int              joined{0};
        };
        std::deque<S>   subs;
        std::map<int, W> wins;
        std::map<int, int> groups; // key -> id
        bool            outer{true}, dead{false}, openings{true};
        int             refs{1}, next_id{0}, cur{-1}, cnt{0};

        bool over() const { return dead; }
        void unref()
        {
            if (--refs == 0)
                dead = true;
        }
        void leave_outer()
        {
            if (!outer)
                return;
            outer = false;
            unref();
        }
        void leave(int s)
        {
            if (!subs[size_t(s)].active)
                return;
            subs[size_t(s)].active = false;
            unref();
        }
        void join(int w)
        {
            const auto it = wins.find(w);
            if (it == wins.end() || !it->second.seen)
                return;
            auto& win = it->second;
            const bool ok = !dead && win.open;
            subs.push_back({w, win.joined, 0, int(out.subs.size()), ok});
            out.subs.push_back({w, win.joined, !ok, {}});
            ++win.joined;
            win.subs.push_back(int(subs.size()) - 1);
            if (ok)
                ++refs;
        }
        void act(int s, int a)
        {
            switch (a)
            {
            case LeaveSelf: leave(s); break;
            case LeaveOuter: leave_outer(); break;
            case Join: join(subs[size_t(s)].w); break;
            case LeaveNext:
            {
                const auto list = wins[subs[size_t(s)].w].subs;
                for (size_t i = 0; i + 1 < list.size(); ++i)
                    if (list[i] == s)
                        leave(list[i + 1]);
                break;
            }
            default: break;
            }
        }
        void deliver(int w, int v)
        {
            if (dead)
                return;
            const auto list = wins[w].subs;
            for (int s : list)
            {
                if (!subs[size_t(s)].active)
                    continue;
                out.subs[size_t(subs[size_t(s)].log)].got.push_back(v);
                const auto p = c.sub(w, subs[size_t(s)].k);
                if (++subs[size_t(s)].at == p.at)
                    act(s, p.act);
            }
        }
        void terminal(int w, int t)
        {
            auto& win = wins[w];
            if (!win.open || dead)
                return;
            win.open        = false;
            const auto list = win.subs;
            for (int s : list)
            {
                if (!subs[size_t(s)].active)
                    continue;
                out.subs[size_t(subs[size_t(s)].log)].got.push_back(t);
                const auto p = c.sub(w, subs[size_t(s)].k);
                if (p.at == 0)
                    act(s, p.act);
                leave(s);
            }
        }
        void announce(int id, int key)
        {
            wins[id].seen = outer;
            if (!outer)
                return;
            out.outer.push_back(id);
            out.keys.push_back(key);
            const auto p = c.outer(id);
            if (p.leave == 1)
                leave_outer();
            for (int i = 0; i < p.subs; ++i)
                join(id);
            if (p.leave == 2)
                leave_outer();
        }
        void end(int t)
        {
            if (dead)
                return;
            std::vector<int> open;
            for (auto& [id, w] : wins)
                if (w.open)
                    open.push_back(id);
            for (int id : open)
                terminal(id, t);
            if (outer)
            {
                out.outer.push_back(t);
                leave_outer();
            }
            dead = true;
        }
        void item(int v)
        {
            if (dead)
                return;
            switch (c.kind)
            {
            case Window:
                if (cur < 0)
                {
                    cur = next_id++;
                    cnt = 0;
                    announce(cur, 0);
                }
                deliver(cur, v);
                if (++cnt == c.n)
                {
                    terminal(cur, DONE);
                    cur = -1;
                }
                break;
            case Group:
            {
                auto it = groups.find(c.key(v));
                if (it == groups.end())
                {
                    if (!outer)
                        return;
                    const int id = next_id++;
                    it           = groups.emplace(c.key(v), id).first;
                    announce(id, c.key(v));
                }
                deliver(it->second, v);
                break;
            }
            default:
            {
                for (auto& id : all_open())
                    if (wins[id].open)
                        deliver(id, v);
                break;
            }
            }
        }
        std::vector<int> all_open() const
        {
            std::vector<int> r;
            for (auto& [id, w] : wins)
                if (w.open)
                    r.push_back(id);
            return r;
        }
        void open(int id)
        {
            if (dead || !openings)
                return;
            announce(id, 0);
            if (dead)
                return;
            switch (c.closing(id))
            {
            case 1:
            case 2: terminal(id, DONE); break;
            case 3: end(ERR - 4); break;
            default: break;
            }
        }
        void run()
        {
            int opened = 0;
            for (auto& o : c.ops)
            {
                switch (o.k)
                {
                case Item: item(o.a); break;
                case Complete: end(DONE); break;
                case Error: end(ERR - 1); break;
                case OuterLeaves: leave_outer(); break;
                case JoinWin: join(o.a); break;
                case SubLeaves:
                    if (size_t(o.a) < subs.size())
                        leave(o.a);
                    break;
                case Open: open(opened++); break;
                case OpenComplete: openings = false; break;
                case OpenError:
                    if (openings)
                        end(ERR - 3);
                    openings = false;
                    break;
                default:
                    if (!dead && wins.count(o.a) && wins[o.a].open && c.closing(o.a) == 0)
                    {
                        if (o.k == CloseError)
                            end(ERR - 2);
                        else
                            terminal(o.a, DONE);
                    }
                }
                out.alive.push_back(!dead);
            }
        }
    };

    // ----------------------------------------------------------------- real
    struct coded
    {
        int code;
    };
    int code_of(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const coded& c)
        {
            return ERR - c.code;
        }
        catch (...)
        {
            return -1000;
        }
    }
    std::exception_ptr error(int c) { return std::make_exception_ptr(coded{c}); }

    struct Real
    {
        const Case& c;
        Outcome     out;
        using Inner = rpp::dynamic_observable<Val>;
        struct S
        {
            int                               w, k, at{0};
            rpp::composite_disposable_wrapper d;
        };
        std::deque<S>                                           subs;
        std::map<int, Inner>                                    wins;
        std::map<int, std::vector<int>>                         of_win;
        std::map<int, rpp::subjects::publish_subject<int>>      closings;
        rpp::composite_disposable_wrapper                       outer_d = rpp::composite_disposable_wrapper::make();
        std::optional<rpp::dynamic_observer<Val>>               up;
        std::optional<rpp::dynamic_observer<int>>               openings;
        int                                                     next_id{0}, opening{-1};
        bool                                                    outer_over{false};

        void join(int w)
        {
            const auto it = wins.find(w);
            if (it == wins.end())
                return;
            const int s = int(subs.size()), k = int(of_win[w].size());
            subs.push_back({w, k, 0, rpp::composite_disposable_wrapper::make()});
            out.subs.push_back({w, k, false, {}});
            of_win[w].push_back(s);
            const auto p = c.sub(w, k);
            auto       terminal = [this, s, p, joined_after = outer_over](int t) {
                out.subs[size_t(s)].got.push_back(t);
                if (outer_over && !joined_after)
                    out.outer_last = false;
                vh::events(1);
                if (p.at == 0)
                    act(s, p.act);
            };
            const auto inner = it->second;
            inner.subscribe(
                subs[size_t(s)].d,
                [this, s, p](const Val& v) {
                    out.subs[size_t(s)].got.push_back(v.get());
                    vh::events(1);
                    if (++subs[size_t(s)].at == p.at)
                        act(s, p.act);
                },
                [terminal](const std::exception_ptr& e) { terminal(code_of(e)); },
                [terminal] { terminal(DONE); });
        }
        void act(int s, int a)
        {
            switch (a)
            {
            case LeaveSelf: subs[size_t(s)].d.dispose(); break;
            case LeaveOuter: outer_d.dispose(); break;
            case Join: join(subs[size_t(s)].w); break;
            case LeaveNext:
            {
                const auto list = of_win[subs[size_t(s)].w];
                for (size_t i = 0; i + 1 < list.size(); ++i)
                    if (list[i] == s)
                        subs[size_t(list[i + 1])].d.dispose();
                break;
            }
            default: break;
            }
        }
        template<typename O>
        void announce(const O& o, int key)
        {
            const int id = c.kind == Toggle ? opening : next_id++;
            wins.emplace(id, o.as_dynamic());
            out.outer.push_back(id);
            out.keys.push_back(key);
            vh::events(1);
            const auto p = c.outer(id);
            if (p.leave == 1)
                outer_d.dispose();
            for (int i = 0; i < p.subs; ++i)
                join(id);
            if (p.leave == 2)
                outer_d.dispose();
        }
        template<typename O>
        void start(const O& o)
        {
            o.subscribe(
                outer_d,
                [this](const auto& w) {
                    if constexpr (requires { w.get_key(); })
                        announce(w, w.get_key());
                    else
                        announce(w, 0);
                },
                [this](const std::exception_ptr& e) { out.outer.push_back(code_of(e)); outer_over = true; },
                [this] { out.outer.push_back(DONE); outer_over = true; });
        }
        void run()
        {
            auto src = so::create<Val>([this](auto&& o) { up.emplace(std::forward<decltype(o)>(o).as_dynamic()); });
            switch (c.kind)
            {
            case Window: start(src | op::window(size_t(c.n))); break;
            case Group:
                switch (c.seed % 3)
                {
                case 0: start(src | op::group_by([this](const Val& v) { return c.key(v.get()); })); break;
                case 1: start(src | op::group_by([this](const Val& v) { return c.key(v.get()); }, [](Val v) { return v; })); break;
                default: start(src | op::group_by([this](const Val& v) { return c.key(v.get()); }, [](const Val& v) { return v; }, std::greater<int>{})); break;
                }
                break;
            default:
                start(src | op::window_toggle(so::create<int>([this](auto&& o) { openings.emplace(std::forward<decltype(o)>(o).as_dynamic()); }), [this](int id) -> rpp::dynamic_observable<int> {
                          switch (c.closing(id))
                          {
                          case 1: return so::just(rpp::schedulers::immediate{}, 1).as_dynamic();
                          case 2: return so::empty<int>().as_dynamic();
                          case 3: return so::error<int>(error(4)).as_dynamic();
                          default: return closings[id].get_observable().as_dynamic();
                          }
                      }));
            }
            int opened = 0;
            for (auto& o : c.ops)
            {
                switch (o.k)
                {
                case Item:
                    if (o.a % 2)
                        up->on_next(Val{o.a});
                    else
                    {
                        const Val v{o.a};
                        up->on_next(v);
                        if (v.get() != o.a)
                            vh::fail("item-modified", c.text());
                    }
                    break;
                case Complete: up->on_completed(); break;
                case Error: up->on_error(error(1)); break;
                case OuterLeaves: outer_d.dispose(); break;
                case JoinWin: join(o.a); break;
                case SubLeaves:
                    if (size_t(o.a) < subs.size())
                        subs[size_t(o.a)].d.dispose();
                    break;
                case Open:
                    opening = opened++;
                    openings->on_next(opening);
                    break;
                case OpenComplete: openings->on_completed(); break;
                case OpenError: openings->on_error(error(3)); break;
                default:
                    if (o.a >= opened)
                        break;
                    if (o.k == CloseItem)
                        closings[o.a].get_observer().on_next(1);
                    else if (o.k == CloseComplete)
                        closings[o.a].get_observer().on_completed();
                    else
                        closings[o.a].get_observer().on_error(error(2));
                }
                out.alive.push_back(!up->is_disposed());
                if (c.kind == Toggle && !openings->is_disposed() && up->is_disposed())
                    vh::fail("openings-kept", "nobody is interested any more, the openings are still subscribed || " + c.text());
            }
        }
    };

    std::string show(const std::vector<int>& v)
    {
        std::ostringstream o;
        for (int x : v)
            x == DONE ? o << " done" : x <= ERR ? o << " error" << (ERR - x) : o << " " << x;
        return o.str();
    }

    void one(vh::Rng& r)
    {
        Case c;
        c.kind   = Kind(r.below(3));
        c.n      = c.kind == Window ? r.range(1, 5) : r.range(1, 4);
        c.seed   = r.next();
        c.gentle = r.chance(1, 3);
        const int len   = r.range(3, 28);
        int       opens = 0, item = 1;
        const bool leaver = r.chance(1, 2);
        for (int i = 0; i < len; ++i)
        {
            const int x = r.below(100);
            if (c.kind == Toggle && x < 18)
                c.ops.push_back({Open, 0}), ++opens;
            else if (c.kind == Toggle && x < 30)
                c.ops.push_back({r.chance(1, 3) ? CloseComplete : CloseItem, r.below(std::max(1, opens))});
            else if (c.kind == Toggle && x < 32)
                c.ops.push_back({r.chance(1, 2) ? CloseError : r.chance(1, 2) ? OpenError : OpenComplete, r.below(std::max(1, opens))});
            else if (x < 80)
                c.ops.push_back({Item, item += r.range(1, 3)});
            else if (x < 87)
                c.ops.push_back({JoinWin, r.below(6)});
            else if (x < 94)
                c.ops.push_back({SubLeaves, r.below(8)});
            else if (x < 97 && leaver)
                c.ops.push_back({OuterLeaves, 0});
            else if (x >= 98)
                c.ops.push_back({r.chance(1, 3) ? Error : Complete, 0});
            else
                c.ops.push_back({Item, item += 1});
        }
        if (r.chance(2, 3))
            c.ops.push_back({r.chance(1, 4) ? Error : Complete, 0});
        const auto text = c.text();
        Model      m{.c = c};
        m.run();
        Real real{.c = c};
        real.run();
        auto& a = m.out;
        auto& b = real.out;
        if (a.outer != b.outer)
            vh::fail("outer", "outer subscriber expected" + show(a.outer) + ", got" + show(b.outer) + " || " + text);
        if (a.keys != b.keys)
            vh::fail("keys", "keys expected" + show(a.keys) + ", got" + show(b.keys) + " || " + text);
        if (!b.outer_last)
            vh::fail("outer-terminal-first", "an inner observable ended after the outer one had ended || " + text);
        std::map<std::pair<int, int>, const Log*> got;
        for (auto& s : b.subs)
            got[{s.w, s.k}] = &s;
        if (a.subs.size() != b.subs.size())
            vh::fail("subscribers", vh::fmt("%zu subscribers of inner observables expected, %zu seen || ", a.subs.size(), b.subs.size()) + text);
        int late = 0;
        for (auto& s : a.subs)
        {
            const auto it = got.find({s.w, s.k});
            if (it == got.end())
                continue;
            const auto& g = it->second->got;
            if (s.late)
            {
                ++late;
                if (g.size() > 1 || (g.size() == 1 && g[0] >= 0))
                    vh::fail("late", vh::fmt("subscriber %d.%d came after the end, got", s.w, s.k) + show(g) + " || " + text);
            }
            else if (g != s.got)
                vh::fail(c.kind == Window ? "window" : c.kind == Group ? "group" : "toggle", vh::fmt("subscriber %d.%d expected", s.w, s.k) + show(s.got) + ", got" + show(g) + " || " + text);
        }
        for (size_t i = 0; i < a.alive.size(); ++i)
            if (a.alive[i] != b.alive[i])
            {
                vh::fail(a.alive[i] ? "upstream-lost" : "upstream-kept", vh::fmt("after operation %zu the source is %s || ", i, b.alive[i] ? "still subscribed while nobody is interested" : "given up while somebody is interested") + text);
                break;
            }
        vh::count("inner observables", long(a.keys.size()));
        vh::count("inner subscribers", long(a.subs.size()));
        vh::count("subscribers after the end", late);
        if (std::find(a.outer.begin(), a.outer.end(), DONE) == a.outer.end() && !a.alive.empty() && !a.alive.back())
            vh::count("ended by leaving");
        uint64_t h = vh::mix(uint64_t(c.kind), uint64_t(c.n));
        for (int x : b.outer)
            h = vh::mix(h, uint64_t(x));
        for (auto& s : b.subs)
        {
            h = vh::mix(h, uint64_t(s.w * 100 + s.k));
            for (int x : s.got)
                h = vh::mix(h, uint64_t(x));
        }
        vh::sig(h);
        vh::sample(text);
    }
} // namespace

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](vh::Rng& r, long) {
        const long live = Val::live.load();
        one(r);
        if (Val::live.load() != live)
            vh::fail("leak:values", vh::fmt("%ld items alive after the case", Val::live.load() - live));
    });
}
