// Random webs of operators over real subjects: several threads emit, subscribers
// join, leave from outside and from inside their callbacks, nodes are shared. Every
// call must return (the hang watchdog), no subscriber may be entered twice at once,
// and once everybody left nothing of the web may stay alive.
#include "conc.hpp"

namespace cc
{
    namespace
    {
        using Pub  = rpp::subjects::publish_subject<Val>;
        using SPub = rpp::subjects::serialized_publish_subject<Val>;
        using SBeh = rpp::subjects::serialized_behavior_subject<Val>;
        using SRep = rpp::subjects::serialized_replay_subject<Val>;

        struct Feed
        {
            Obs                   obs;
            std::shared_ptr<Dobs> in;
            bool                  serialized; // several threads may emit
            bool                  plain;      // emits nothing while being subscribed
        };
        template<typename S>
        Feed feed_of(const S& s, bool serialized, bool plain)
        {
            return {s.get_observable().as_dynamic(), std::make_shared<Dobs>(s.get_observer().as_dynamic()), serialized, plain};
        }

        struct Web
        {
            Ctx&                              c;
            std::vector<Feed>                 feeds{};
            std::shared_ptr<std::vector<Obs>> inners = std::make_shared<std::vector<Obs>>(); // observables used as inner ones
            std::vector<Obs>                  made{};
            Obs                               notifier = rpp::source::never<Val>().as_dynamic(); // asynchronous, or retry_when would never come to rest
            bool                              timed{false};

            int below(int n) { return c.r.below(n); }
            Obs inner() { return inners->at(size_t(below(int(inners->size())))); }
            Obs leaf()
            {
                const int i = below(int(feeds.size()));
                c.desc += vh::fmt("f%d", i);
                return feeds[size_t(i)].obs;
            }
            Obs node(int depth)
            {
                if (depth <= 0)
                    return leaf();
                if (!made.empty() && c.r.chance(1, 4))
                {
                    const int i = below(int(made.size()));
                    c.desc += vh::fmt("@%d", i);
                    return made[size_t(i)];
                }
                Obs o = op(depth);
                if (c.r.chance(1, 4))
                {
                    c.desc += ".share";
                    o = (o | rpp::ops::publish() | rpp::ops::ref_count()).as_dynamic();
                }
                if (c.r.chance(1, 2))
                    made.push_back(o);
                return o;
            }
            void open(const char* n)
            {
                c.desc += n;
                c.desc += '(';
            }
            Obs close(Obs o)
            {
                c.desc += ')';
                return o;
            }
            Obs op(int d)
            {
                const auto sum = [](const Val& a, const Val& b) { return Val{(a.get() * 7 + b.get()) % 5000}; };
                const auto pick = [in = inners](const Val& v) { return in->at(size_t(v.get()) % in->size()); };
                const auto pickn = [n = notifier](const std::exception_ptr&) { return n; };
                switch (below(timed ? 24 : 19))
                {
                case 0:
                case 1: {
                    open("merge");
                    auto a = node(d - 1), b = node(d - 1);
                    return close((a | rpp::ops::merge_with(b)).as_dynamic());
                }
                case 2: {
                    open("merge3");
                    auto a = node(d - 1), b = node(d - 1), e = node(d - 1);
                    return close((a | rpp::ops::merge_with(b, e)).as_dynamic());
                }
                case 3: {
                    open("zip");
                    auto a = node(d - 1), b = node(d - 1);
                    return close((a | rpp::ops::zip(sum, b)).as_dynamic());
                }
                case 4: {
                    open("latest");
                    auto a = node(d - 1), b = node(d - 1);
                    return close((a | rpp::ops::combine_latest(sum, b)).as_dynamic());
                }
                case 5: {
                    open("wlf");
                    auto a = node(d - 1), b = node(d - 1);
                    return close((a | rpp::ops::with_latest_from(sum, b)).as_dynamic());
                }
                case 6:
                case 7: {
                    open("until");
                    auto a = node(d - 1), b = node(d - 1);
                    return close((a | rpp::ops::take_until(b)).as_dynamic());
                }
                case 8: {
                    open("take");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::take(size_t(c.r.range(1, 4)))).as_dynamic());
                }
                case 9:
                case 10: {
                    open("flat_map");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::flat_map(pick)).as_dynamic());
                }
                case 11: {
                    open("switch");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::map(pick) | rpp::ops::switch_on_next()).as_dynamic());
                }
                case 12: {
                    open("concat_map");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::map(pick) | rpp::ops::concat()).as_dynamic());
                }
                case 13: {
                    open("retry_when");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::retry_when(pickn)).as_dynamic());
                }
                case 14: {
                    open("resume");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::on_error_resume_next(pickn)).as_dynamic());
                }
                case 15: {
                    open("retry1");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::retry(1)).as_dynamic());
                }
                case 16: {
                    open("repeat2");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::repeat(2)).as_dynamic());
                }
                case 17: {
                    open("toggle");
                    auto a = node(d - 1), b = inner();
                    return close((a | rpp::ops::window_toggle(b, pick) | rpp::ops::merge()).as_dynamic());
                }
                case 18: {
                    open("group_by");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::group_by([](const Val& v) { return v.get() % 2; }) | rpp::ops::merge()).as_dynamic());
                }
                case 19: {
                    open("timeout");
                    auto a = node(d - 1);
                    auto b = inner();
                    return close((a | rpp::ops::timeout(std::chrono::microseconds{c.r.range(100, 1500)}, b, rpp::schedulers::new_thread{})).as_dynamic());
                }
                case 20: {
                    open("debounce");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::debounce(std::chrono::microseconds{c.r.range(50, 800)}, rpp::schedulers::new_thread{})).as_dynamic());
                }
                case 21: {
                    open("delay");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::delay(std::chrono::microseconds{c.r.range(50, 800)}, rpp::schedulers::new_thread{})).as_dynamic());
                }
                case 22: {
                    open("observe");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::observe_on(rpp::schedulers::new_thread{})).as_dynamic());
                }
                default: {
                    open("sub_on");
                    auto a = node(d - 1);
                    return close((a | rpp::ops::subscribe_on(rpp::schedulers::new_thread{})).as_dynamic());
                }
                }
            }
        };

        struct Seat
        {
            MonP                               m;
            rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
        };
        void sit(const Obs& o, Seat& s, int leave_at)
        {
            auto left = std::make_shared<int>(leave_at);
            auto d    = s.d;
            auto go   = [left, d] {
                if (--*left == 0)
                    d.dispose();
            };
            auto m = s.m;
            o.subscribe(
                s.d, [m, go](const Val& v) {
                    const auto i = m->enter('n', v.get());
                    go();
                    m->leave(i, 'n'); },
                [m, go](const std::exception_ptr& e) {
                    const auto i = m->enter('e', code_of(e));
                    go();
                    m->leave(i, 'e'); },
                [m, go]() {
                    const auto i = m->enter('c', 0);
                    go();
                    m->leave(i, 'c'); });
        }

        void web(Ctx& c, bool timed)
        {
            std::deque<Seat>   seats;
            std::deque<Src>    src;
            {
                Web w{c};
                w.timed     = timed;
                const int k = c.r.range(2, 4);
                for (int i = 0; i < k; ++i)
                {
                    switch (c.r.below(6))
                    {
                    case 0: w.feeds.push_back(feed_of(SPub{}, true, true)); break;
                    case 1: w.feeds.push_back(feed_of(SBeh{Val{i}}, true, false)); break;
                    case 2: w.feeds.push_back(feed_of(SRep{}, true, false)); break;
                    default: w.feeds.push_back(feed_of(Pub{}, false, true)); break;
                    }
                    w.inners->push_back(w.feeds.back().obs);
                    if (w.feeds.back().plain)
                        w.notifier = w.feeds.back().obs;
                }
                if (c.r.chance(1, 4))
                    w.inners->push_back(rpp::source::just(rpp::schedulers::immediate{}, Val{1}, Val{2}).as_dynamic());
                if (c.r.chance(1, 6))
                    w.inners->push_back(rpp::source::empty<Val>().as_dynamic());
                c.desc += " ";
                Obs       root  = w.node(c.r.range(2, 3));
                const int extra = c.r.below(3);
                seats.emplace_back();
                seats[0].m = mon("web", c.pause_mon);
                sit(root, seats[0], c.r.chance(1, 3) ? c.r.range(1, 6) : -1);
                Threads t;
                for (int i = 0; i < extra; ++i)
                {
                    auto& s        = seats.emplace_back();
                    s.m            = mon("web", c.pause_mon);
                    const Obs  o   = !w.made.empty() && c.r.chance(1, 2) ? w.made[size_t(c.r.below(int(w.made.size())))] : root;
                    const int  d1  = c.r.below(4);
                    const int  la  = c.r.chance(1, 2) ? c.r.range(1, 5) : -1;
                    if (c.r.chance(1, 2))
                        sit(o, s, la);
                    else
                        t.add([&s, o, d1, la] {
                            for (int j = 0; j < d1; ++j)
                                vi::pause(2);
                            sit(o, s, la);
                        });
                }
                for (auto& s : seats)
                    if (c.r.chance(1, 3))
                    {
                        const int d1 = c.r.below(6);
                        t.add([&s, d1] {
                            for (int j = 0; j < d1; ++j)
                                vi::pause(2);
                            s.d.dispose();
                        });
                    }
                int id = 0;
                for (auto& f : w.feeds)
                    for (int k2 = f.serialized && c.r.chance(1, 2) ? 2 : 1; k2 > 0; --k2)
                    {
                        auto&      x = src.emplace_back(id++);
                        const int  n = c.r.range(1, 6), p = c.pause_src;
                        const char e = c.r.chance(1, 4) ? 'e' : c.r.chance(1, 2) ? 'c' : '-';
                        t.add([&x, in = f.in, n, p, e] { x.play(*in, n, e, p); });
                    }
                if (vh::G().opt.verbose)
                    fprintf(stderr, "running %s\n", c.desc.c_str());
                t.run();
                for (auto& s : seats)
                    s.d.dispose();
            }
            // everybody left and the web is gone
            std::vector<const Src*> ss;
            for (auto& x : src)
                ss.push_back(&x);
            std::vector<MonP> ms;
            const auto        until = std::chrono::steady_clock::now() + std::chrono::seconds{5};
            for (auto& s : seats)
            {
                bool gone = false;
                while (!gone && std::chrono::steady_clock::now() < until)
                {
                    auto copy = s.m; // (orders this thread after the last release)
                    copy.reset();
                    gone = s.m.use_count() == 1;
                    if (!gone)
                        vi::relax();
                }
                if (!gone)
                    failp("P08", timed ? "retained:web-timed" : "retained:web", "everybody left and all handles are gone, but a subscriber is still held, in " + c.desc);
            }
            for (auto& s : seats)
                ms.push_back(s.m);
            for (auto& m : ms)
                m->check_grammar(c.desc);
            vh::count("webs completed");
            c.observe(ss, ms);
        }
        // A value travels round a loop: the subscriber's callback emits the next one into
        // the subject at the far end. One value is under way at a time, so every call has
        // to return and every value has to arrive. Operators that serialise several sources
        // appear only before a hop to another thread (they may hold their lock while they
        // call on).
        void sc_feedback(Ctx& c)
        {
            const Pub  subj;
            Obs        o    = subj.get_observable().as_dynamic();
            const int  n    = c.r.range(2, 9);
            bool       deep = false; // a hop to another thread follows
            std::string how;
            std::vector<int> ops;
            const int len = c.r.range(1, 4);
            for (int i = 0; i < len; ++i)
                ops.push_back(c.r.below(24));
            int last_hop = -1;
            for (int i = 0; i < len; ++i)
                if (ops[size_t(i)] < 6)
                    last_hop = i;
            const auto sum  = [](const Val& a, const Val&) { return a; };
            const Obs  quiet = rpp::source::never<Val>().as_dynamic();
            for (int i = 0; i < len; ++i)
            {
                const int us = c.r.range(0, 300);
                deep         = i < last_hop;
                switch (ops[size_t(i)])
                {
                case 0: how += ".observe_on(nt)", o = (o | rpp::ops::observe_on(rpp::schedulers::new_thread{})).as_dynamic(); break;
                case 1:
                case 2: how += ".delay(nt)", o = (o | rpp::ops::delay(std::chrono::microseconds{us}, rpp::schedulers::new_thread{})).as_dynamic(); break;
                case 3:
                case 4: how += ".debounce(nt)", o = (o | rpp::ops::debounce(std::chrono::microseconds{us}, rpp::schedulers::new_thread{})).as_dynamic(); break;
                case 5: how += ".observe_on(tp)", o = (o | rpp::ops::observe_on(rpp::schedulers::thread_pool{2})).as_dynamic(); break;
                case 6: how += ".observe_on(ct)", o = (o | rpp::ops::observe_on(rpp::schedulers::current_thread{})).as_dynamic(); break;
                case 7: how += ".observe_on(im)", o = (o | rpp::ops::observe_on(rpp::schedulers::immediate{})).as_dynamic(); break;
                case 8: how += ".delay(ct)", o = (o | rpp::ops::delay(std::chrono::microseconds{us}, rpp::schedulers::current_thread{})).as_dynamic(); break;
                case 9: how += ".delay(im)", o = (o | rpp::ops::delay(std::chrono::microseconds{us}, rpp::schedulers::immediate{})).as_dynamic(); break;
                case 10: how += ".map", o = (o | rpp::ops::map([](const Val& v) { return v; })).as_dynamic(); break;
                case 11: how += ".scan", o = (o | rpp::ops::scan([](const Val&, const Val& b) { return b; })).as_dynamic(); break;
                case 12: how += ".distinct", o = (o | rpp::ops::distinct_until_changed()).as_dynamic(); break;
                case 13: how += ".take", o = (o | rpp::ops::take(1000)).as_dynamic(); break;
                case 14: how += ".share", o = (o | rpp::ops::publish() | rpp::ops::ref_count()).as_dynamic(); break;
                case 15: how += ".finally", o = (o | rpp::ops::finally([]() noexcept {}) | rpp::ops::tap([](const Val&) {})).as_dynamic(); break;
                case 16: how += ".retry", o = (o | rpp::ops::retry(1)).as_dynamic(); break;
                case 17: how += ".start_with", o = (o | rpp::ops::start_with(Val{-1}) | rpp::ops::skip(1)).as_dynamic(); break;
                default:
                    if (!deep)
                        break;
                    switch (ops[size_t(i)])
                    {
                    case 18: how += ".merge", o = (o | rpp::ops::merge_with(rpp::source::empty<Val>())).as_dynamic(); break;
                    case 19: how += ".flat_map", o = (o | rpp::ops::flat_map([](const Val& v) { return rpp::source::just(rpp::schedulers::immediate{}, v); })).as_dynamic(); break;
                    case 20: how += ".wlf", o = (o | rpp::ops::with_latest_from(sum, quiet | rpp::ops::start_with(Val{0}))).as_dynamic(); break;
                    case 21: how += ".until", o = (o | rpp::ops::take_until(quiet)).as_dynamic(); break;
                    case 22: how += ".latest", o = (o | rpp::ops::combine_latest(sum, rpp::source::just(rpp::schedulers::immediate{}, Val{0}))).as_dynamic(); break;
                    default: how += ".group", o = (o | rpp::ops::group_by([](const Val& v) { return v.get() % 2; }) | rpp::ops::merge()).as_dynamic(); break;
                    }
                }
            }
            c.desc += how + vh::fmt(" n%d", n);
            if (vh::G().opt.verbose)
                fprintf(stderr, "running %s\n", c.desc.c_str());
            auto       m  = mon("feedback", 0);
            const auto me = std::this_thread::get_id();
            auto       calling = std::make_shared<std::atomic<bool>>(true); // the first call, made by this thread
            auto       in      = std::make_shared<Dobs>(subj.get_observer().as_dynamic());
            // debounce serialises its timer and its source: the end cannot come from inside
            const bool inside_terminal = how.find("debounce") == std::string::npos && c.r.chance(1, 2);
            o.subscribe(
                [=](const Val& v) {
                    const auto i = m->enter('n', v.get());
                    m->leave(i, 'n'); // (what follows may call this callback again)
                    while (std::this_thread::get_id() != me && calling->load())
                        vi::relax();
                    if (v.get() < n)
                        in->on_next(Val{v.get() + 1});
                    else if (inside_terminal)
                        in->on_completed(); },
                [=](const std::exception_ptr& e) { m->on('e', code_of(e)); },
                [=]() { m->on('c', 0); });
            in->on_next(Val{1});
            *calling = false;
            for (long k = 0; m->n_seen.load() < n; ++k)
            {
                vi::relax();
                if (vh::G().opt.verbose && k == 3000)
                    fprintf(stderr, "so far: %s\n", m->str().c_str());
            }
            if (!inside_terminal)
                in->on_completed();
            while (!m->ended())
                vi::relax();
            std::string want;
            for (int i = 1; i <= n; ++i)
                want += vh::fmt("%d ", i);
            if (m->str() != want + "| ")
                failp("P03", "feedback", "values sent round the loop one at a time arrived as " + m->str() + "in " + c.desc);
            vh::count("loops completed");
            vh::events(long(n) + 1);
            c.observe({}, {m});
        }
        void sc_web(Ctx& c) { web(c, false); }
        void sc_web_timed(Ctx& c) { web(c, true); }
    } // namespace
    std::vector<Entry> scenarios_g()
    {
        return {{"web", sc_web, "P29 P02 P08", 2}, {"web_timed", sc_web_timed, "P29 P02 P08", 1}, {"feedback", sc_feedback, "P29 P03 P16", 1}};
    }
} // namespace cc
