// P25: observables of Qt signals against a model of who listens when, and the Qt main
// thread scheduler under several submitting threads.
#include "workers.hpp"

#include <QCoreApplication>
#include <QEventLoop>
#include <rppqt/rppqt.hpp>

#include "qt_sender.hpp"

namespace
{
    using namespace wk;
    using Main = rppqt::schedulers::main_thread_scheduler;

    // ------------------------------------------------------------------ signals
    // An observable of signal `kind`; an item is described by a string.
    constexpr int   KINDS         = 5;
    const char*     kind_names[] = {"none", "one", "two", "text", "one (base class signal)"};
    using Text                    = rpp::dynamic_observable<std::string>;

    template<typename T>
    Text signal_of(const T& s, int kind)
    {
        switch (kind)
        {
        case 0: return (rppqt::source::from_signal(s, &Sender::none) | rpp::ops::map([](rpp::utils::none) { return std::string{"-"}; })).as_dynamic();
        case 1: return (rppqt::source::from_signal(s, &Sender::one) | rpp::ops::map([](int v) { return std::to_string(v); })).as_dynamic();
        case 2: return (rppqt::source::from_signal(s, &Sender::two) | rpp::ops::map([](const std::tuple<int, std::string>& t) { return std::to_string(std::get<0>(t)) + "/" + std::get<1>(t); })).as_dynamic();
        case 3: return (rppqt::source::from_signal(s, &Sender::text) | rpp::ops::map([](const std::string& t) { return t; })).as_dynamic();
        default: return (rppqt::source::from_signal(static_cast<const Sender&>(s), &Sender::one) | rpp::ops::map([](int v) { return std::to_string(v); })).as_dynamic();
        }
    }

    struct Listener
    {
        int                                 src;
        std::vector<std::string>            got{}, want{};
        rpp::composite_disposable_wrapper   d = rpp::composite_disposable_wrapper::make();
        bool                                active{false};
        int                                 act{0}; // in the n-th item: 1 leave 2 new listener 3 another leaves 4 emit the other signal 5 fire again
        int                                 act_at{1};
        bool                                raw{false};
    };

    // what the scripts may do; also done from inside callbacks
    struct Script
    {
        vh::Rng&                               r;
        std::unique_ptr<Sender>                sender{};
        bool                                   sub_class{false};
        int                                    nsrc{0};
        std::vector<int>                       kinds{};
        std::vector<Text>                      srcs{};
        std::vector<int>                       gone{}; // sender destroyed
        std::deque<std::unique_ptr<Listener>>  ls{};
        std::string                            log{};
        int                                    counter{0};
        int                                    depth{0};

        explicit Script(vh::Rng& rng)
            : r{rng}
        {
        }
        void on_item(Listener& l, const std::string& v)
        {
            l.got.push_back(v);
            if (l.act && int(l.got.size()) == l.act_at)
            {
                const int a = std::exchange(l.act, 0);
                if (a == 1)
                    leave(l);
                else if (a == 2)
                    listen(l.src, 0);
                else if (a == 3)
                {
                    if (!ls.empty())
                        leave(*ls[size_t(l.got.size() * 7 % ls.size())]);
                }
                else if (a == 4 && sender)
                    sender->fire_other(1);
            }
        }
        void listen(int src, int act)
        {
            auto& l  = *ls.emplace_back(std::make_unique<Listener>());
            l.src    = src;
            l.act    = act;
            l.act_at = act ? r.range(1, 3) : 1;
            l.active = true;
            log += vh::fmt(" listen(%d,%d)", src, act);
            if (!sender)
                finished(l);
            srcs[size_t(src)].subscribe(l.d, [this, p = &l](const std::string& v) { on_item(*p, v); }, [p = &l](const std::exception_ptr&) { p->got.push_back("#"); }, [p = &l]() { p->got.push_back("|"); });
        }
        void leave(Listener& l)
        {
            log += " leave";
            l.active = false;
            l.d.dispose();
        }
        void finished(Listener& l)
        {
            if (std::exchange(l.active, false))
                l.want.push_back("|");
        }
        // those who listen when the signal is emitted get it, except ones that leave before their turn
        void fire(int kind)
        {
            const int                v = ++counter;
            const std::string        s = "s" + std::to_string(v);
            std::vector<Listener*>   now;
            std::vector<std::string> item(static_cast<size_t>(nsrc));
            log += vh::fmt(" fire(%d)", kind);
            for (int i = 0; i < nsrc; ++i)
            {
                const int k = kinds[size_t(i)] == 4 ? 1 : kinds[size_t(i)];
                if (k != kind)
                    continue;
                item[size_t(i)] = kind == 0 ? "-" : kind == 1 ? std::to_string(v)
                                                : kind == 2   ? std::to_string(v) + "/" + s
                                                              : s;
            }
            expected_of.clear();
            for (auto& l : ls)
                if (l->active && !item[size_t(l->src)].empty())
                    expected_of.push_back({l.get(), l->got.size(), item[size_t(l->src)]});
            const auto snapshot = expected_of;
            switch (kind)
            {
            case 0: sender->fire0(); break;
            case 1: sender->fire1(v); break;
            case 2: sender->fire2(v, s); break;
            default: sender->fire_text(s);
            }
            for (auto& e : snapshot)
            {
                // one that has left meanwhile may have been served before
                const bool served = e.l->got.size() > e.had;
                if (e.l->active || served)
                    e.l->want.push_back(e.item);
            }
        }
        struct Exp
        {
            Listener*   l;
            size_t      had;
            std::string item;
        };
        std::vector<Exp> expected_of{};
    };

    void scripts(vh::Rng& r)
    {
        Script s{r};
        s.sub_class = r.chance(1, 2);
        if (s.sub_class)
            s.sender = std::make_unique<SubSender>();
        else
            s.sender = std::make_unique<Sender>();
        s.nsrc = r.range(1, 3);
        for (int i = 0; i < s.nsrc; ++i)
        {
            s.kinds.push_back(r.below(KINDS));
            if (s.sub_class && s.kinds.back() != 4)
                s.srcs.push_back(signal_of(static_cast<const SubSender&>(*s.sender), s.kinds.back()));
            else
                s.srcs.push_back(signal_of(*s.sender, s.kinds.back()));
        }
        for (int k = r.range(2, 14); k > 0; --k)
        {
            switch (r.below(8))
            {
            case 0:
            case 1: s.listen(r.below(s.nsrc), r.chance(1, 3) ? r.range(1, 4) : 0); break;
            case 2:
                if (!s.ls.empty())
                    s.leave(*s.ls[size_t(r.below(int(s.ls.size())))]);
                break;
            case 3:
                if (s.sender && r.chance(1, 3))
                {
                    s.log += " destroy";
                    for (auto& l : s.ls)
                        s.finished(*l);
                    s.sender.reset();
                }
                break;
            case 4:
                if (r.chance(1, 4)) // the observable is not needed for those who listen
                {
                    s.log += " copy";
                    s.srcs[0] = Text{s.srcs[0]};
                }
                break;
            default:
                if (s.sender)
                    s.fire(r.chance(3, 4) ? (s.kinds[0] == 4 ? 1 : s.kinds[0]) : r.below(4));
            }
        }
        if (r.chance(1, 2) && s.sender)
        {
            s.log += " destroy";
            for (auto& l : s.ls)
                s.finished(*l);
            s.sender.reset();
        }
        std::string what = std::string(s.sub_class ? "subclass" : "class") + " kinds";
        for (int k : s.kinds)
            what += std::string(" ") + kind_names[k];
        what += " :" + s.log;
        uint64_t h = 3;
        long     n = 0;
        for (auto& l : s.ls)
        {
            std::string got, want;
            for (auto& v : l->got)
                got += v + " ";
            for (auto& v : l->want)
                want += v + " ";
            n += long(l->got.size());
            for (char ch : got)
                h = vh::mix(h, uint64_t(ch));
            if (got != want)
                vh::fail("signal:" + std::string(kind_names[s.kinds[size_t(l->src)]]), "a listener got '" + got + "' instead of '" + want + "': " + what);
        }
        for (auto& l : s.ls)
            l->d.dispose();
        for (char ch : s.log)
            h = vh::mix(h, uint64_t(ch));
        vh::events(n);
        vh::sig(h);
        vh::count("signal scripts");
        vh::sample(what);
    }

    // ------------------------------------------------------------------ scheduler
    std::thread::id g_main;

    template<typename F>
    void spin(F&& done)
    {
        while (!done())
            QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents, 2);
    }

    void tasks(Ctx& c)
    {
        using W = decltype(Main::create_worker());
        // Qt timers have a resolution of a millisecond
        program<W>(
            c, "P25", {"qt-main-thread", true, false, false, false, true, 1000}, [](int) { return Main::create_worker(); },
            [&](auto&& submit, auto&& done) {
                std::atomic<bool> submitted{false};
                std::thread       t{[&] {
                    submit();
                    submitted = true;
                }};
                spin([&] { return submitted && done(); });
                t.join();
            },
            g_main);
        vh::count("task programs");
    }

    void streams(Ctx& c)
    {
        const int n = c.r.range(0, 10), consumers = c.r.range(1, 3), form = c.r.below(4), end = c.r.below(3);
        static const char* names[] = {"observe_on", "subscribe_on", "from_iterable", "delay"};
        c.desc = vh::fmt("%s on the Qt main thread, %d items, %d subscribers", names[form], n, consumers);
        std::vector<Val> items;
        for (int i = 0; i < n; ++i)
            items.push_back(Val{BASE + i});
        std::vector<std::thread> emitters;
        std::mutex               em;
        auto                     hot = rpp::source::create<Val>([&](auto&& obs) {
            auto            o = std::make_shared<Dobs>(std::forward<decltype(obs)>(obs).as_dynamic());
            std::lock_guard l{em};
            emitters.emplace_back([&, o, k = emitters.size()] {
                vi::role(70 + k);
                for (auto& v : items)
                {
                    o->on_next(v);
                    vi::pause(c.pause_src);
                }
                if (end == 1)
                    o->on_error(mkerr(7));
                else
                    o->on_completed();
            });
        });
        Obs        src = rpp::source::never<Val>().as_dynamic();
        const bool err = end == 1 && form != 2;
        std::atomic<bool> source_elsewhere{false};
        switch (form)
        {
        case 0: src = (hot | rpp::ops::observe_on(Main{})).as_dynamic(); break;
        case 1:
            src = (rpp::source::create<Val>([&](const auto& obs) {
                       if (std::this_thread::get_id() != g_main)
                           source_elsewhere = true;
                       for (auto& v : items)
                           obs.on_next(v);
                       if (end == 1)
                           obs.on_error(mkerr(7));
                       else
                           obs.on_completed();
                   })
                   | rpp::ops::subscribe_on(Main{}))
                      .as_dynamic();
            break;
        case 2: src = rpp::source::from_iterable(items, Main{}).as_dynamic(); break;
        default: src = (hot | rpp::ops::delay(us{c.r.below(3) * 700}, Main{})).as_dynamic();
        }
        std::vector<MonP> ms;
        for (int i = 0; i < consumers; ++i)
            ms.push_back(mon("qt", c.pause_mon));
        std::atomic<bool> attached{false};
        std::thread       t{[&] {
            vi::role(60);
            for (auto& m : ms)
                attach(src, m);
            attached = true;
        }};
        spin([&] {
            for (auto& m : ms)
                if (!m->ended())
                    return false;
            return attached.load();
        });
        t.join();
        {
            std::lock_guard l{em};
            for (auto& e : emitters)
                e.join();
            emitters.clear();
        }
        uint64_t h = uint64_t(form);
        for (auto& m : ms)
        {
            const auto fail = [&](const char* k, const std::string& s) { failp("P25", std::string("stream-") + k, s + " in " + c.desc + ": " + m->str()); };
            if (m->overlap)
                fail("overlap", "callbacks overlap");
            const auto l = m->log();
            vh::events(long(l.size()));
            int got = 0, ends = 0;
            for (auto& e : l)
            {
                h = vh::mix(h, uint64_t(e.val));
                // observe_on passes an error on at once, from where it happened
                if (e.th != g_main && !(form == 0 && e.kind == 'e'))
                    fail("thread", "a callback ran outside of the main thread");
                if (ends)
                    fail("after-end", "an event after the end");
                if (e.kind != 'n')
                    ++ends;
                else if (e.val != BASE + got++)
                    fail("order", vh::fmt("item %d at position %d", e.val, got - 1));
            }
            if (ends != 1 || l.back().kind != (err ? 'e' : 'c'))
                fail("end", "the wrong end");
            if (got != n && !(err && form == 0))
                fail("lost", vh::fmt("%d items instead of %d", got, n));
        }
        if (source_elsewhere)
            failp("P25", "subscribe-thread", "subscribed outside of the main thread in " + c.desc);
        vh::sig(vh::mix(h, uint64_t(n * 4 + consumers)));
        vh::count("streams");
        vh::sample(c.desc + " => " + ms[0]->str());
    }

    // without an application the handler gets the error and nothing runs
    void no_application(vh::Rng& r)
    {
        int  ran = 0, errors = 0;
        struct H
        {
            int* e;
            bool is_disposed() const { return false; }
            void on_error(const std::exception_ptr& ep) const
            {
                try
                {
                    std::rethrow_exception(ep);
                }
                catch (const rppqt::utils::no_active_qapplication&)
                {
                    ++*e;
                }
            }
        };
        const auto w = Main::create_worker();
        const int  n = r.range(1, 3);
        for (int i = 0; i < n; ++i)
            w.schedule(us{r.below(2) * 500}, [&](const H&) -> rpp::schedulers::optional_delay_from_now { ++ran; return std::nullopt; }, H{&errors});
        if (ran || errors != n)
            vh::fail("no-application", vh::fmt("%d tasks ran, %d of %d got the error", ran, errors, n));
        vh::events(errors);
        vh::count("no application");
    }
} // namespace

int main(int argc, char** argv)
{
    vh::parse(argc, argv);
    g_main = std::this_thread::get_id();
    {
        vh::Rng r{vh::G().opt.seed};
        no_application(r);
    }
    int               qargc   = 1;
    char*             qargv[] = {argv[0], nullptr};
    QCoreApplication  app{qargc, qargv};
    const int         rc = vh::run_cases([&](vh::Rng& r, long i) {
        cc::Ctx c{r, i};
        vi::role(99);
        vi::begin(r.next());
        switch (r.below(4))
        {
        case 0: tasks(c); break;
        case 1: streams(c); break;
        default: scripts(r);
        }
        vi::end();
        if (vh::G().opt.verbose)
            fprintf(stderr, "case %ld %s\n", i, c.desc.c_str());
    });
    vh::count("delays injected", vi::fired());
    vh::flush_out(rc ? "violations" : "ok");
    fflush(nullptr);
    return rc;
}
