// P24: the asio strand scheduler on several io threads.
#include "workers.hpp"

#include <asio/executor_work_guard.hpp>
#include <asio/io_context.hpp>
#include <rppasio/schedulers/strand.hpp>

namespace
{
    using namespace wk;
    using Strand = rppasio::schedulers::strand;
    using Guard  = asio::executor_work_guard<asio::io_context::executor_type>;

    struct Io
    {
        asio::io_context         context{};
        std::optional<Guard>     guard{context.get_executor()};
        std::vector<std::thread> threads{};
        void                     start(int n)
        {
            for (int i = 0; i < n; ++i)
                threads.emplace_back([this, i] {
                    vi::role(uint64_t(50 + i));
                    context.run();
                });
        }
        // the loops end by themselves once all accepted work is done
        void finish()
        {
            guard.reset();
            for (auto& t : threads)
                t.join();
            threads.clear();
        }
    };

    void tasks(Ctx& c)
    {
        Io        io;
        const int n = c.r.range(1, 4);
        Strand    scheduler{io.context.get_executor()};
        using W     = decltype(scheduler.create_worker());
        const bool late = c.r.chance(1, 4);
        program<W>(
            c, "P24", {late ? "strand-late" : "strand", false, false, true, false, true}, [&](int) { return scheduler.create_worker(); },
            [&](auto&& submit, auto&& done) {
                if (!late)
                    io.start(n);
                submit();
                if (late)
                    io.start(n);
                wait_for(done);
                io.finish();
            });
    }

    Val mk(int s, int q) { return Val{s * BASE + q}; }

    // streams whose every hop runs on strands
    void streams(Ctx& c)
    {
        Io     io;
        Strand st{io.context.get_executor()};
        const int threads = c.r.range(1, 4), form = c.r.below(7), n = c.r.range(0, 12), consumers = c.r.range(1, 3), end = c.r.below(3), cut = c.r.chance(1, 3) ? c.r.range(1, 6) : 0;
        static const char* names[] = {"from_iterable", "observe_on", "subscribe_on", "flat_map over current_thread", "interval", "delay", "concat"};
        c.desc = vh::fmt("%s on a strand, %d io threads, %d items, %d subscribers%s", names[form], threads, n, consumers, cut ? vh::fmt(", take %d", cut).c_str() : "");
        std::vector<Val> items;
        for (int i = 0; i < n; ++i)
            items.push_back(mk(1, i));
        Obs  src = rpp::source::never<Val>().as_dynamic();
        char expect_end = 'c';
        bool ordered    = true;
        int  expect_n   = n;
        // emits from its own thread, then ends
        std::vector<std::thread> emitters;
        std::mutex               em;
        auto                     hot = rpp::source::create<Val>([&](auto&& obs) {
            auto o = std::make_shared<Dobs>(std::forward<decltype(obs)>(obs).as_dynamic());
            std::lock_guard l{em};
            emitters.emplace_back([&, o, k = emitters.size()] {
                vi::role(70 + k);
                for (auto& v : items)
                {
                    o->on_next(v);
                    vi::pause(c.pause_src);
                }
                if (end == 1)
                    o->on_error(mkerr(7));
                else
                    o->on_completed();
            });
        });
        switch (form)
        {
        case 0: src = rpp::source::from_iterable(items, st).as_dynamic(); break;
        case 1:
            src        = (hot | rpp::ops::observe_on(st)).as_dynamic();
            expect_end = end == 1 ? 'e' : 'c';
            break;
        case 2:
            src        = (rpp::source::create<Val>([&](const auto& obs) {
                       for (auto& v : items)
                           obs.on_next(v);
                       if (end == 1)
                           obs.on_error(mkerr(7));
                       else
                           obs.on_completed();
                   })
                   | rpp::ops::subscribe_on(st))
                      .as_dynamic();
            expect_end = end == 1 ? 'e' : 'c';
            break;
        case 3:
            src     = (rpp::source::from_iterable(items, st) | rpp::ops::flat_map([](const Val& v) { return rpp::source::from_iterable(std::vector<Val>{v, v}, rpp::schedulers::current_thread{}); })).as_dynamic();
            ordered = false;
            expect_n = n * 2;
            break;
        case 4:
            src      = (rpp::source::interval(us{200}, st) | rpp::ops::take(size_t(std::max(n, 1))) | rpp::ops::map([](size_t i) { return mk(1, int(i)); })).as_dynamic();
            expect_n = std::max(n, 1);
            break;
        case 5:
            src        = (hot | rpp::ops::delay(us{c.r.below(2) * 300}, st)).as_dynamic();
            expect_end = end == 1 ? 'e' : 'c';
            break;
        default:
            src      = rpp::source::concat(rpp::source::from_iterable(items, st), rpp::source::from_iterable(std::vector<Val>{mk(1, n), mk(1, n + 1)}, st)).as_dynamic();
            expect_n = n + 2;
        }
        const bool error = expect_end == 'e';
        if (cut)
        {
            src = (src | rpp::ops::take(size_t(cut))).as_dynamic();
        }
        std::vector<MonP> ms;
        for (int i = 0; i < consumers; ++i)
            ms.push_back(mon("strand", c.pause_mon));
        io.start(threads);
        for (auto& m : ms)
            attach(src, m);
        for (auto& m : ms)
            wait_for([&] { return m->ended(); });
        {
            std::lock_guard l{em};
            for (auto& t : emitters)
                t.join();
            emitters.clear();
        }
        src = rpp::source::never<Val>().as_dynamic();
        io.finish();
        uint64_t h = uint64_t(form);
        for (auto& m : ms)
        {
            vh::events(long(m->size()));
            const auto fail = [&](const char* k, const std::string& t) { failp("P24", std::string("stream-") + k, t + " in " + c.desc + ": " + m->str()); };
            if (m->overlap)
                fail("overlap", "callbacks of one subscriber overlap");
            const auto l = m->log();
            size_t     got = 0, ends = 0;
            std::map<int, int> seen;
            for (auto& e : l)
            {
                h = vh::mix(h, uint64_t(e.val) * 4 + uint64_t(e.kind == 'n'));
                if (ends)
                    fail("after-end", "an event after the end");
                if (e.kind != 'n')
                {
                    ++ends;
                    continue;
                }
                if (ordered && e.val != BASE + int(got))
                    fail("order", vh::fmt("item %d at position %zu", e.val, got));
                ++seen[e.val];
                ++got;
            }
            if (ends != 1)
                fail("ends", vh::fmt("%zu terminal events", ends));
            const bool reached = cut && cut <= expect_n;
            const int  want    = reached ? cut : expect_n;
            const char last    = reached ? 'c' : expect_end;
            if (!l.empty() && l.back().kind != last && !(error && cut))
                fail("end", "the wrong end");
            // observe_on passes an error on at once
            if (int(got) > want || (int(got) < want && !(error && form == 1)))
                fail("lost", vh::fmt("%zu items instead of %d", got, want));
            if (form == 3)
                for (auto& [v, k] : seen)
                    if (k > 2 || v < BASE || v >= BASE + n)
                        fail("twice", vh::fmt("item %d came %d times", v, k));
        }
        vh::sig(vh::mix(h, uint64_t(threads * 8 + consumers)));
        vh::sample(c.desc + " => " + ms[0]->str());
    }
} // namespace

int main(int argc, char** argv)
{
    vh::parse(argc, argv);
    const int rc = vh::run_cases([&](vh::Rng& r, long i) {
        cc::Ctx c{r, i};
        vi::role(99);
        vi::begin(r.next());
        if (r.chance(2, 3))
            tasks(c);
        else
            streams(c);
        vi::end();
        if (vh::G().opt.verbose)
            fprintf(stderr, "case %ld %s\n", i, c.desc.c_str());
    });
    vh::count("delays injected", vi::fired());
    vh::flush_out(rc ? "violations" : "ok");
    return rc;
}
