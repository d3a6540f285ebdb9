// Workers of the thread-based schedulers under several submitting threads.
#include "workers.hpp"

namespace cc
{
    namespace
    {
        using namespace wk;

        void sc_new_thread(Ctx& c)
        {
            using W = decltype(rpp::schedulers::new_thread::create_worker());
            program<W>(
                c, "P15", {"new_thread", true, true, true, true, true}, [](int) { return rpp::schedulers::new_thread::create_worker(); }, [](auto&& submit, auto&& done) { submit(); wait_for(done); });
        }
        void sc_thread_pool(Ctx& c)
        {
            const int                    n = c.r.range(1, 3);
            rpp::schedulers::thread_pool pool{size_t(n)};
            using W = decltype(pool.create_worker());
            program<W>(
                c, "P15", {"thread_pool", true, true, true, true, true}, [&](int) { return pool.create_worker(); }, [](auto&& submit, auto&& done) { submit(); wait_for(done); });
        }
        void sc_computational(Ctx& c)
        {
            using W = decltype(rpp::schedulers::computational::create_worker());
            program<W>(
                c, "P15", {"computational", true, true, true, true, true}, [](int) { return rpp::schedulers::computational::create_worker(); }, [](auto&& submit, auto&& done) { submit(); wait_for(done); });
        }
        void sc_run_loop(Ctx& c)
        {
            rpp::schedulers::run_loop rl{};
            using W = decltype(rl.create_worker());
            program<W>(
                c, "P15", {"run_loop", true, true, false, true, true}, [&](int) { return rl.create_worker(); },
                [&](auto&& submit, auto&& done) {
                    std::atomic<bool> submitted{false};
                    std::thread       loop{[&] {
                        vi::role(50);
                        while (!submitted || !done())
                        {
                            rl.dispatch_if_ready();
                            vi::relax();
                        }
                    }};
                    submit();
                    submitted = true;
                    loop.join();
                });
        }
        // run_loop's blocking dispatch: every dispatch runs one task
        void sc_run_loop_dispatch(Ctx& c)
        {
            rpp::schedulers::run_loop rl{};
            using W = decltype(rl.create_worker());
            program<W>(
                c, "P15", {"run_loop-dispatch", true, true, false, true, true}, [&](int) { return rl.create_worker(); },
                [&](auto&& submit, auto&& done) {
                    std::atomic<bool> submitted{false}, stop{false};
                    std::thread       loop{[&] {
                        vi::role(50);
                        while (!stop)
                            rl.dispatch();
                    }};
                    submit();
                    wait_for(done);
                    // one more task gets the loop out of its waiting
                    auto flag = std::make_shared<std::atomic<bool>>(false);
                    struct H
                    {
                        bool is_disposed() const { return false; }
                        void on_error(const std::exception_ptr&) const {}
                    };
                    rl.create_worker().schedule([&](const H&) -> rpp::schedulers::optional_delay_from_now { stop = true; return std::nullopt; }, H{});
                    loop.join();
                });
        }
        // a task due soon is not held back by one which is due much later
        void sc_held_back(Ctx& c)
        {
            const int pause = c.r.range(0, 4), delay = c.r.chance(1, 3) ? 0 : c.r.range(1, 3000), kind = c.r.below(2), between = c.r.below(3);
            c.desc = vh::fmt("held-back: a task after an hour, then one after %dus, %s", delay, kind ? "new_thread" : "thread_pool");
            auto far_disposed = std::make_shared<std::atomic<bool>>(false);
            auto ran          = std::make_shared<std::atomic<int64_t>>(0);
            struct H
            {
                std::shared_ptr<std::atomic<bool>> d;
                bool                               is_disposed() const { return d && d->load(ORD); }
                void                               on_error(const std::exception_ptr&) const {}
            };
            const auto go = [&](const auto& w) {
                w.schedule(std::chrono::hours{1}, [](const H&) -> rpp::schedulers::optional_delay_from_now { return std::nullopt; }, H{far_disposed});
                for (int i = 0; i < between; ++i)
                    w.schedule(std::chrono::minutes{30 - i}, [](const H&) -> rpp::schedulers::optional_delay_from_now { return std::nullopt; }, H{far_disposed});
                vi::pause(pause);
                if (pause > 2)
                    std::this_thread::sleep_for(us{300});
                w.schedule(us{delay}, [ran](const H&) -> rpp::schedulers::optional_delay_from_now { ran->store(wall()); return std::nullopt; }, H{nullptr});
                const auto limit = wall() + 8'000'000'000ll;
                wait_for([&] { return ran->load() != 0 || wall() > limit; });
                far_disposed->store(true, ORD);
                // wakes the thread so that it drops the disposed ones
                w.schedule([](const H&) -> rpp::schedulers::optional_delay_from_now { return std::nullopt; }, H{nullptr});
            };
            if (kind)
                go(rpp::schedulers::new_thread::create_worker());
            else
                go(rpp::schedulers::thread_pool{1}.create_worker());
            vh::events(1);
            vh::sig(vh::mix(vh::mix(uint64_t(delay / 50), uint64_t(pause)), uint64_t(kind * 4 + between)));
            if (!ran->load())
                failp("P15", "held-back", "a task due 8 s ago waits for the due time of another one in " + c.desc);
        }
    } // namespace
    std::vector<Entry> scenarios_f()
    {
        return {{"new-thread", sc_new_thread, "P15 P20 P21", 3}, {"thread-pool", sc_thread_pool, "P15 P20 P21", 3}, {"computational", sc_computational, "P15 P20 P21", 2}, {"run-loop", sc_run_loop, "P15 P20 P21", 2}, {"run-loop-dispatch", sc_run_loop_dispatch, "P15 P20 P21", 1}, {"held-back", sc_held_back, "P15", 1}};
    }
} // namespace cc
