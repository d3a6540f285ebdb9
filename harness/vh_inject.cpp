// compiled without instrumentation
// (optimised, so that no inline function stays out of line: the linker could pick an
// instrumented copy of it)
#include "vh_inject.hpp"

#include <ctime>
#include <sched.h>

namespace
{
    std::atomic<uint64_t> g_epoch{0}; // odd while active
    std::atomic<uint64_t> g_seed{0};
    std::atomic<long>     g_fired{0};
    std::atomic<uint64_t> g_threads{1000};

    struct Tl
    {
        uint64_t epoch{0};
        uint64_t rng{0};
        uint64_t role{0};
        int      kind{0};
        int64_t  countdown{-1};
        int64_t  range{1000};
        uint64_t cls{0}, mask{63};
        int      left{0};
        bool     inside{false};
    };
    thread_local Tl tl;

    uint64_t rnd()
    {
        uint64_t z = (tl.rng += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void nap(uint64_t us)
    {
        timespec ts{0, long(us) * 1000};
        nanosleep(&ts, nullptr);
    }
    void delay()
    {
        g_fired.fetch_add(1, std::memory_order_relaxed);
        switch (rnd() % 8)
        {
        case 0: sched_yield(); break;
        case 1:
        case 2: nap(1); break; // ~60us with the timer slack
        case 3:
        case 4: nap(100 + rnd() % 100); break;
        case 5:
        case 6: nap(200 + rnd() % 200); break;
        default: nap(300 + rnd() % 700); break;
        }
    }
    void init(uint64_t e)
    {
        tl.epoch          = e;
        const uint64_t gs = g_seed.load(std::memory_order_relaxed);
        if (!tl.role)
            tl.role = g_threads.fetch_add(1, std::memory_order_relaxed);
        tl.rng  = gs ^ (tl.role * 0xD1B54A32D192ED03ull);
        tl.kind = int((gs >> 8) % 4); // the same kind in all threads
        static const int64_t ranges[] = {100, 400, 1500, 6000};
        tl.range                      = ranges[(gs >> 16) % 4];
        static const uint64_t masks[] = {15, 63, 255, 31};
        tl.mask                       = masks[(gs >> 24) % 4];
        tl.cls                        = (gs >> 32) & tl.mask;
        tl.left                       = 1 + int(rnd() % 3);
        if (tl.kind == 3 && (rnd() & 1))
            tl.left = 0;
        tl.countdown = 1 + int64_t(rnd() % uint64_t(tl.range));
    }
    inline void point(void* fn)
    {
        const uint64_t e = g_epoch.load(std::memory_order_relaxed);
        if (!(e & 1) || tl.inside)
            return;
        tl.inside = true;
        if (tl.epoch != e)
            init(e);
        if (tl.left > 0)
        {
            switch (tl.kind)
            {
            case 0:
            case 3:
                if (--tl.countdown <= 0)
                {
                    --tl.left;
                    delay();
                    tl.countdown = 1 + int64_t(rnd() % uint64_t(tl.range));
                }
                break;
            default: // by function: rare functions get as many delays as hot ones
            {
                const uint64_t off = uint64_t(reinterpret_cast<char*>(fn) - reinterpret_cast<char*>(&vi::begin));
                if ((((off * 0x9E3779B97F4A7C15ull) >> 40) & tl.mask) == tl.cls && (rnd() & 1))
                {
                    --tl.left;
                    delay();
                }
            }
            }
        }
        tl.inside = false;
    }
} // namespace

namespace vi
{
    void begin(uint64_t seed)
    {
        g_seed.store(seed, std::memory_order_relaxed);
        uint64_t e = g_epoch.load(std::memory_order_relaxed);
        g_epoch.store((e | 1) + ((e & 1) ? 2 : 0), std::memory_order_relaxed);
    }
    void end()
    {
        uint64_t e = g_epoch.load(std::memory_order_relaxed);
        if (e & 1)
            g_epoch.store(e + 1, std::memory_order_relaxed);
    }
    void role(uint64_t id) { tl.role = id; tl.epoch = 0; }
    long fired() { return g_fired.load(std::memory_order_relaxed); }
    void dense(int range)
    {
        if (tl.epoch != g_epoch.load(std::memory_order_relaxed))
            init(g_epoch.load(std::memory_order_relaxed));
        tl.kind      = 0;
        tl.range     = range;
        tl.left      = 1;
        tl.countdown = 1 + int64_t(rnd() % uint64_t(range));
    }
    void pause(int strength)
    {
        if (!strength)
            return;
        if (tl.epoch != g_epoch.load(std::memory_order_relaxed))
            init(g_epoch.load(std::memory_order_relaxed));
        const auto r = rnd() % 16;
        if (r < 8)
            return;
        if (r < 12)
            sched_yield();
        else if (r < 15)
            nap(1);
        else
            nap(1 + rnd() % uint64_t(100 * strength));
    }
    void relax() { nap(20); }
    void start_barrier(std::atomic<int>& left)
    {
        left.fetch_sub(1);
        while (left.load() > 0)
            sched_yield();
    }
} // namespace vi

extern "C" {
void __cyg_profile_func_enter(void* fn, void*) { point(fn); }
void __cyg_profile_func_exit(void* fn, void*) { point(reinterpret_cast<char*>(fn) + 1); }
}

// instrumented code takes the address of members libstdc++ does not export
#include <memory>
#include <string>
template class std::allocator<char>;
