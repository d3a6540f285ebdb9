// Virtual steady clock for single-threaded harnesses: the definition here takes
// precedence over libstdc++'s, so the library's own schedulers and timestamps run
// on it, and sleeping advances it.
#pragma once
#include <chrono>
#include <cstdint>
#include <ctime>
#include <functional>

namespace vclock
{
    inline int64_t now_ns = 1'000'000'000;
    inline long    sleeps = 0;
    // called with (from, to) whenever the clock has moved by sleeping
    inline std::function<void(int64_t, int64_t)> on_sleep{};
    inline void                                  sleep_to(int64_t t)
    {
        ++sleeps;
        const auto from = now_ns;
        if (t > now_ns)
            now_ns = t;
        if (on_sleep)
            on_sleep(from, now_ns);
    }
    constexpr int64_t MS = 1'000'000;
} // namespace vclock
