#include "vclock.hpp"

namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{vclock::now_ns}}; }
    } // namespace _V2
} // namespace std::chrono

extern "C" int nanosleep(const timespec* t, timespec*) noexcept(false)
{
    vclock::sleep_to(vclock::now_ns + int64_t(t->tv_sec) * 1'000'000'000 + t->tv_nsec);
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec*) noexcept(false)
{
    const int64_t v = int64_t(t->tv_sec) * 1'000'000'000 + t->tv_nsec;
    vclock::sleep_to(flags ? v : vclock::now_ns + v);
    return 0;
}
