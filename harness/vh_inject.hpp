// Delay injection at function boundaries: the harness is compiled with
// -finstrument-functions, so every library function (also every std::atomic and
// std::mutex operation at -O0) is a possible preemption point.
#pragma once
#include <atomic>
#include <cstdint>

namespace vi
{
    // new schedule for the next case: every thread derives its own points from it
    void begin(uint64_t seed);
    void end();
    // label of the calling thread (keeps points reproducible per role)
    void role(uint64_t id);
    long fired();
    // many delays in the calling thread's next few calls: for scenarios of a few calls
    void dense(int range);
    // small random pause, used inside callbacks and between emissions
    void pause(int strength);
    // polite waiting, never instrumented
    void relax();
    void start_barrier(std::atomic<int>& left);
} // namespace vi
