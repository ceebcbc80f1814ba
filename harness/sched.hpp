// Controlled scheduler: explores the thread interleavings of real code.
//
// The code under test is compiled with the compiler's ThreadSanitizer instrumentation, but linked with the runtime in
// sched.cpp instead of the sanitizer's. That runtime also stands in front of the pthread functions. Exactly one thread
// runs at a time; at every lock, condition, thread and (if asked for) atomic operation the explorer chooses which
// thread continues, with a bounded number of preemptions. Every instrumented memory access is checked with vector
// clocks for a data race, so scheduling at synchronisation operations only loses no behaviour of race-free code.
#pragma once
#include <functional>

#include "mc.hpp"

namespace sched
{
struct Options
{
    int preemptions = 2;         // switches away from a thread that could have continued
    int spurious = 0;            // wakeups of condition waiters without a signal
    bool atomic_points = false;  // atomic operations are scheduling points too
    uint64_t max_points = 200000;
};
// Runs the body in a controlled thread; returns when all controlled threads have ended. Reports races, deadlocks and
// exceptions through c.fail.
void run(mc::Ctx &c, const Options &o, const std::function<void()> &body);
}  // namespace sched
