// A controlled scheduler: the threads of the code under test run one at a time, and which one goes on is decided at every
// synchronisation operation.  explore() runs a program under every schedule within a bound, by replaying and extending
// decision sequences (stateless depth-first search); on each schedule a vector-clock monitor looks for data races and for
// accesses to freed memory among all instrumented memory accesses.  The scheduler itself is sched_rt.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
namespace sched {
struct Options {
    int preemptions = 2; // context switches away from a thread that could go on
    bool delays = false; // count every choice other than the default one, also when the running thread blocks
    int spurious = 0; // spurious wake-ups of condition variables
    uint64_t maxSchedules = 2000000;
    double maxSeconds = 1e9;
    bool races = true;
};
struct Stats {
    uint64_t schedules = 0, decisions = 0, steps = 0, maxThreads = 0, maxSteps = 0;
    bool complete = true;
};
// Returns "" or the first failure.  `body` runs as thread 0 and may throw std::exception or call failIn().
std::string explore(const std::function<void()>& body, const Options& o, Stats& st);
// a failed assertion inside the program
void failIn(const std::string& msg);
// the running logical thread (-1: not controlled)
int self();
// a scheduling point of its own
void yield();
void pin(int cpu);
// d = 1: the calling thread is not controlled until -1
void bookkeeping(int d);
} // namespace sched
