// One case under every schedule within a bound; to be included by a harness.
#pragma once
#include "core.hpp"
#include "sched.hpp"
#include <unistd.h>
namespace mc {
struct Bounds {
    int preemptions;
    int spurious = 0;
    bool delays = false;
    bool races = true;
};
inline void under(const Bounds& b, const std::function<void()>& body)
{
    static bool pinned = false;
    if (!pinned) {
        pinned = true;
        sched::pin(getpid());
        ownWork() = sched::bookkeeping;
    }
    sched::Options o;
    o.preemptions = b.preemptions;
    o.spurious = b.spurious;
    o.delays = b.delays;
    o.races = b.races;
    o.maxSchedules = 1000000;
    sched::Stats st;
    std::string r = sched::explore(
        [&] {
            try {
                body();
            } catch (const Fail& f) {
                sched::failIn(f.kind + ": " + f.msg);
            }
        },
        o, st);
    transition(st.schedules);
    if (sh())
        sh()->outcomes.fetch_add(st.schedules);
    MC_CHECK(r.empty(), "%s\n   (schedule %llu)", r.c_str(), (unsigned long long)st.schedules);
    MC_CHECK(st.complete, "exploration cut short");
    if (getenv("MC_STATS"))
        fprintf(stderr, "%llu schedules, %llu threads, longest %llu steps\n", (unsigned long long)st.schedules, (unsigned long long)st.maxThreads,
            (unsigned long long)st.maxSteps);
}

} // namespace mc
