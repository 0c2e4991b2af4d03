// Tasks under a seeded scheduler: each is a thread, exactly one of them runs at any time, and which one is decided by
// choices of the run. The hand-over is not visible to ThreadSanitizer, so that tasks are unordered for it.
#ifndef SIM_SCHED_HXX_
#define SIM_SCHED_HXX_

#include "core.hxx"
#include <functional>
#include <exception>

namespace sim { namespace sched {

    struct Cancelled : std::exception { const char* what() const noexcept override { return "task cancelled"; } }; // thrown out of wait() to wind a task up

    struct Stats { uint64_t points = 0, switches = 0, preemptions = 0, waits = 0; bool deadlock = false; std::string stuck; };

    // runs the tasks to their end, or until none of those left can go on (deadlock: they are cancelled).
    // preempt: how often a running task is preempted at a scheduling point (0 never .. 3 often)
    Stats run(Sim& s, const std::vector<std::function<void()>>& tasks, unsigned preempt);
    bool active();
    int self();                                                 // the running task, -1 outside
    void point();                                               // a scheduling point: may switch
    void yield();                                               // lets another go on
    void wait(const std::function<bool()>& ready, const char* what); // until ready(); throws Cancelled
    void sleep(uint64_t ticks);                                 // simulated time
    void wake_hint();                                           // state others wait for has changed

}}

#endif
