// Controlled scheduler: runs real C++ threads one at a time, choosing the
// interleaving from the case's choice sequence, with virtual time, exact
// deadlock detection, happens-before data race detection and use-after-free
// detection. The harness is compiled with -fsanitize=thread (instrumentation
// only); this library provides the instrumentation's run-time functions and
// replaces the pthread, clock and malloc entry points.
#pragma once
#include <cstdint>
#include <functional>
#include "pbt.h"

namespace sched {

struct Config {
    bool spurious = true;     // condition variables may wake spuriously
    bool checkLeaks = true;   // memory allocated in the run must be freed in it
    uint64_t maxSteps = 400000;
    std::function<void(uint64_t next)> idle; // every thread is blocked and time will pass to next
};

// Runs body as thread 0 together with every thread it creates, until all have
// finished. Any deadlock, race, use after free, leak or livelock fails the case.
void run(pbt::Ctx & c, std::function<void()> const & body, Config cfg = Config());

uint64_t now();                  // virtual time in ns since the start of the run
uint64_t draw(uint64_t bound);   // a choice drawn inside the run
void point();                    // an explicit scheduling point
void yield();                    // let another thread run
int self();                      // id of the calling controlled thread
uint64_t steps();
uint64_t stepsOf(int id);        // scheduling points thread id has passed
void failCreate(long n);         // after n more, one thread creation fails (-1: none)
unsigned switches();             // preemptions in the current/last run

// Runs f without instrumentation (for the oracle's own bookkeeping).
struct Quiet { Quiet(); ~Quiet(); Quiet(Quiet const &) = delete; };

// Number of tracked live allocations made inside the run.
long liveAllocs();

} // namespace sched
#define QUIET sched::Quiet quiet_##__LINE__
