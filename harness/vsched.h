// vsched: a deterministic, fully serialising scheduler for pthread programs.
// Only one managed thread runs at a time; every synchronisation operation, every atomic access and (with some
// probability) every plain memory access of instrumented code is a preemption point; time is virtual.
#pragma once
#include <cstdint>
#include <string>

namespace vs {

struct Opt {
    uint64_t seed = 1;
    int mode = -1;                      // -1: derived from the seed
    uint64_t max_steps = 40000000;      // more scheduling points than that: livelock
    uint64_t max_time_ns = 3600ull * 1000000000ull;   // virtual time beyond that: stuck
    bool early_timeouts = false;        // a timed wait may expire although other threads could still run
    bool spurious = true;               // condition variables may wake spuriously
};

void start(const Opt& o);       // the calling thread becomes managed thread 0
void stop();                    // back to pass-through (all other managed threads have ended)
bool active();
void point();                   // explicit preemption point
void work(int k);               // k preemption points
uint64_t now_ns();              // virtual time
uint64_t steps();
uint64_t switches();
uint64_t rnd();                 // scheduler's random stream (harness decisions)
int self();                     // managed thread id

// no preemption while alive (logging, oracle updates)
struct NoPre { NoPre(); ~NoPre(); };

// called with a description when the run cannot continue: "deadlock", "livelock", "timelimit", "uaf", "dfree"
using fault_fn = void (*)(const char* kind, const char* detail);
void on_fault(fault_fn f);
void describe_threads(char* buf, int n);

}  // namespace vs
