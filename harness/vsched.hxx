// Controlled scheduler: exactly one of the threads of a run executes at a time; every
// pthread operation, sleep, clock read and (inside library calls) memory access is a
// scheduling point. Time is virtual. See DESIGN.md.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {
struct Config {
  uint64_t seed = 1;
  int strategy = 0;         // 0 uniform, 1 sticky, 2 priorities with change points, 3 starve one thread, 4 round robin
  unsigned mem_gap = 0;     // mean number of memory accesses between preemption points (0: none)
  unsigned spurious = 0;    // spurious wake-ups per 1000 scheduling points
  unsigned jump = 0;        // early jumps to the next deadline per 1000 scheduling points
  uint64_t max_steps = 200000;
  unsigned est_len = 200;   // expected number of scheduling points (for strategy 2)
  int victim = -1;          // strategy 3: which thread
};
enum Result { FINISHED, DEADLOCK, STEP_LIMIT, STALL };
struct Outcome { Result result; uint64_t steps, switches, trace, mem_points, idle_jumps, wakes, timeouts, spurious; std::string info; };

Outcome run(const Config & c, const std::vector<std::function<void()>> & threads);

// callable from the threads of a run
void point();                      // a scheduling point of the client
void sleep_ns(uint64_t ns);        // virtual sleep
void freeze(int id, bool on);      // a frozen thread only runs when no other can
bool blocked(int id);              // waits for a condition
uint64_t now_ns();                 // virtual time, does not advance it
uint64_t idle_jumps();             // how often time had to jump since nothing could run
uint64_t seq();                    // fresh global sequence number
int self();
void lib_enter(); void lib_leave();
struct Lib { Lib() { lib_enter(); } ~Lib() { lib_leave(); } };  // the library call in progress
}
