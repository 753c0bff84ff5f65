// Simulated threads: real code on threads of which exactly one runs at a time,
// chosen by decisions at instrumented memory accesses and synchronisations,
// with a happens-before race detector.  Provides the runtime that code built
// with -fsanitize=thread -fopenmp calls, and the pthread calls it makes.
#pragma once
#include "core.hpp"
#include <functional>

namespace simrt {
struct Options {
    unsigned max_threads = 4;      // what omp_get_max_threads() answers
    bool may_deliver_fewer = false;// teams may get fewer threads than asked for
    bool races = true;             // report races
};
void configure(const Options &o);  // also draws the scheduling policy of the run
// Runs the functions as concurrent caller threads until all have returned.
void run_threads(const std::vector<std::function<void()>> &fs);
uint64_t switches();               // context switches so far
uint64_t accesses();               // accesses made while several threads were alive
uint64_t schedule_hash();          // who ran when
uint64_t regions();                // parallel regions entered
void finish_counts();              // adds the above to the counters of the run
void touch_read(const void *p, size_t n);
void touch_write(const void *p, size_t n);
int self();
bool inside();                     // the runtime itself is at work
void set_threads(unsigned n);      // what omp_get_max_threads() answers from now on
void forget_memory(void *p, size_t n); // was freed or is new: no earlier access matters
// what new memory holds, and what the stack below the caller holds: a drawn
// pattern, so that code which reads what it never wrote shows it
void paint(unsigned pattern);
void paint_stack();
// simulated clocks, microseconds of simulated time pass at each reading
struct Clock {
    int64_t real_ns = 1500000000ll * 1000000000ll, mono_ns = 5000000000ll, cpu_ns = 1000000ll;
    int pid = 4242;                                // and which process this is
    std::function<void(int id)> on_read;           // may move the clocks
    std::function<int(int id)> fail;               // nonzero errno: the call fails
};
Clock &sim_clock();
}
