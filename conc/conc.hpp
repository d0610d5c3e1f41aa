// Controlled scheduler: every thread of the code under test is a fiber of this process, every access to memory
// that several threads use is a scheduling point, and all schedules up to a preemption bound are executed.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace conc {
struct Options {
    int threads = 2;              // OpenMP threads
    bool free_ws = false;         // handing a loop iteration to another thread is no preemption
    bool delay = false;           // bound counts deviations from round robin order (also when a thread blocks) instead of preemptions
    int bound = 2;                // preemptions per execution; -1: only the default schedule (one thread runs until it blocks)
    uint64_t max_runs = 2000000;  // executions per case
    uint64_t max_steps = 60000;   // visible steps per execution before it counts as not terminating
    double seconds = 0;           // 0: no limit
};
struct Result { std::string err; uint64_t runs = 0, points = 0, steps = 0, restarts = 0, shared = 0; bool capped = false; };
// Runs body() once per schedule (in the main logical thread). The first error ends the exploration.
Result explore(const std::function<std::string()>& body, const Options& o);
bool active();
int self();                       // id of the running logical thread (0: main)
int tag(); void set_tag(int);      // a label that threads inherit from their creator (0 at first)
uint64_t now();                   // number of visible steps so far (a logical clock for histories)
void point();                     // explicit scheduling point
void atomic_begin(); void atomic_end(); // one indivisible operation of a stand-in
}
