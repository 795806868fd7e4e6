// Seeded scheduler: real threads, parked and released one at a time; simulated clock.
#ifndef SIM_SCHED_HPP
#define SIM_SCHED_HPP
#include "rt.hpp"

namespace sim {
namespace sched {
enum { MAX_TASKS = 8 };
typedef void (*task_fn)(void* arg);
typedef bool (*cond_fn)(void* arg);
int spawn(task_fn fn, void* arg);          // before run(), or from a task
void run(uint64_t max_switches);           // until all tasks are done; fails on deadlock / no progress
int self();                                // task index, -1 outside
bool active();
uint64_t now();                            // simulated time
void yield();                              // let the scheduler choose who goes on
void sleep(uint64_t ticks);                // simulated time
void wait(cond_fn c, void* arg, const char* what);   // blocked until c(arg)
// preemption inside instrumented code: with quanta enabled, point() switches when the quantum is used up
void enable_points(uint32_t max_quantum);
void point();
extern void (*on_spawn)(int parent, int child);
extern void (*on_finish)(int task);
extern void (*on_join_all)();
}
} // namespace sim
#endif
