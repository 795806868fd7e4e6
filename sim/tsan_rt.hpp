// Happens-before race detection and preemption for code compiled with -fsanitize=thread, linked
// against this runtime instead of the real one.
#ifndef SIM_TSAN_RT_HPP
#define SIM_TSAN_RT_HPP
#include "sched.hpp"

namespace sim {
namespace tsan {
void begin(uint32_t max_quantum);           // tasks are about to run
void end();
extern const char* (*describe_task)(int);   // what the task is doing, for reports
}
} // namespace sim
#endif
