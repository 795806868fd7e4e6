// Deterministic simulation runtime: one choice tape decides everything.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace sim {

// ---- choices -------------------------------------------------------------------------------
// Every decision (operation, argument, delay, fault, schedule) is drawn here and recorded on the
// tape; replay feeds the tape back. 0 is always the simplest choice (no fault, no switch, ...).
uint32_t pick(uint32_t n);                        // uniform in [0, n)
bool chance(uint32_t num, uint32_t den);          // true with num/den; recorded as 0/1
uint32_t pickw(const uint32_t* weights, uint32_t n);
uint64_t pick64();
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }

// ---- event log -----------------------------------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sig(uint64_t s);                             // a distinct state / point reached
void time_add(uint64_t ticks);                    // simulated time covered
uint64_t mix(uint64_t h, uint64_t v);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);

enum Counter {
    F_CHUNK_SPLIT, F_STALL, F_SRC_EOF, F_SRC_THROW, F_SHORT_WRITE, F_DISK_FULL, F_SINK_THROW, F_SYNC_FAIL,
    F_ALLOC_FAIL, F_ALLOC_FAIL_STICKY, F_LOCALE_FLIP, F_PREEMPT, F_CRASH, F_TORN_WRITE, F_DISCONNECT, F_DELAY,
    F_STALE_CODE, F_MEM_PATTERN, F_BAD_TOKEN, F_REENTRANT, F_INDEX_PRESSURE, F_STREAM_STATE, F_WRITER_CRASH, F_READER_CRASH,
    C_OPS, C_TOKENS, C_CHECKS, C_EXC, C_SWITCHES, C_ACCESSES, C_ALLOCS, C_RECOVERIES, C_SUCCESS, C_FAILREP, C_SYNC_OPS, C_FRESH,
    NCOUNTERS
};
extern const char* const counter_names[NCOUNTERS];
void count(Counter c, uint64_t n = 1);

// ---- violations ----------------------------------------------------------------------------
// cls: the violated oracle; key: which call site / operation. Ends the run.
[[noreturn]] void fail(const char* cls, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void set_where(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // context for crashes
const char* arg(const char* name, const char* def);                            // scenario option
bool replaying();

// ---- memory --------------------------------------------------------------------------------
struct AllocPlan {
    int mode;          // 0 off, 1 fail the k-th, 2 fail from the k-th on, 3 fail every other, 4 count only
    uint32_t k;
    uint32_t seen;     // allocations seen while armed
    uint32_t fired;    // failures injected while armed
    int window;        // armed depth
    int paused;
};
AllocPlan& alloc_plan();                          // of the calling thread
struct Window {                                   // allocation faults apply inside
    Window() { ++alloc_plan().window; }
    ~Window() { --alloc_plan().window; }
};
struct Pause {                                    // ... except inside this
    Pause() { ++alloc_plan().paused; }
    ~Pause() { --alloc_plan().paused; }
};
void alloc_begin(int mode, uint32_t k);
void alloc_end();
uint64_t live_blocks();
uint64_t live_bytes();
void set_heap_fill(int byte);                     // -1: leave as is
typedef void (*alloc_hook_t)();
void set_alloc_hook(alloc_hook_t h);              // called at each armed allocation
void set_quarantine(bool on);                     // keep freed blocks, filled with a pattern
void check_quarantine();                          // nobody wrote to a freed block

// ---- scenarios -----------------------------------------------------------------------------
typedef void (*scenario_fn)();
struct Scenario {
    const char* name;
    scenario_fn fn;
    Scenario* next;
    Scenario(const char* n, scenario_fn f);
};
#define SIM_SCENARIO(id) static void scen_##id(); static ::sim::Scenario reg_##id(#id, &scen_##id); static void scen_##id()

// ---- runs that span the life of a process (sc_life.cpp) ------------------------------------
int real_main(int argc, char** argv);
void fixed_addresses(char** argv);                // restarts the program without address space randomisation
extern int (*life_main)();                        // what main() does instead, in such a run
void run_complete();                              // the run is over and found nothing

// ---- hooks for the concurrency engine (sched.cpp / tsan_rt.cpp) ----------------------------
extern void (*on_memory)(void* p, size_t n, int is_free);
extern void (*on_access)();                       // before each memory access of instrumented code
extern bool access_seam;                          // this build has instrumented code

} // namespace sim
#endif
