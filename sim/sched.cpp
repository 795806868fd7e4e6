#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>

namespace sim {
namespace sched {

enum State { RUNNABLE, SLEEPING, BLOCKED, DONE };
struct Task {
    pthread_t th;
    sem_t sem;
    task_fn fn;
    void* arg;
    State st;
    uint64_t wake;
    cond_fn cond;
    void* cond_arg;
    const char* what;
};
static Task tasks[MAX_TASKS];
static int ntasks = 0, cur = -1;
static uint64_t clock_ = 0, switches = 0, max_switches = 0;
static uint32_t max_quantum = 0, quantum = 0;
static sem_t main_sem;
static bool running = false;
static __thread int tl_self = -1;
void (*on_spawn)(int, int) = nullptr;
void (*on_finish)(int) = nullptr;
void (*on_join_all)() = nullptr;

int self() { return tl_self; }
bool active() { return running; }
uint64_t now() { return clock_; }

static void* entry(void* p) {
    Task* t = static_cast<Task*>(p);
    while (sem_wait(&t->sem) != 0) {}
    tl_self = int(t - tasks);
    t->fn(t->arg);
    t->st = DONE;
    if (on_finish) on_finish(tl_self);
    // hand over for good
    extern void hand_over(Task*);
    hand_over(t);
    return nullptr;
}

int spawn(task_fn fn, void* arg) {
    if (ntasks >= MAX_TASKS) harness_error("too many tasks");
    Task& t = tasks[ntasks];
    memset(&t, 0, sizeof t);
    t.fn = fn;
    t.arg = arg;
    t.st = RUNNABLE;
    sem_init(&t.sem, 0, 0);
    int id = ntasks++;
    if (on_spawn) on_spawn(tl_self, id);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    if (pthread_create(&t.th, &a, entry, &t) != 0) harness_error("pthread_create");
    pthread_attr_destroy(&a);
    return id;
}

// the next task to run; advances the clock when nobody is runnable; -1 when all are done
static int choose() {
    for (;;) {
        int cand[MAX_TASKS], n = 0;
        bool alive = false;
        uint64_t next = ~0ULL;
        // the running task first, so that choice 0 means "no switch"
        for (int k = 0; k < ntasks; ++k) {
            int i = cur >= 0 ? (cur + k) % ntasks : k;
            Task& t = tasks[i];
            if (t.st == DONE) continue;
            alive = true;
            if (t.st == BLOCKED && t.cond(t.cond_arg)) t.st = RUNNABLE;
            if (t.st == SLEEPING && t.wake <= clock_) t.st = RUNNABLE;
            if (t.st == SLEEPING && t.wake < next) next = t.wake;
            if (t.st == RUNNABLE) cand[n++] = i;
        }
        if (!alive) return -1;
        if (n == 0) {
            if (next == ~0ULL) {
                char buf[400];
                size_t o = 0;
                buf[0] = 0;
                for (int i = 0; i < ntasks; ++i)
                    if (tasks[i].st == BLOCKED && o < 300) o += size_t(snprintf(buf + o, sizeof buf - o, " task %d waits for %s;", i, tasks[i].what));
                fail("deadlock", "schedule", "no task can go on:%s", buf);
            }
            time_add(next - clock_);
            clock_ = next;
            continue;
        }
        if (++switches > max_switches) fail("livelock", "schedule", "no end after %llu scheduling steps", (unsigned long long)switches);
        int c = cand[n == 1 ? 0 : pick(uint32_t(n))];
        return c;
    }
}

static void new_quantum() {
    if (!max_quantum) return;
    // mostly long stretches, sometimes very short ones; 0 on the tape: run on without a switch
    static const uint32_t w[] = { 3, 3, 2, 2 };
    switch (pickw(w, 4)) {
        case 0: quantum = 0x7fffffff; break;
        case 1: quantum = 1 + pick(max_quantum); break;
        case 2: quantum = 1 + pick(max_quantum / 8 + 1); break;
        default: quantum = 1 + pick(6); break;
    }
}

static void switch_to(int next, Task* me) {
    if (next >= 0 && &tasks[next] == me) return;
    count(C_SWITCHES);
    cur = next;
    if (next < 0) sem_post(&main_sem);
    else sem_post(&tasks[next].sem);
    if (me && me->st != DONE) while (sem_wait(&me->sem) != 0) {}
}

void hand_over(Task* t) {
    int n = choose();
    new_quantum();
    switch_to(n, t);
}

void run(uint64_t max_sw) {
    max_switches = max_sw;
    switches = 0;
    sem_init(&main_sem, 0, 0);
    running = true;
    cur = -1;
    int n = choose();
    if (n >= 0) {
        new_quantum();
        switch_to(n, nullptr);
        while (sem_wait(&main_sem) != 0) {}
    }
    for (int i = 0; i < ntasks; ++i) pthread_join(tasks[i].th, nullptr);
    running = false;
    ntasks = 0;
    cur = -1;
    if (on_join_all) on_join_all();
}

void yield() {
    if (tl_self < 0) return;
    Task* me = &tasks[tl_self];
    int n = choose();
    new_quantum();
    switch_to(n, me);
}
void sleep(uint64_t ticks) {
    if (tl_self < 0) { clock_ += ticks; time_add(ticks); return; }
    Task* me = &tasks[tl_self];
    me->st = SLEEPING;
    me->wake = clock_ + ticks;
    yield();
}
void wait(cond_fn c, void* arg, const char* what) {
    if (c(arg)) return;
    if (tl_self < 0) fail("deadlock", what, "blocked outside a task on %s", what);
    Task* me = &tasks[tl_self];
    me->st = BLOCKED;
    me->cond = c;
    me->cond_arg = arg;
    me->what = what;
    yield();
}
void enable_points(uint32_t mq) { max_quantum = mq; quantum = 0x7fffffff; }
void point() {
    if (tl_self < 0 || !max_quantum || !running) return;
    if (quantum == 0x7fffffff || --quantum > 0) return;
    count(F_PREEMPT);
    yield();
}
}
} // namespace sim
