#include "tsan_rt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
size_t malloc_usable_size(void*);
}

namespace sim {
namespace tsan {

typedef uintptr_t up;
enum { T = sched::MAX_TASKS };
struct VC { uint32_t c[T]; };
static void join(VC& a, const VC& b) { for (int i = 0; i < T; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

static bool on = false;
static VC clk[T], pending_acq[T], fence_rel[T];
static bool have_fence_rel[T];
static uint32_t spins[T];
const char* (*describe_task)(int) = nullptr;

// ---- shadow: 8-byte granules ----------------------------------------------------------------
struct Epoch { uint32_t clk; uint8_t t; };
struct Atom { uint32_t r[T][8], w[T][8]; };
struct Cell {
    up g;                 // address / 8, 0: free
    uint32_t wclk[8];     // last plain write
    uint8_t wt[8];
    uint32_t r[T][8];     // last plain reads
    uint32_t wpc, rpc[T];
    Atom* a;
};
enum { CELLS = 1 << 16, ATOMS = 1 << 12, SYNCS = 1 << 12 };
static Cell* cells = nullptr;
static Atom* atoms = nullptr;
static uint32_t natoms = 0, ncells = 0;
struct Sync { up a; VC v; bool any; };
static Sync* syncs = nullptr;

static Cell* cell(up g, bool make) {
    uint32_t h = uint32_t((g * 0x9E3779B97F4A7C15ULL) >> 48);
    for (uint32_t i = 0; i < CELLS; ++i) {
        Cell& c = cells[(h + i) & (CELLS - 1)];
        if (c.g == g) return &c;
        if (!c.g) {
            if (!make) return nullptr;
            if (++ncells > CELLS - CELLS / 8) harness_error("shadow memory exhausted");
            c.g = g;
            return &c;
        }
    }
    return nullptr;
}
static Sync& sync(up a) {
    uint32_t h = uint32_t((a * 0x9E3779B97F4A7C15ULL) >> 52);
    for (uint32_t i = 0; i < SYNCS; ++i) {
        Sync& s = syncs[(h + i) & (SYNCS - 1)];
        if (s.a == a) return s;
        if (!s.a) { s.a = a; return s; }
    }
    harness_error("too many synchronisation objects");
}

struct Image { up lo, hi; };
static Image images[64];
static int nimages = 0;
static Image self_image;
static int add_image(struct dl_phdr_info* i, size_t, void*) {
    bool self = !i->dlpi_name || !*i->dlpi_name;        // the program itself
    up lo = ~up(0), hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            up a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
            if (a < lo) lo = a;
            if (b > hi) hi = b;
        }
    if (self) { if (!self_image.hi) { self_image.lo = lo; self_image.hi = (hi + 4095) & ~up(4095); } return 0; }
    if (hi && nimages < 64) { images[nimages].lo = lo; images[nimages].hi = (hi + 4095) & ~up(4095); ++nimages; }
    return 0;
}
static bool foreign(up a) {
    for (int i = 0; i < nimages; ++i) if (a >= images[i].lo && a < images[i].hi) return true;
    return false;
}

static __thread up stk_lo = 0, stk_hi = 0;
static bool own_stack(up a) {
    if (!stk_hi) {
        pthread_attr_t at;
        if (pthread_getattr_np(pthread_self(), &at) != 0) harness_error("pthread_getattr_np");
        void* p;
        size_t n;
        pthread_attr_getstack(&at, &p, &n);
        pthread_attr_destroy(&at);
        stk_lo = up(p);
        stk_hi = up(p) + n;
    }
    return a >= stk_lo && a < stk_hi;
}

// the first line of the library on the way to pc, without directories
static void symbol(uint32_t pc, char* out, size_t n) {
    snprintf(out, n, "pc %x", pc);
    if (!pc) { snprintf(out, n, "release of the memory"); return; }
    char cmd[100];
    snprintf(cmd, sizeof cmd, "addr2line -e /proc/%d/exe -fiC %x 2>/dev/null", int(getpid()), pc - 1);
    FILE* f = popen(cmd, "r");
    if (!f) return;
    char fn[600], ln[600], best[1400] = "";
    while (fgets(fn, sizeof fn, f) && fgets(ln, sizeof ln, f)) {
        fn[strcspn(fn, "\n")] = 0;
        ln[strcspn(ln, "\n")] = 0;
        const char* s = strrchr(ln, '/');
        bool lib = strstr(ln, "/ipaddress/") != nullptr;
        if (!*best || lib) snprintf(best, sizeof best, "%.300s at %.100s", fn, s ? s + 1 : ln);
        if (lib) break;
    }
    pclose(f);
    if (*best && best[0] != '?') snprintf(out, n, "%s", best);
}
static void race(const char* what, up a, int me, uint32_t pc, int other, uint32_t opc, const char* did) {
    on = false;
    char s1[700], s2[700];
    symbol(pc, s1, sizeof s1);
    symbol(opc, s2, sizeof s2);
    const char* d = describe_task ? describe_task(me) : "";
    char key[150];
    snprintf(key, sizeof key, "%.140s", d);
    for (char* c = key; *c; ++c) if (*c == ' ') { *c = 0; break; }
    Dl_info di;
    bool global = dladdr(reinterpret_cast<void*>(a), &di) && di.dli_fname;
    ev("race: task %d (%s) %s in %s", me, d, what, s1);
    ev("race: task %d (%s) %s in %s", other, describe_task ? describe_task(other) : "", did, s2);
    fail("race", key, "data race on %s memory without synchronisation: task %d %s in %s; task %d %s in %s", global ? "static" : "heap", me, what, s1, other, did, s2);
}

static void check(up a, size_t n, bool write, uint32_t pc) {
    if (on_access) on_access();
    if (!on) return;
    int me = sched::self();
    if (me < 0) return;
    sched::point();
    if (own_stack(a) || foreign(a)) return;
    count(C_ACCESSES);
    const VC& my = clk[me];
    up g = 0;
    Cell* c = nullptr;
    for (size_t k = 0; k < n; ++k) {
        up x = a + k;
        if ((x >> 3) != g) { g = x >> 3; c = cell(g, true); }
        int b = int(x & 7);
        if (c->wclk[b] && c->wt[b] != me && c->wclk[b] > my.c[c->wt[b]]) race(write ? "writes" : "reads", x, me, pc, c->wt[b], c->wpc, "wrote");
        if (write)
            for (int t = 0; t < T; ++t)
                if (t != me && c->r[t][b] > my.c[t]) race("writes", x, me, pc, t, c->rpc[t], "read");
        if (c->a)
            for (int t = 0; t < T; ++t)
                if (t != me && (c->a->w[t][b] > my.c[t] || (write && c->a->r[t][b] > my.c[t]))) race(write ? "writes plainly" : "reads plainly", x, me, pc, t, c->rpc[t], "accessed atomically");
        if (write) { c->wclk[b] = my.c[me]; c->wt[b] = uint8_t(me); }
        else c->r[me][b] = my.c[me];
    }
    if (c) { g = 0; for (size_t k = 0; k < n; k += 8) { c = cell((a + k) >> 3, true); if (write) c->wpc = pc; else c->rpc[me] = pc; } c = cell((a + n - 1) >> 3, true); if (write) c->wpc = pc; else c->rpc[me] = pc; }
}
static void check_atomic(up a, size_t n, bool write, uint32_t pc) {
    int me = sched::self();
    if (own_stack(a) || foreign(a)) return;
    count(C_ACCESSES);
    const VC& my = clk[me];
    for (size_t k = 0; k < n; ++k) {
        up x = a + k;
        Cell* c = cell(x >> 3, true);
        int b = int(x & 7);
        if (c->wclk[b] && c->wt[b] != me && c->wclk[b] > my.c[c->wt[b]]) race("accesses atomically", x, me, pc, c->wt[b], c->wpc, "wrote plainly");
        if (write)
            for (int t = 0; t < T; ++t)
                if (t != me && c->r[t][b] > my.c[t]) race("writes atomically", x, me, pc, t, c->rpc[t], "read plainly");
        if (!c->a) { if (natoms >= ATOMS) harness_error("too many atomics"); c->a = &atoms[natoms++]; }
        (write ? c->a->w : c->a->r)[me][b] = my.c[me];
        c->rpc[me] = pc;
    }
}
static void forget(up a, size_t n) {
    for (up g = a >> 3; g <= (a + n - 1) >> 3; ++g)
        if (Cell* c = cell(g, false)) {
            up k = c->g;
            Atom* at = c->a;
            if (at) memset(at, 0, sizeof *at);
            memset(c, 0, sizeof *c);
            c->g = k;
            c->a = at;
        }
    if (n <= 256)
        for (size_t i = 0; i < n; ++i) {
            uint32_t h = uint32_t(((a + i) * 0x9E3779B97F4A7C15ULL) >> 52);
            for (uint32_t k = 0; k < SYNCS; ++k) {
                Sync& s = syncs[(h + k) & (SYNCS - 1)];
                if (!s.a) break;
                if (s.a == a + i) { memset(&s.v, 0, sizeof s.v); break; }
            }
        }
}
static void memory(void* p, size_t n, int is_free) {
    if (!on || !n || sched::self() < 0) return;
    if (is_free) check(up(p), n, true, 0);
    forget(up(p), n);
}
static void acquire(up a) { join(clk[sched::self()], sync(a).v); }
static void release(up a) {     // adds to what is there
    int me = sched::self();
    join(sync(a).v, clk[me]);
    ++clk[me].c[me];
}
static void spawned(int, int child) {
    memset(&clk[child], 0, sizeof clk[child]);
    clk[child].c[child] = 1;
    spins[child] = 0;
}

void begin(uint32_t q) {
    if (!cells) {
        cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        atoms = static_cast<Atom*>(mmap(nullptr, sizeof(Atom) * ATOMS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        syncs = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * SYNCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (cells == MAP_FAILED || atoms == MAP_FAILED || syncs == MAP_FAILED) harness_error("mmap");
        dl_iterate_phdr(&add_image, nullptr);
    }
    for (int i = 0; i < T; ++i) spawned(-1, i);
    sched::enable_points(q);
    on_memory = &memory;
    on = true;
}
void end() { on = false; on_memory = nullptr; sched::enable_points(0); }

static bool tracking() {
    if (on_access) on_access();
    return on && sched::self() >= 0;
}

// a thread that spins on an atomic lets the others go on
static void spin_check() {
    int me = sched::self();
    if (++spins[me] % 300 == 0) sched::yield();
}
// Synchronisation is where orders matter: switch there more often than elsewhere, most of all at the
// program's own static objects.
static void sync_point(up a) {
    bool stat = a >= self_image.lo && a < self_image.hi;
    if (chance(stat ? 1 : 1, stat ? 2 : 24)) { count(F_PREEMPT); sched::yield(); }
    else sched::point();
}
static void atomic_pre(up a, size_t n, bool write, uint32_t pc) {
    sync_point(a);
    spin_check();
    count(C_SYNC_OPS);
    check_atomic(a, n, write, pc);
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void after_load(up a, int mo) {
    int me = sched::self();
    if (acq(mo)) acquire(a); else join(pending_acq[me], sync(a).v);
}
static void at_store(up a, int mo, bool rmw) {
    int me = sched::self();
    Sync& s = sync(a);
    if (!rmw) memset(&s.v, 0, sizeof s.v);
    if (rel(mo)) { join(s.v, clk[me]); ++clk[me].c[me]; }
    else if (have_fence_rel[me]) join(s.v, fence_rel[me]);
}
static void fence(int mo) {
    int me = sched::self();
    if (acq(mo)) join(clk[me], pending_acq[me]);
    if (rel(mo)) { fence_rel[me] = clk[me]; have_fence_rel[me] = true; ++clk[me].c[me]; }
}

// ---- locks ----------------------------------------------------------------------------------
struct Lock { up a; int owner, depth, readers, waiting; uint32_t seq; };
static Lock locks[256];
static Lock& lock_of(const void* p) {
    for (int i = 0; i < 256; ++i) {
        if (locks[i].a == up(p)) return locks[i];
        if (!locks[i].a) { locks[i].a = up(p); locks[i].owner = -1; return locks[i]; }
    }
    harness_error("too many locks");
}
static bool lock_free(void* p) { Lock* l = static_cast<Lock*>(p); return l->owner < 0 && l->readers == 0; }
static bool lock_readable(void* p) { return static_cast<Lock*>(p)->owner < 0; }
static int do_lock(const void* m, bool recursive, bool try_only) {
    count(C_SYNC_OPS);
    sync_point(up(m));
    Lock& l = lock_of(m);
    int me = sched::self();
    if (l.owner == me && recursive) { ++l.depth; return 0; }
    if (try_only && !lock_free(&l)) return EBUSY;
    while (!lock_free(&l)) sched::wait(&lock_free, &l, "a mutex");
    l.owner = me;
    l.depth = 1;
    acquire(up(m));
    return 0;
}
static int do_unlock(const void* m) {
    Lock& l = lock_of(m);
    count(C_SYNC_OPS);
    release(up(m));
    if (l.owner == sched::self()) { if (--l.depth == 0) l.owner = -1; }
    else if (l.readers > 0) --l.readers;
    sync_point(up(m));
    return 0;
}
static int do_rdlock(const void* m, bool try_only) {
    sched::point();
    count(C_SYNC_OPS);
    Lock& l = lock_of(m);
    if (try_only && !lock_readable(&l)) return EBUSY;
    while (!lock_readable(&l)) sched::wait(&lock_readable, &l, "a shared mutex");
    ++l.readers;
    acquire(up(m));
    return 0;
}
template <class F> F real(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) abort();
    return reinterpret_cast<F>(p);
}
} // namespace tsan
} // namespace sim

using namespace sim;
using namespace sim::tsan;
#define PC uint32_t(up(__builtin_return_address(0)))

extern "C" {
void __tsan_init() { access_seam = true; }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { check(up(p), n, false, PC); } \
    void __tsan_write##n(void* p) { check(up(p), n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { check(up(p), n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { check(up(p), n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { check(up(p), n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { check(up(p), n, true, PC); } \
    void __tsan_read_write##n(void* p) { check(up(p), n, false, PC); check(up(p), n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { check(up(p), n, false, PC); check(up(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) check(up(p), sizeof(void*), true, PC); }
void __tsan_vptr_read(void** p) { check(up(p), sizeof(void*), false, PC); }
void __tsan_read_range(void* p, size_t n) { check(up(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { check(up(p), n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { check(up(s), n, false, PC); check(up(d), n, true, PC); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { check(up(s), n, false, PC); check(up(d), n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) check(up(d), n, true, PC); return memset(d, c, n); }

typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long long a64;
// one task runs at a time, so plain accesses do for the value
#define ATOMIC(t) \
    a##t __tsan_atomic##t##_load(const volatile a##t* p, int mo) { \
        if (tracking()) { atomic_pre(up(p), sizeof *p, false, PC); after_load(up(p), mo); } \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##t##_store(volatile a##t* p, a##t v, int mo) { \
        if (tracking()) { atomic_pre(up(p), sizeof *p, true, PC); at_store(up(p), mo, false); } \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    a##t __tsan_atomic##t##_exchange(volatile a##t* p, a##t v, int mo) { \
        if (tracking()) { atomic_pre(up(p), sizeof *p, true, PC); after_load(up(p), mo); at_store(up(p), mo, true); } \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    RMW(t, fetch_add) RMW(t, fetch_sub) RMW(t, fetch_and) RMW(t, fetch_or) RMW(t, fetch_xor) RMW(t, fetch_nand) \
    int __tsan_atomic##t##_compare_exchange_strong(volatile a##t* p, a##t* c, a##t v, int mo, int fmo) { return cas##t(p, c, v, mo, fmo, PC); } \
    int __tsan_atomic##t##_compare_exchange_weak(volatile a##t* p, a##t* c, a##t v, int mo, int fmo) { return cas##t(p, c, v, mo, fmo, PC); } \
    a##t __tsan_atomic##t##_compare_exchange_val(volatile a##t* p, a##t c, a##t v, int mo, int fmo) { cas##t(p, &c, v, mo, fmo, PC); return c; }
#define RMW(t, f) \
    a##t __tsan_atomic##t##_##f(volatile a##t* p, a##t v, int mo) { \
        if (tracking()) { atomic_pre(up(p), sizeof *p, true, PC); after_load(up(p), mo); at_store(up(p), mo, true); } \
        return __atomic_##f(p, v, __ATOMIC_SEQ_CST); }
#define CAS(t) \
    static int cas##t(volatile a##t* p, a##t* c, a##t v, int mo, int fmo, uint32_t pc) { \
        if (!tracking()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        bool will = *p == *c; \
        atomic_pre(up(p), sizeof *p, will, pc); \
        will = *p == *c; \
        after_load(up(p), will ? mo : fmo); \
        if (will) { at_store(up(p), mo, true); *p = v; } else *c = *p; \
        return will; }
CAS(8) CAS(16) CAS(32) CAS(64)
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64)
void __tsan_atomic_thread_fence(int mo) { if (tracking()) { sched::point(); fence(mo); } }
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics ----
struct Guard { unsigned char done, busy; };
static bool guard_idle(void* p) { Guard* g = static_cast<Guard*>(p); return g->done || !g->busy; }
int __cxa_guard_acquire(__cxxabiv1::__guard* p) {
    Guard* g = reinterpret_cast<Guard*>(p);
    if (!tracking()) { if (g->done) return 0; g->busy = 1; return 1; }
    sync_point(up(p));
    count(C_SYNC_OPS);
    while (!g->done && g->busy) {
        if (g->busy == 2 + sched::self()) fail("deadlock", "static", "a function-local static is initialised recursively");
        sched::wait(&guard_idle, g, "the initialisation of a function-local static");
    }
    acquire(up(p));
    if (g->done) return 0;
    g->busy = (unsigned char)(2 + sched::self());
    return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* p) {
    Guard* g = reinterpret_cast<Guard*>(p);
    if (tracking()) release(up(p));
    g->busy = 0;
    g->done = 1;
    if (tracking()) sync_point(up(p));
}
void __cxa_guard_abort(__cxxabiv1::__guard* p) {
    Guard* g = reinterpret_cast<Guard*>(p);
    if (tracking()) release(up(p));
    g->busy = 0;
    if (tracking()) sched::point();
}

// ---- locks of the standard library ----
#define REAL(f) ([]() { static decltype(&f) r = nullptr; if (!r) { void* q = dlsym(RTLD_NEXT, #f); memcpy(&r, &q, sizeof q); } return r; }())
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!tracking()) return REAL(pthread_mutex_lock)(m); return do_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!tracking()) return REAL(pthread_mutex_trylock)(m); return do_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!tracking()) return REAL(pthread_mutex_unlock)(m); return do_unlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (!tracking()) return REAL(pthread_rwlock_rdlock)(m); return do_rdlock(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (!tracking()) return REAL(pthread_rwlock_tryrdlock)(m); return do_rdlock(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (!tracking()) return REAL(pthread_rwlock_wrlock)(m); return do_lock(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (!tracking()) return REAL(pthread_rwlock_trywrlock)(m); return do_lock(m, false, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (!tracking()) return REAL(pthread_rwlock_unlock)(m); return do_unlock(m); }
static bool cond_signalled(void* p) { Lock* l = static_cast<Lock*>(p); return l->waiting == 0 || l->seq != 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!tracking()) return REAL(pthread_cond_wait)(c, m);
    Lock& l = lock_of(c);
    ++l.waiting;
    do_unlock(m);
    sched::wait(&cond_signalled, &l, "a condition variable");
    --l.waiting;
    if (l.seq) --l.seq;
    return do_lock(m, false, false);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!tracking()) return REAL(pthread_cond_signal)(c);
    Lock& l = lock_of(c);
    if (l.waiting > int(l.seq)) ++l.seq;
    sched::point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!tracking()) return REAL(pthread_cond_broadcast)(c);
    Lock& l = lock_of(c);
    l.seq = uint32_t(l.waiting);
    sched::point();
    return 0;
}
static bool once_idle(void* p) { int v = *static_cast<int*>(p); return v == 0 || v == 2; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!tracking()) return REAL(pthread_once)(o, f);
    sched::point();
    count(C_SYNC_OPS);
    int* v = static_cast<int*>(o);
    while (!once_idle(v)) sched::wait(&once_idle, v, "a call_once");
    acquire(up(o));
    if (*v == 2) return 0;
    *v = 1;
    try { f(); } catch (...) { *v = 0; release(up(o)); throw; }
    release(up(o));
    *v = 2;
    sched::point();
    return 0;
}

// ---- memory that changes hands ----
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (p && tracking()) forget(up(p), n ? n : 1);
    return p;
}
void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    if (p && tracking()) forget(up(p), a * b ? a * b : 1);
    return p;
}
void* realloc(void* q, size_t n) {
    void* p = __libc_realloc(q, n);
    if (p && tracking()) forget(up(p), n ? n : 1);
    return p;
}
void free(void* p) {
    if (p && tracking()) forget(up(p), malloc_usable_size(p));
    __libc_free(p);
}
}
