#include "rt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
size_t malloc_usable_size(void*);
}

namespace sim {

const char* const counter_names[NCOUNTERS] = {
    "chunk_split", "stall", "source_eof", "source_throw", "short_write", "sink_full", "sink_throw", "sync_fail",
    "alloc_fail", "alloc_fail_sticky", "locale_flip", "preemption", "crash", "torn_write", "disconnect", "delay",
    "stale_error_code", "memory_pattern", "bad_token", "reentrant_use", "xalloc_pressure", "stream_state_fault", "writer_crash", "reader_crash",
    "ops", "tokens", "checks", "exceptions", "switches", "instrumented_accesses", "allocations", "recoveries", "successes", "failures_reported", "sync_ops", "fresh_process_comparisons"
};

enum { TAPE_MAX = 1 << 18, TRACE_MAX = 1 << 18, SIG_MAX = 1 << 14 };
enum { RUNNING = 0, OK = 1, VIOLATION = 2, HARNESS = 3 };

struct Shared {
    volatile int status;
    char cls[96];
    char key[160];
    char msg[3000];
    char where[400];
    uint64_t hash;
    uint64_t simtime;
    uint64_t counters[NCOUNTERS];
    uint32_t ntape, ntrace, nsig;
    uint32_t tape[TAPE_MAX];
    char trace[TRACE_MAX];
    uint64_t sigs[SIG_MAX];
};
static Shared* S;
static std::vector<uint32_t>* g_replay = nullptr;
static uint64_t rng_s[2];
static std::vector<std::pair<std::string, std::string>>* g_args;
void (*on_memory)(void*, size_t, int) = nullptr;
void (*on_access)() = nullptr;
bool access_seam = false;

// ---- PRNG: xoroshiro128+ seeded by splitmix64 ----
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static uint64_t rng_next() {
    uint64_t a = rng_s[0], b = rng_s[1], r = a + b;
    b ^= a;
    rng_s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    rng_s[1] = (b << 37) | (b >> 27);
    return r;
}
static uint32_t record(uint32_t v) {
    if (S->ntape >= TAPE_MAX) harness_error("choice tape overflow");
    S->tape[S->ntape++] = v;
    return v;
}
static bool from_tape(uint32_t n, uint32_t& v) {
    if (!g_replay) return false;
    v = S->ntape < g_replay->size() ? (*g_replay)[S->ntape] % n : 0;
    return true;
}
uint32_t pick(uint32_t n) {
    if (n == 0) harness_error("pick(0)");
    uint32_t v;
    if (!from_tape(n, v)) v = uint32_t((rng_next() >> 11) % n);
    return record(v);
}
bool chance(uint32_t num, uint32_t den) {
    uint32_t v;
    if (!from_tape(2, v)) v = (rng_next() >> 11) % den < num ? 1 : 0;
    return record(v) != 0;
}
uint32_t pickw(const uint32_t* w, uint32_t n) {
    uint32_t v;
    if (!from_tape(n, v)) {
        uint64_t total = 0;
        for (uint32_t i = 0; i < n; ++i) total += w[i];
        uint64_t r = (rng_next() >> 11) % total;
        v = 0;
        while (r >= w[v]) r -= w[v++];
    }
    return record(v);
}
uint64_t pick64() {
    uint64_t hi = pick(0x7fffffff), lo = pick(0x7fffffff), t = pick(4);
    return (hi << 33) ^ (lo << 2) ^ t;
}
bool replaying() { return g_replay != nullptr; }

uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    return h * 0x2545F4914F6CDD1DULL;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
void ev(const char* fmt, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > int(sizeof buf) - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    S->hash = hash_bytes(buf, n, S->hash);
    if (S->ntrace + n < TRACE_MAX) {
        memcpy(S->trace + S->ntrace, buf, n);
        S->ntrace += n;
    }
}
void sig(uint64_t s) { if (S->nsig < SIG_MAX) S->sigs[S->nsig++] = s; }
void time_add(uint64_t t) { S->simtime += t; }
void count(Counter c, uint64_t n) { S->counters[c] += n; }

static void put(char* dst, size_t cap, const char* fmt, va_list ap) { vsnprintf(dst, cap, fmt, ap); }
void fail(const char* cls, const char* key, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    put(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->key, sizeof S->key, "%s", key);
    ev("VIOLATION %s %s: %s", cls, key, S->msg);
    S->status = VIOLATION;
    _exit(42);
}
void harness_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    put(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    S->status = HARNESS;
    _exit(43);
}
void set_where(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    put(S->where, sizeof S->where, fmt, ap);
    va_end(ap);
}
const char* arg(const char* name, const char* def) {
    for (auto& a : *g_args) if (a.first == name) return a.second.c_str();
    return def;
}

// ---- memory ----
static thread_local AllocPlan tl_plan;
AllocPlan& alloc_plan() { return tl_plan; }
static uint64_t g_live_blocks, g_live_bytes;
static int g_fill = -1;
static alloc_hook_t g_hook = nullptr;
uint64_t live_blocks() { return g_live_blocks; }
uint64_t live_bytes() { return g_live_bytes; }
void set_heap_fill(int b) { g_fill = b; }
void set_alloc_hook(alloc_hook_t h) { g_hook = h; }
void alloc_begin(int mode, uint32_t k) {
    tl_plan.mode = mode; tl_plan.k = k; tl_plan.seen = 0; tl_plan.fired = 0; tl_plan.window = 0; tl_plan.paused = 0;
}
void alloc_end() { tl_plan.mode = 0; }

static bool should_fail() {
    AllocPlan& p = tl_plan;
    if (p.mode == 0 || p.window <= 0 || p.paused > 0) return false;
    if (g_hook) {
        ++p.paused;
        g_hook();
        --p.paused;
    }
    uint32_t i = p.seen++;
    bool f = false;
    switch (p.mode) {
        case 1: f = i == p.k; break;
        case 2: f = i >= p.k; break;
        case 3: f = (i & 1) == (p.k & 1); break;
        default: break;
    }
    if (f) {
        ++p.fired;
        ++S->counters[p.mode == 2 ? F_ALLOC_FAIL_STICKY : F_ALLOC_FAIL];
    }
    ++S->counters[C_ALLOCS];
    return f;
}

static bool g_quarantine = false;
static char* g_kept[20000];
static size_t g_nkept = 0;
void set_quarantine(bool on) { g_quarantine = on; }
struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t MAGIC = 0x51D3A110CA7ED00DULL, FREED = 0xDEADF4EEDEADF4EEULL;

static void* sim_new(size_t n, bool nothrow) {
    if (S && should_fail()) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    char* p = static_cast<char*>(__libc_malloc(n + sizeof(Hdr) + 8));
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    Hdr* h = reinterpret_cast<Hdr*>(p);
    h->size = n;
    h->magic = MAGIC;
    char* u = p + sizeof(Hdr);
    if (g_fill >= 0) memset(u, g_fill, n);
    memcpy(u + n, &MAGIC, 8);
    ++g_live_blocks;
    g_live_bytes += n;
    if (on_memory) on_memory(u, n, 0);
    return u;
}
static void sim_delete(void* q) {
    if (!q) return;
    char* u = static_cast<char*>(q);
    Hdr* h = reinterpret_cast<Hdr*>(u - sizeof(Hdr));
    if (h->magic != MAGIC) {
        if (S) fail("heap", h->magic == FREED ? "double-free" : "bad-free", "delete of a block that is not live (%s) at %s", h->magic == FREED ? "freed" : "unknown", S->where);
        abort();
    }
    if (memcmp(u + h->size, &MAGIC, 8) != 0) {
        if (S) fail("heap", "overflow", "write past the end of a %llu byte block at %s", (unsigned long long)h->size, S->where);
        abort();
    }
    if (on_memory) on_memory(u, h->size, 1);
    h->magic = FREED;
    --g_live_blocks;
    g_live_bytes -= h->size;
    if (g_quarantine && g_nkept < sizeof g_kept / sizeof *g_kept) {
        memset(u, 0xD5, h->size);
        g_kept[g_nkept++] = u;
        return;
    }
    if (g_fill >= 0) memset(u, g_fill ^ 0x5A, h->size);
    __libc_free(h);
}
void check_quarantine() {
    for (size_t i = 0; i < g_nkept; ++i) {
        Hdr* h = reinterpret_cast<Hdr*>(g_kept[i] - sizeof(Hdr));
        for (size_t k = 0; k < h->size; ++k)
            if ((unsigned char)g_kept[i][k] != 0xD5) fail("heap", "use-after-free", "byte %zu of a freed block of %llu bytes was changed", k, (unsigned long long)h->size);
    }
}

// ---- crash reporting ----
static void on_terminate() {
    const char* what = "no active exception";
    static char buf[300];
    if (std::exception_ptr e = std::current_exception()) {
        ++tl_plan.paused;
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { snprintf(buf, sizeof buf, "%s", x.what()); what = buf; }
        catch (...) { what = "unknown exception"; }
    }
    char key[160];
    snprintf(key, sizeof key, "%.140s", S->where);
    for (char* c = key; *c; ++c) if (*c == ' ') { *c = 0; break; }
    fail("terminate", key, "std::terminate called (%s) in %s", what, S->where);
}
static void on_signal(int s) {
    char key[160];
    snprintf(key, sizeof key, "%.140s", S->where);
    for (char* c = key; *c; ++c) if (*c == ' ') { *c = 0; break; }
    if (s == SIGXCPU || s == SIGALRM) fail("hang", key, "no progress within the CPU budget in %s", S->where);
    fail("signal", key, "signal %d in %s", s, S->where);
}

static Scenario* g_scenarios = nullptr;
Scenario::Scenario(const char* n, scenario_fn f) : name(n), fn(f), next(g_scenarios) { g_scenarios = this; }

static void child(scenario_fn fn, uint64_t seed) {
    uint64_t x = seed * 0xD1342543DE82EF95ULL + 0x1234567;
    rng_s[0] = splitmix(x);
    rng_s[1] = splitmix(x);
    static char alt[1 << 16];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGALRM };
    for (int s : sigs) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
    struct rlimit rl = { 20, 25 };
    setrlimit(RLIMIT_CPU, &rl);
    alarm(150);   // a run takes milliseconds; this only ends runs that are blocked for good
    struct rlimit core = { 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
    std::set_terminate(on_terminate);
    fn();
    run_complete();
}
int (*life_main)() = nullptr;
void run_complete() {
    S->status = OK;
    _exit(0);
}

struct Result { int status; uint64_t hash; };
static Result run_one(scenario_fn fn, uint64_t seed) {
    S->status = RUNNING;
    S->cls[0] = S->key[0] = S->msg[0] = S->where[0] = 0;
    S->hash = 1469598103934665603ULL;
    S->simtime = 0;
    memset(S->counters, 0, sizeof S->counters);
    S->ntape = S->ntrace = S->nsig = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(4); }
    if (pid == 0) child(fn, seed);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == RUNNING) {
        int s = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        if (s == SIGKILL || s == SIGTERM) {   // out of memory or ended from outside: not a finding
            S->status = HARNESS;
            snprintf(S->msg, sizeof S->msg, "run ended by signal %d at %s", s, S->where);
        } else {
            S->status = VIOLATION;
            snprintf(S->cls, sizeof S->cls, "%s", s ? "signal" : "exit");
            snprintf(S->key, sizeof S->key, "%.150s", S->where);
            for (char* c = S->key; *c; ++c) if (*c == ' ') { *c = 0; break; }
            snprintf(S->msg, sizeof S->msg, "run ended early: wait status %d at %s", st, S->where);
        }
    }
    Result r = { S->status, S->hash };
    return r;
}

static void json_str(FILE* f, const char* s, size_t n) {
    fputc('"', f);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void json_run(FILE* f, uint64_t seed) {
    fprintf(f, "{\"seed\": %llu, \"status\": %d, \"hash\": \"%016llx\", \"cls\": ", (unsigned long long)seed, S->status, (unsigned long long)S->hash);
    json_str(f, S->cls, strlen(S->cls));
    fputs(", \"key\": ", f);
    json_str(f, S->key, strlen(S->key));
    fputs(", \"msg\": ", f);
    json_str(f, S->msg, strlen(S->msg));
    fputs(", \"where\": ", f);
    json_str(f, S->where, strlen(S->where));
    fputs(", \"tape\": [", f);
    for (uint32_t i = 0; i < S->ntape; ++i) fprintf(f, i ? ",%u" : "%u", S->tape[i]);
    fputs("], \"trace\": ", f);
    json_str(f, S->trace, S->ntrace);
    fputs("}", f);
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

int real_main(int argc, char** argv) {
    // sim SCENARIO seed0 count out.json [k=v ...]
    // options: time= (s), dup= (re-run every n-th seed), known= (file), tape= (file), hashes= (file), sigs= (file), stride=
    static std::vector<std::pair<std::string, std::string>> args;
    g_args = &args;
    if (argc < 5) {
        for (Scenario* s = g_scenarios; s; s = s->next) puts(s->name);
        return 2;
    }
    for (int i = 5; i < argc; ++i) {
        const char* e = strchr(argv[i], '=');
        if (!e) { fprintf(stderr, "bad option %s\n", argv[i]); return 4; }
        args.push_back(std::make_pair(std::string(argv[i], size_t(e - argv[i])), std::string(e + 1)));
    }
    Scenario* sc = g_scenarios;
    while (sc && strcmp(sc->name, argv[1])) sc = sc->next;
    if (!sc) { fprintf(stderr, "no scenario %s\n", argv[1]); return 4; }
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (S == MAP_FAILED) { perror("mmap"); return 4; }
    uint64_t seed0 = strtoull(argv[2], nullptr, 10), n = strtoull(argv[3], nullptr, 10);
    double limit = atof(arg("time", "0")), t0 = now();
    unsigned dup = unsigned(atoi(arg("dup", "0")));
    uint64_t stride = strtoull(arg("stride", "1"), nullptr, 10);
    static std::vector<uint32_t> tape;
    if (*arg("tape", "")) {
        FILE* f = fopen(arg("tape", ""), "r");
        if (!f) { perror("tape"); return 4; }
        unsigned v;
        while (fscanf(f, "%u", &v) == 1) tape.push_back(v);
        fclose(f);
        g_replay = &tape;
    }
    std::unordered_set<std::string> known;
    if (*arg("known", "")) {
        FILE* f = fopen(arg("known", ""), "r");
        char line[512];
        while (f && fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if (*line) known.insert(line);
        }
        if (f) fclose(f);
    }
    FILE* fh = *arg("hashes", "") ? fopen(arg("hashes", ""), "w") : nullptr;
    uint64_t total[NCOUNTERS] = {}, simtime = 0, runs = 0, dups = 0, choices = 0, events = 0;
    std::unordered_set<uint64_t> sigs, traces;
    std::unordered_map<std::string, uint64_t> known_hits;
    std::string violation, harness, samples, nondet;
    for (uint64_t i = 0; i < n; ++i) {
        if (limit > 0 && now() - t0 > limit) break;
        uint64_t seed = seed0 + i * stride;
        Result r = run_one(sc->fn, seed);
        ++runs;
        for (int c = 0; c < NCOUNTERS; ++c) total[c] += S->counters[c];
        simtime += S->simtime;
        choices += S->ntape;
        for (uint32_t k = 0; k < S->nsig; ++k) sigs.insert(S->sigs[k]);
        traces.insert(S->hash);
        for (uint32_t k = 0; k < S->ntrace; ++k) events += S->trace[k] == '\n';
        if (fh) fprintf(fh, "%llu %d %016llx\n", (unsigned long long)seed, r.status, (unsigned long long)r.hash);
        if (runs <= 2 && S->status == OK) {
            char* buf = nullptr;
            size_t len = 0;
            FILE* m = open_memstream(&buf, &len);
            fprintf(m, "%s{\"seed\": %llu, \"hash\": \"%016llx\", \"choices\": %u, \"trace\": ", runs > 1 ? ", " : "", (unsigned long long)seed, (unsigned long long)S->hash, S->ntape);
            json_str(m, S->trace, S->ntrace < 2500 ? S->ntrace : 2500);
            fputs("}", m);
            fclose(m);
            samples.append(buf, len);
            free(buf);
        }
        bool isknown = false;
        if (r.status == VIOLATION) {
            std::string id = std::string(S->cls) + "|" + S->key;
            if (known.count(id)) { ++known_hits[id]; isknown = true; }
        }
        if (r.status == HARNESS || (r.status == VIOLATION && !isknown)) {
            char* buf = nullptr;
            size_t len = 0;
            FILE* m = open_memstream(&buf, &len);
            json_run(m, seed);
            fclose(m);
            (r.status == HARNESS ? harness : violation).assign(buf, len);
            free(buf);
            break;
        }
        if (dup && i % dup == 0) {
            std::vector<uint32_t> first(S->tape, S->tape + S->ntape);
            Result r2 = run_one(sc->fn, seed);
            ++dups;
            if (r2.status != r.status || r2.hash != r.hash) {
                char* buf = nullptr;
                size_t len = 0;
                FILE* m = open_memstream(&buf, &len);
                json_run(m, seed);
                fclose(m);
                nondet.assign(buf, len);
                free(buf);
                break;
            }
        }
    }
    if (fh) fclose(fh);
    if (*arg("sigs", "")) {
        FILE* f = fopen(arg("sigs", ""), "wb");
        for (uint64_t s : sigs) fwrite(&s, 8, 1, f);
        fclose(f);
        f = fopen((std::string(arg("sigs", "")) + ".traces").c_str(), "wb");
        for (uint64_t s : traces) fwrite(&s, 8, 1, f);
        fclose(f);
    }
    FILE* f = fopen(argv[4], "w");
    if (!f) { perror("out"); return 4; }
    fprintf(f, "{\"scenario\": \"%s\", \"runs\": %llu, \"reruns\": %llu, \"wall\": %.3f, \"simtime\": %llu, \"choices\": %llu, \"events\": %llu, \"sigs\": %zu, \"traces\": %zu, \"counters\": {", sc->name,
        (unsigned long long)runs, (unsigned long long)dups, now() - t0, (unsigned long long)simtime, (unsigned long long)choices, (unsigned long long)events, sigs.size(), traces.size());
    for (int c = 0; c < NCOUNTERS; ++c) fprintf(f, "%s\"%s\": %llu", c ? ", " : "", counter_names[c], (unsigned long long)total[c]);
    fputs("}, \"known\": {", f);
    bool first = true;
    for (auto& k : known_hits) {
        if (!first) fputs(", ", f);
        first = false;
        json_str(f, k.first.data(), k.first.size());
        fprintf(f, ": %llu", (unsigned long long)k.second);
    }
    fprintf(f, "}, \"samples\": [%s]", samples.c_str());
    if (!violation.empty()) fprintf(f, ", \"violation\": %s", violation.c_str());
    if (!harness.empty()) fprintf(f, ", \"harness\": %s", harness.c_str());
    if (!nondet.empty()) fprintf(f, ", \"nondet\": %s", nondet.c_str());
    fputs("}\n", f);
    fclose(f);
    return !violation.empty() ? 1 : !harness.empty() ? 3 : !nondet.empty() ? 5 : 0;
}

void fixed_addresses(char** argv) {   // so that nothing can depend on where the loader put us
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(p | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
}

} // namespace sim

// ---- replaced global allocation ----
void* operator new(size_t n) { return sim::sim_new(n, false); }
void* operator new[](size_t n) { return sim::sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_new(n, true); }
void operator delete(void* p) noexcept { sim::sim_delete(p); }
void operator delete[](void* p) noexcept { sim::sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p); }

int main(int argc, char** argv) {
    if (sim::life_main) return sim::life_main();
    sim::fixed_addresses(argv);
    return sim::real_main(argc, argv);
}
