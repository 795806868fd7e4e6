// C14: operations at every time of a process's life. A run is a process of its own: the plan is made
// before anything else of the program is initialised, each probe's reference outcome is taken in the
// main() of a forked copy, and then the process lives through its phases, down to the last handler.
#include "ops.hpp"
#include <cerrno>
#include <csetjmp>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
using namespace ops;
namespace {

enum Phase { FIRST, STATIC1, STATIC2, MAIN, THREAD, THREAD_END, LATE, MAIN_END, HANDLER2, UNSTATIC2, UNSTATIC1, HANDLER1, LAST, NPHASES };
const char* const phase_names[NPHASES] = { "before-static-objects", "static-objects-1", "static-objects-2", "main", "thread", "thread-end", "main-again", "thread-locals-of-main", "late-exit-handler", "static-destruction-2", "static-destruction-1", "early-exit-handler", "last" };

enum How { PLAIN, THREADED, FORKED, WORKER, FORKED_MIDWAY };   // midway: while the old thread is in the middle of an operation
struct Step {
    int kind;
    const Op* op;
    In in;
    int slot;          // compared with this fresh outcome; -1: history; -2 - i: next use of long-lived object i
    int mode;          // memory fault (history only)
    uint32_t k;
    int how;
    int busy_with;     // FORKED_MIDWAY: this probe
    uint32_t point;    // ... at this point of it
    Step() : kind(V4), op(nullptr), slot(-1), mode(0), k(0), how(PLAIN), busy_with(0), point(0) {}
};
// One use of a stream that lives through several phases.
struct Act {
    int what;          // 0 form, 1 rule, 2 insert, 3 extract, 4 standard output, 5 take the text
    int arg, kind;
    Val v;
    Base base;
    std::string text;
    Act() : what(0), arg(0), kind(V4), base(DEC) {}
};
struct Channel {
    virtual void act(const Act&, Out&) = 0;
};
template <class C> struct Streams : Channel {
    std::basic_ostringstream<C> os;
    std::basic_istringstream<C> is;
    const Act* a;
    Out* out;
    template <class T> void go() {
        if (a->what == 2) {
            os.setf(a->base == HEX ? std::ios_base::hex : a->base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
            T t = Tr<T>::make(a->v);
            os << t << C(' ');
        } else {
            is.clear();
            is.str(widen<C>(a->text));
            is.setf(a->base == HEX ? std::ios_base::hex : a->base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
            T t{};
            is >> t;
            out->num("state", uint64_t(is.rdstate()));
            if (!is.fail()) out->obj("extracted", t);
        }
    }
    void act(const Act& x, Out& o) override {
        a = &x;
        out = &o;
        switch (a->what) {
            case 0: if (a->arg == 0) os << ip::full; else if (a->arg == 1) os << ip::compact; else os << ip::compressed; break;
            case 1: if (a->arg) is >> ip::non_strict; else is >> ip::strict; break;
            case 4: os << 12345 << C(' '); break;
            case 5: out->str("text", os.str()); os.str(std::basic_string<C>()); break;
            default: dispatch(a->kind, *this);
        }
        out->num("good", os.good());
    }
};
// Objects (streams, or the arguments of an operation) that are made in one phase and used in later ones.
struct Long {
    enum { ACTS = 6 };
    bool stream, wide;
    Step s;
    std::vector<Act> acts;
    size_t uses;       // how often it is used (the first makes it)
    size_t next;
    Channel* ch;
    void* cx;
    Out* fresh;        // one per use
    Long() : stream(false), wide(false), uses(0), next(0), ch(nullptr), cx(nullptr), fresh(nullptr) {}
    void use(Out& o);
};
struct LongAct { Channel* ch; const Act* a; };
void long_act(void* p, Out& o) { static_cast<LongAct*>(p)->ch->act(*static_cast<LongAct*>(p)->a, o); }
void Long::use(Out& o) {
    o.clear();
    size_t i = next++;
    if (stream) {
        if (i == 0) { if (wide) ch = new Streams<wchar_t>; else ch = new Streams<char>; }
        LongAct a = { ch, &acts[i] };
        guard(&long_act, &a, o);
        return;
    }
    if (i == 0) { cx = s.op->mk(s.in, 0); return; }
    guard(s.op->body, cx, o);
    if (!(s.op->flags & MUT)) s.op->chk(cx, s.in);
}
struct Plan {
    std::vector<Step> probes;
    std::vector<Long> longs;
    std::vector<Step> at[NPHASES];
    Out* fresh;
    Out* scratch;      // shared with forked children
    bool tls_first;    // the thread_local objects of the program are older than those of the library
    int worker_at;     // phase in which a long-lived thread is started, or -1
    bool daemon;       // the process goes on as a fork of itself
    int end;           // how it ends
};
Plan* g;
jmp_buf g_back;
int g_fresh = -1;      // in a process that takes the reference outcome of this probe
int g_steps, g_faults;
const char* g_phase;

void opname(const Op& op, int kind, char* b, size_t n) {
    snprintf(b, n, "%s.%s%s%s", kind_names[kind], op.name, *op.sub ? "." : "", op.sub);
    for (char* c = b; *c; ++c) if (*c == ' ') *c = '_';
}
const Op& choose(int kind) {
    static const uint32_t w[3] = { 5, 2, 3 };
    uint32_t k = pickw(w, 3);
    return pick_op(kind, k == 0 ? AL : k == 1 ? ST : NT);
}

void once(const Step& s, Out& out);

// ---- a thread that lives on ----
struct Worker {
    pthread_mutex_t m;
    pthread_cond_t c;
    const Step* job;
    Out* out;
    bool up;
    bool stop, parked;     // it stops at the point'th point of its operation
    uint32_t point;
    pthread_t id;
};
Worker g_worker = { PTHREAD_MUTEX_INITIALIZER, PTHREAD_COND_INITIALIZER, nullptr, nullptr, false, false, false, 0, pthread_t() };
void park() {              // its mutex is held
    if (!g_worker.stop || !pthread_equal(pthread_self(), g_worker.id)) return;
    if (g_worker.point > 0) { --g_worker.point; return; }
    g_worker.parked = true;
    pthread_cond_broadcast(&g_worker.c);
    while (g_worker.stop) pthread_cond_wait(&g_worker.c, &g_worker.m);
    g_worker.parked = false;
}
void* worker_body(void*) {
    pthread_mutex_lock(&g_worker.m);
    g_worker.id = pthread_self();
    for (;;) {
        while (!g_worker.job) pthread_cond_wait(&g_worker.c, &g_worker.m);
        alloc_begin(4, 0);
        once(*g_worker.job, *g_worker.out);
        alloc_end();
        g_worker.job = nullptr;
        pthread_cond_broadcast(&g_worker.c);
    }
    return nullptr;
}
void start_worker() {
    pthread_t t;
    if (pthread_create(&t, nullptr, &worker_body, nullptr) != 0) harness_error("pthread_create");
    pthread_detach(t);
    g_worker.up = true;
}

void* threaded(void* p) {
    std::pair<const Step*, Out*>* a = static_cast<std::pair<const Step*, Out*>*>(p);
    once(*a->first, *a->second);
    return nullptr;
}
void once(const Step& s, Out& out) {
    if (s.slot <= -2) g->longs[size_t(-2 - s.slot)].use(out);
    else run(*s.op, s.in, out);
}
void perform(const Step& s, int how, Out& out) {
    if (how == THREADED) {
        std::pair<const Step*, Out*> a(&s, &out);
        pthread_t t;
        if (pthread_create(&t, nullptr, &threaded, &a) != 0) harness_error("pthread_create");
        pthread_join(t, nullptr);
    } else if (how == FORKED || how == FORKED_MIDWAY) {
        bool midway = how == FORKED_MIDWAY && g_worker.up;
        static Out other;
        if (midway) {
            pthread_mutex_lock(&g_worker.m);
            set_alloc_hook(&park);
            g_on_stream = &park;
            g_worker.point = s.point;
            g_worker.stop = true;
            g_worker.job = &g->probes[size_t(s.busy_with)];
            g_worker.out = &other;
            pthread_cond_broadcast(&g_worker.c);
            while (g_worker.job && !g_worker.parked) pthread_cond_wait(&g_worker.c, &g_worker.m);
            ev("  midway: %d", int(g_worker.parked));
            if (g_worker.parked) count(F_REENTRANT);
        }
        pid_t pid = fork();
        if (pid < 0) harness_error("fork");
        if (pid == 0) {
            alarm(20);
            set_alloc_hook(nullptr);
            g_on_stream = nullptr;
            once(s, *g->scratch);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (st != 0) {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) _exit(WEXITSTATUS(st));
            fail("signal", s.op->name, "forked process ended with %d", st);
        }
        if (midway) {
            g_worker.stop = false;
            pthread_cond_broadcast(&g_worker.c);
            while (g_worker.job) pthread_cond_wait(&g_worker.c, &g_worker.m);
            set_alloc_hook(nullptr);
            g_on_stream = nullptr;
            pthread_mutex_unlock(&g_worker.m);
            char name[120];
            const Step& p = g->probes[size_t(s.busy_with)];
            opname(*p.op, p.kind, name, sizeof name);
            static char d[2000];
            diff(other, g->fresh[s.busy_with], d, sizeof d);
            if (!same(other, g->fresh[s.busy_with])) fail("life", name, "%s, with a fork in its middle: %s (in main)", g_phase, d);
        }
        memcpy(static_cast<void*>(&out), g->scratch, sizeof out);
    } else if (how == WORKER && g_worker.up) {
        pthread_mutex_lock(&g_worker.m);
        g_worker.job = &s;
        g_worker.out = &out;
        pthread_cond_broadcast(&g_worker.c);
        while (g_worker.job) pthread_cond_wait(&g_worker.c, &g_worker.m);
        pthread_mutex_unlock(&g_worker.m);
    } else {
        alloc_begin(s.mode, s.k);
        once(s, out);
        g_faults += int(alloc_plan().fired);
        alloc_end();
    }
}
void live(int phase) {
    if (!g || g_fresh >= 0) return;
    static Out out;
    g_phase = phase_names[phase];
    if (g->worker_at == phase) start_worker();
    for (const Step& s : g->at[phase]) {
        char name[140];
        const Long* lo = s.slot <= -2 ? &g->longs[size_t(-2 - s.slot)] : nullptr;
        size_t use = lo ? lo->next : 0;
        if (lo && lo->stream) snprintf(name, sizeof name, "stream.%s.%d", lo->wide ? "wchar_t" : "char", lo->acts[use].what);
        else opname(*s.op, s.kind, name, sizeof name);
        perform(s, s.how, out);
        ++g_steps;
        ev("%s: %s %s use %zu how %d mode %d out %016llx", g_phase, s.slot == -1 ? "history" : lo ? "long-lived" : "call", name, use, s.how, s.mode, (unsigned long long)hash_out(out));
        sig(mix(hash_bytes(name, strlen(name)), mix(uint64_t(phase) * 8 + uint64_t(s.how), hash_out(out))));
        if (s.slot == -1) continue;
        count(C_CHECKS);
        const Out& want = lo ? lo->fresh[use] : g->fresh[s.slot];
        if (!same(out, want)) {
            static char d[2000];
            diff(out, want, d, sizeof d);
            fail("life", name, "%s (manner %d, step %d of this process, use %zu of its object): %s (in main); arguments %s", g_phase, s.how, g_steps, use, d, lo && lo->stream ? lo->acts[use].text.c_str() : desc_in(s.in).s);
        }
    }
}

// ---- times of a life ----
struct AtThreadEnd {
    int phase;
    AtThreadEnd() : phase(-1) {}
    ~AtThreadEnd() { if (phase >= 0) live(phase); }
};
thread_local AtThreadEnd tl_end;
void handler1() { live(HANDLER1); }
void handler2() { live(HANDLER2); }
struct Static {
    int up, down;
    Static(int u, int d) : up(u), down(d) { live(up); }
    ~Static() { live(down); }
};
void* thread_life(void*) {
    if (g->tls_first) tl_end.phase = THREAD_END;
    live(THREAD);
    tl_end.phase = THREAD_END;
    return nullptr;
}
void quick1() { live(HANDLER1); live(LAST); check_quarantine(); run_complete(); }
void* exit_elsewhere(void*) { exit(0); return nullptr; }
int main_of_life() {
    if (g_fresh >= 0) {
        size_t i = size_t(g_fresh);
        if (i < g->probes.size()) run(*g->probes[i].op, g->probes[i].in, g->fresh[i]);
        else {
            Long& l = g->longs[i - g->probes.size()];
            for (size_t u = 0; u < l.uses; ++u) l.use(l.fresh[u]);
        }
        _exit(0);
    }
    live(MAIN);
    if (g->daemon && !g_worker.up) {
        pid_t pid = fork();
        if (pid < 0) harness_error("fork");
        if (pid != 0) {
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st)) fail("signal", "life", "the process ended with signal %d, %s", WTERMSIG(st), g_phase);
            _exit(WEXITSTATUS(st));
        }
        count(C_FRESH);
    }
    pthread_t t;
    if (pthread_create(&t, nullptr, &thread_life, nullptr) != 0) harness_error("pthread_create");
    pthread_join(t, nullptr);
    live(LATE);
    tl_end.phase = MAIN_END;
    atexit(&handler2);
    at_quick_exit(&handler2);
    switch (g->end) {
        case 1: exit(0);
        case 2: quick_exit(0);
        case 3:
            if (pthread_create(&t, nullptr, &exit_elsewhere, nullptr) != 0) harness_error("pthread_create");
            pthread_join(t, nullptr);
            harness_error("exit returned");
        default: break;
    }
    return 0;
}

void make_step(Step& s) {
    s.kind = int(pick(NKINDS));
    s.op = &choose(s.kind);
    s.in = gen_in(s.kind);
    s.slot = -1;
    s.mode = 0;
    s.k = 0;
    s.how = PLAIN;
}
void make_long(Long& l, int slot) {
    l.stream = chance(1, 2);
    char name[120];
    if (l.stream) {
        l.wide = pick(3) == 2;
        l.uses = 2 + pick(Long::ACTS - 1);
        for (size_t i = 0; i < l.uses; ++i) {
            Act a;
            static const uint32_t w[] = { 3, 2, 4, 4, 1, 1 };
            a.what = int(pickw(w, 6));
            a.arg = a.what == 0 ? int(pick(3)) : int(pick(2));
            a.kind = int(pick(NKINDS));
            if (a.what == 3 && pick(2)) { static const int nets[] = { N4, N6, IPN }; a.kind = nets[pick(3)]; }
            a.base = a.kind == U128 ? Base(pick(3)) : DEC;
            if (a.what == 2) a.v = gen_val(a.kind);
            if (a.what == 3) a.text = gen_token(a.kind, a.base, pick(4) == 0, true).text;
            ev("long-lived stream: %d %d %s %s", a.what, a.arg, kind_names[a.kind], a.what == 2 ? desc(a.v).s : a.text.c_str());
            l.acts.push_back(a);
        }
    } else {
        make_step(l.s);
        l.uses = l.s.op->flags & MUT ? 2 : 2 + pick(3);
        opname(*l.s.op, l.s.kind, name, sizeof name);
        ev("long-lived arguments: %s %s", name, desc_in(l.s.in).s);
    }
    int at = int(pick(NPHASES - 1));
    for (size_t i = 0; i < l.uses; ++i) {
        Step s = l.s;
        s.slot = slot;
        static const int hows[] = { PLAIN, PLAIN, THREADED, WORKER };
        s.how = hows[pick(4)];
        g->at[at].push_back(s);
        at += int(pick(uint32_t(NPHASES - at)));
    }
}
void scenario() {
    alarm(60);
    enum { MAXL = 2, NOUT = 4 + MAXL * Long::ACTS };
    g = new Plan;
    g->fresh = static_cast<Out*>(mmap(nullptr, sizeof(Out) * NOUT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (g->fresh == MAP_FAILED) harness_error("mmap");
    g->scratch = g->fresh + 3;
    g->probes.resize(1 + pick(3));
    for (size_t i = 0; i < g->probes.size(); ++i) {
        Step& s = g->probes[i];
        make_step(s);
        s.slot = int(i);
        char name[120];
        opname(*s.op, s.kind, name, sizeof name);
        ev("probe %zu %s %s", i, name, desc_in(s.in).s);
    }
    g->longs.resize(pick(MAXL + 1));
    for (size_t i = 0; i < g->longs.size(); ++i) {
        g->longs[i].fresh = g->fresh + 4 + i * Long::ACTS;
        make_long(g->longs[i], -2 - int(i));
    }
    g->tls_first = chance(1, 2);
    g->worker_at = pick(2) < 1 ? -1 : int(pick(pick(2) ? 3 : uint32_t(LAST)));
    g->daemon = chance(1, 6);
    g->end = int(pick(4));
    for (int p = 0; p < NPHASES; ++p) {
        uint32_t n = pick(4);
        for (uint32_t i = 0; i < n; ++i) {
            Step s;
            if (pick(4)) {
                s = g->probes[pick(uint32_t(g->probes.size()))];
                s.how = pick(2) ? PLAIN : int(pick(5));
                if (s.how == FORKED_MIDWAY) { s.busy_with = int(pick(uint32_t(g->probes.size()))); s.point = pick(pick(2) ? 3 : 20); }
            } else {
                make_step(s);
                s.mode = int(pick(4));
                s.k = pick(s.mode == 2 ? 3 : 8);
                s.how = pick(3) ? PLAIN : int(pick(4));
            }
            g->at[p].insert(g->at[p].begin() + long(pick(uint32_t(g->at[p].size() + 1))), s);
        }
    }
    ev("worker %d daemon %d end %d thread-locals first %d", g->worker_at, int(g->daemon), g->end, int(g->tls_first));
    for (size_t i = 0; i < g->probes.size() + g->longs.size(); ++i) {
        pid_t pid = fork();
        if (pid < 0) harness_error("fork");
        if (pid == 0) {
            g_fresh = int(i);
            longjmp(g_back, 1);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        bool probe = i < g->probes.size();
        const Long* lo = probe ? nullptr : &g->longs[i - g->probes.size()];
        char name[120];
        if (probe) opname(*g->probes[i].op, g->probes[i].kind, name, sizeof name);
        else snprintf(name, sizeof name, "long-lived");
        if (st != 0) {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) _exit(WEXITSTATUS(st));
            fail("signal", name, "fresh process ended with %d", st);
        }
        count(C_FRESH);
        if (probe) ev("  fresh %016llx", (unsigned long long)hash_out(g->fresh[i]));
        else for (size_t u = 0; u < lo->uses; ++u) ev("  fresh %016llx", (unsigned long long)hash_out(lo->fresh[u]));
    }
    set_quarantine(true);
    atexit(&handler1);
    at_quick_exit(&quick1);
    if (g->tls_first) tl_end.phase = MAIN_END;
    longjmp(g_back, 1);
}

Static static1 __attribute__((init_priority(1000))) (STATIC1, UNSTATIC1);
Static static2(STATIC2, UNSTATIC2);

} // namespace

__attribute__((constructor(101))) static void birth(int argc, char** argv, char**) {
    if (argc < 2 || strcmp(argv[1], "C14")) return;
    fixed_addresses(argv);
    life_main = &main_of_life;
    if (setjmp(g_back) == 0) {
        static Scenario* sc = new Scenario("C14", &scenario);
        (void)sc;
        _exit(real_main(argc, argv));
    }
    live(FIRST);
}
__attribute__((destructor(101))) static void death() {
    if (!g || g_fresh >= 0) return;
    live(LAST);
    check_quarantine();
    run_complete();
}

} // namespace sim
