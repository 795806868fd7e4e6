// C07, C08: several threads use the library at once; every instrumented memory access may be where
// the next thread goes on.
#include "conc.hpp"
#include "tsan_rt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
namespace conc {
using ops::In;
using ops::Op;
using ops::Out;

enum What { W_OP, W_SCRIPT, W_RANGE, W_CLASSIFY };
struct Step {
    int what;
    const Op* op;
    int shared;            // index of the shared input, -1: objects of its own
    In in;
    Script script;
    Val v;
    int range;
    unsigned some, jump;
    int amode;             // failing allocations on this thread during the step
    uint32_t ak;
    Step() : what(W_OP), op(nullptr), shared(-1), range(0), some(0), jump(0), amode(0), ak(0) {}
};
enum { TASKS = 4, STEPS = 4, SHARED = 3 };
struct World {
    int ntasks, nshared;
    In in[SHARED];
    void* cx[SHARED];
    const Op* maker[SHARED];
    Val sv[NKINDS];
    Shared* sh;
    Ranges* ranges;
    std::vector<Step> steps[TASKS];
    Out* want;              // shared memory: [task][step]
    Out* got;
    int current[TASKS];
};
static World* W;

static void name_of(const Step& s, char* b, size_t n) {
    switch (s.what) {
        case W_OP: snprintf(b, n, "%s.%s%s%s%s", kind_names[s.shared >= 0 ? W->in[s.shared].kind : s.in.kind], s.op->name, *s.op->sub ? "." : "", s.op->sub, s.shared >= 0 ? "@shared" : ""); break;
        case W_SCRIPT: snprintf(b, n, "stream-script%s", s.script.wide ? ".wchar_t" : ""); break;
        case W_RANGE: snprintf(b, n, "range-%d", s.range); break;
        default: snprintf(b, n, "%s.classification", kind_names[s.v.kind]);
    }
    for (char* c = b; *c; ++c) if (*c == ' ') *c = '_';
}
static const char* describe(int t) {
    static char b[TASKS][160];
    if (t < 0 || t >= W->ntasks || W->current[t] < 0) return "?";
    name_of(W->steps[t][size_t(W->current[t])], b[t], sizeof b[t]);
    return b[t];
}
static void perform(const Step& s, Out& o) {
    o.clear();
    switch (s.what) {
        case W_OP:
            if (s.shared >= 0) ops::guard(s.op->body, W->cx[s.shared], o);
            else ops::run(*s.op, s.in, o, 0);
            break;
        case W_SCRIPT: run_script(s.script, W->sh, o); break;
        case W_RANGE: run_range(W->ranges, s.range, s.some, s.jump, o); break;
        default: run_classify(s.v, o);
    }
}

Script gen_script(bool first_use) {
    Script s;
    s.wide = pick(3) == 0;
    uint32_t n = first_use ? 1 + pick(5) : 2 + pick(6);
    for (uint32_t i = 0; i < n; ++i) {
        SStep x;
        static const uint32_t w[] = { 3, 2, 5, 4, 1, 1 };
        x.what = int(pickw(w, 6));
        if (first_use && i == 0) x.what = int(pick(4));
        x.arg = x.what == 0 ? int(pick(3)) : int(pick(2));
        x.kind = int(pick(NKINDS));
        if (x.what == 3 && pick(2)) { static const int nets[] = { N4, N6, IPN }; x.kind = nets[pick(3)]; }
        x.base = x.kind == U128 ? Base(pick(3)) : DEC;
        if (x.what == 2) { x.shared = pick(2) != 0; x.v = gen_val(x.kind); }
        if (x.what == 3) x.text = gen_token(x.kind, x.base, pick(4) == 0, true).text;
        s.steps.push_back(x);
    }
    return s;
}

static void gen_step(Step& s, bool first_use) {
    static const uint32_t warm_w[] = { 7, 3, 2, 1 }, cold_w[] = { 4, 5, 1, 4 };
    s.what = int(pickw(first_use ? cold_w : warm_w, 4));
    switch (s.what) {
        case W_OP: {
            if (pick(3)) {
                s.shared = int(pick(uint32_t(W->nshared)));
                int tries = 0;
                do { s.op = &ops::pick_op(W->in[s.shared].kind, first_use && pick(2) ? ops::ST | ops::AL : ~0); } while ((s.op->flags & ops::MUT) && ++tries < 20);
                if (s.op->flags & ops::MUT) { s.shared = -1; s.in = ops::gen_in(W->in[0].kind); s.op = &ops::pick_op(s.in.kind, ~0); }
            } else {
                s.in = ops::gen_in(int(pick(NKINDS)));
                s.op = &ops::pick_op(s.in.kind, ~0);
            }
            break;
        }
        case W_SCRIPT: s.script = gen_script(first_use); break;
        case W_RANGE: s.range = int(pick(NRANGE)); s.some = 1 + pick(12); s.jump = pick(8); break;
        default: s.v = gen_val(int(pick(U128))); break;
    }
    if (chance(1, first_use ? 6 : 12)) { s.amode = 1 + int(pick(2)); s.ak = pick(4); }
}

static void task(void* p) {
    int t = int(reinterpret_cast<uintptr_t>(p));
    std::vector<Step>& st = W->steps[t];
    for (size_t i = 0; i < st.size(); ++i) {
        W->current[t] = int(i);
        Step& s = st[i];
        Out& o = W->got[t * STEPS + int(i)];
        set_where("%s on thread %d", describe(t), t);
        if (s.amode) alloc_begin(s.amode, s.ak);
        perform(s, o);
        if (s.amode) { if (!alloc_plan().fired) s.amode = 0; alloc_end(); }
        count(C_OPS);
        sched::yield();
    }
    W->current[t] = -1;
}

static void world(bool first_use) {
    W = new World();
    W->want = static_cast<Out*>(mmap(nullptr, sizeof(Out) * TASKS * STEPS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    W->got = static_cast<Out*>(mmap(nullptr, sizeof(Out) * TASKS * STEPS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (W->want == MAP_FAILED || W->got == MAP_FAILED) harness_error("mmap");
    for (int k = 0; k < NKINDS; ++k) { W->sv[k] = gen_val(k); if (is_net(k)) mask_host(W->sv[k]); (void)ops::table(k); }
    W->ntasks = 2 + int(pick(3));
    W->nshared = 1 + int(pick(SHARED));
    for (int i = 0; i < W->nshared; ++i) W->in[i] = ops::gen_in(int(pick(NKINDS)));
    Val n4 = gen_val(N4), n6 = gen_val(N6), na = gen_val(IPN);
    mask_host(n4); mask_host(n6); mask_host(na);
    size_t diff = 1 + pick(6);
    bool same_first = first_use && pick(2);      // all start with the same thing
    for (int t = 0; t < W->ntasks; ++t) {
        uint32_t n = 1 + pick(STEPS);
        W->steps[t].resize(n);
        for (uint32_t i = 0; i < n; ++i) {
            if (same_first && i == 0 && t > 0) { int m = W->steps[t][0].amode; W->steps[t][0] = W->steps[0][0]; W->steps[t][0].amode = m; }
            else gen_step(W->steps[t][i], first_use);
        }
    }
    // the sequential results, from a process of their own
    for (int t = 0; t < TASKS; ++t) W->current[t] = -1;
    W->sh = make_shared_objects(W->sv);
    W->ranges = make_ranges(n4, n6, na, diff);
    for (int i = 0; i < W->nshared; ++i) { W->maker[i] = &ops::table(W->in[i].kind)[0]; W->cx[i] = W->maker[i]->mk(W->in[i], 0); }
    warm_standard_library();
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (pid == 0) {
        for (int t = 0; t < W->ntasks; ++t)
            for (size_t i = 0; i < W->steps[t].size(); ++i) perform(W->steps[t][i], W->want[t * STEPS + int(i)]);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) _exit(42);
        fail("sequential", "fork", "the sequential run ended with %d", st);
    }
    count(C_FRESH);
    for (int t = 0; t < W->ntasks; ++t)
        for (size_t i = 0; i < W->steps[t].size(); ++i) {
            char nm[160];
            name_of(W->steps[t][i], nm, sizeof nm);
            ev("thread %d step %zu: %s%s -> %016llx", t, i, nm, W->steps[t][i].amode ? " (failing allocations)" : "", (unsigned long long)hash_out(W->want[t * STEPS + int(i)]));
        }
    if (!first_use && pick(2))     // warm: some of the work was done before
        for (uint32_t k = 1 + pick(3); k > 0; --k) {
            int t = int(pick(uint32_t(W->ntasks)));
            size_t i = pick(uint32_t(W->steps[t].size()));
            static Out o;
            perform(W->steps[t][i], o);
        }
    static const uint32_t q[] = { 20, 100, 400, 2000 };
    for (int t = 0; t < W->ntasks; ++t) sched::spawn(&task, reinterpret_cast<void*>(uintptr_t(t)));
    tsan::describe_task = &describe;
    tsan::begin(q[pick(4)]);
    sched::run(400000);
    tsan::end();
    for (int t = 0; t < W->ntasks; ++t)
        for (size_t i = 0; i < W->steps[t].size(); ++i) {
            Step& s = W->steps[t][i];
            const Out &g = W->got[t * STEPS + int(i)], &w = W->want[t * STEPS + int(i)];
            char nm[160];
            name_of(s, nm, sizeof nm);
            count(C_CHECKS);
            ev("thread %d step %zu got %016llx%s", t, i, (unsigned long long)hash_out(g), s.amode ? " with failed allocations" : "");
            sig(mix(mix(hash_bytes(nm, strlen(nm)), hash_out(g)), uint64_t(first_use) * 4 + uint64_t(s.amode)));
            if (s.amode) continue;          // out of memory on this thread only: see C05
            if (!ops::same(g, w)) {
                char d[2000];
                ops::diff(g, w, d, sizeof d);
                fail("result", nm, "thread %d step %zu %s: %s (alone)", t, i, nm, d);
            }
        }
    check_shared(W->sh, W->sv);
    for (int i = 0; i < W->nshared; ++i) W->maker[i]->chk(W->cx[i], W->in[i]);
}

void warm_standard_library() {
    // caches that libstdc++ fills on first use of the classic locale
    std::ostringstream a;
    a << 1234567 << 1.5;
    std::wostringstream b;
    b << 1234567 << 1.5;
    std::istringstream c("12 x");
    int i;
    std::string s;
    c >> i >> s;
    std::wistringstream d(L"12 x");
    std::wstring w;
    d >> i >> w;
}
} // namespace conc

SIM_SCENARIO(C07) { conc::world(false); }
SIM_SCENARIO(C08) { conc::world(true); }
} // namespace sim
