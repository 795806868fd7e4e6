// C15: operations in the middle of other operations on the same thread. The outer operation is
// interrupted at allocations (a replaced operator new), inside its stream's buffer, inside the facets
// of its stream's locale, or at any memory access (a signal handler; in builds that see them).
#include "ops.hpp"
#include <cerrno>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
using namespace ops;
namespace {

enum Where { ALLOCATION, STREAM, FACET, ACCESS };
const char* const where_names[] = { "allocation", "stream buffer", "facet", "memory access" };
enum { OUTER = 2, INNER = 3, DEPTH = 2 };

struct Step {
    int kind;
    const Op* op;
    In in;
    int shared;            // uses the objects of the outer operation
    int mode;              // memory fault of an inner operation
    uint32_t k;
    Out* ref;
};
struct Nest {
    Step* inner;
    uint32_t ninner, next, limit, left, gap, depth, maxdepth, hits;
    const Step* outer;
    void* cx;              // objects of the outer operation, when they are shared
    int where;
    bool cold;
};
Nest N;
bool g_counting = false;   // only count the points

void opname(const Op& op, int kind, char* b, size_t n) {
    snprintf(b, n, "%s.%s%s%s", kind_names[kind], op.name, *op.sub ? "." : "", op.sub);
    for (char* c = b; *c; ++c) if (*c == ' ') *c = '_';
}
void mismatch(const char* what, const Step& s, const Out& got) {
    static char d[2000];
    char name[120], other[120];
    diff(got, *s.ref, d, sizeof d);
    opname(*s.op, s.kind, name, sizeof name);
    opname(*N.outer->op, N.outer->kind, other, sizeof other);
    fail("nested", name, "%s (outer %s, at a %s, %u interruptions): %s (alone); arguments %s", what, other, where_names[N.where], N.next, d, desc_in(s.in).s);
}
void interruption() {
    if (g_counting) { ++N.hits; return; }
    if (N.depth >= N.maxdepth || N.next >= N.limit) return;
    if (N.left > 0) { --N.left; return; }
    N.left = N.gap;
    Step& s = N.inner[N.next++ % N.ninner];
    ++N.depth;
    const int e = errno;
    AllocPlan keep = alloc_plan();
    static Out outs[DEPTH];
    Out& out = outs[N.depth - 1];
    {
        alloc_begin(s.mode ? s.mode : 4, s.k);
        out.clear();
        if (s.shared) guard(s.op->body, N.cx, out);
        else run(*s.op, s.in, out);
        alloc_end();
        Pause p;
        count(C_CHECKS);
        count(F_REENTRANT);
        ev("  interrupted at a %s, depth %u: %s out %016llx", where_names[N.where], N.depth, s.op->name, (unsigned long long)hash_out(out));
        sig(mix(mix(hash_bytes(s.op->name, strlen(s.op->name)), uint64_t(s.kind) * 8 + uint64_t(N.where)), mix(hash_bytes(N.outer->op->name, strlen(N.outer->op->name)), uint64_t(N.outer->kind) * 4 + N.depth)));
        if (!s.mode && !same(out, *s.ref)) mismatch("an operation in the middle of another", s, out);
    }
    alloc_plan() = keep;
    errno = e;
    --N.depth;
}
// facets that do what the standard ones do
template <class C> struct HookCtype;
template <> struct HookCtype<char> : std::ctype<char> {
protected:
    char do_toupper(char c) const override { interruption(); return std::ctype<char>::do_toupper(c); }
    const char* do_toupper(char* b, const char* e) const override { interruption(); return std::ctype<char>::do_toupper(b, e); }
    char do_tolower(char c) const override { interruption(); return std::ctype<char>::do_tolower(c); }
    char do_widen(char c) const override { interruption(); return std::ctype<char>::do_widen(c); }
    char do_narrow(char c, char d) const override { interruption(); return std::ctype<char>::do_narrow(c, d); }
};
template <> struct HookCtype<wchar_t> : std::ctype<wchar_t> {
protected:
    bool do_is(mask m, wchar_t c) const override { interruption(); return std::ctype<wchar_t>::do_is(m, c); }
    wchar_t do_toupper(wchar_t c) const override { interruption(); return std::ctype<wchar_t>::do_toupper(c); }
    const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { interruption(); return std::ctype<wchar_t>::do_toupper(b, e); }
    wchar_t do_tolower(wchar_t c) const override { interruption(); return std::ctype<wchar_t>::do_tolower(c); }
    wchar_t do_widen(char c) const override { interruption(); return std::ctype<wchar_t>::do_widen(c); }
    char do_narrow(wchar_t c, char d) const override { interruption(); return std::ctype<wchar_t>::do_narrow(c, d); }
};
std::locale* g_hooked;

void arm(int where, bool on) {
    set_alloc_hook(on && where == ALLOCATION ? &interruption : nullptr);
    g_on_stream = on && where == STREAM ? &interruption : nullptr;
    on_access = on && where == ACCESS ? &interruption : nullptr;
}
// the operation, with its points armed
void whole(const Step& s, int where, Out& out, bool share) {
    g_imbue = where == FACET ? g_hooked : nullptr;
    if (share) {
        N.cx = s.op->mk(s.in, 0);
        out.clear();
        alloc_begin(4, 0);
        arm(where, true);
        guard(s.op->body, N.cx, out);
        arm(where, false);
        alloc_end();
        if (!(s.op->flags & MUT)) s.op->chk(N.cx, s.in);
        s.op->rm(N.cx);
        N.cx = nullptr;
    } else {
        alloc_begin(4, 0);
        arm(where, true);
        run(*s.op, s.in, out);
        arm(where, false);
        alloc_end();
    }
}
void alone(Step& s, bool with_cx, int where, bool counts, uint32_t* hits) {
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (pid == 0) {
        g_counting = true;
        N.hits = 0;
        if (counts) {
            whole(s, where, *s.ref, with_cx);
            *hits = N.hits;
        } else if (with_cx) {
            void* cx = s.op->mk(s.in, 0);
            s.ref->clear();
            guard(s.op->body, cx, *s.ref);
        } else {
            g_imbue = where == FACET ? g_hooked : nullptr;
            run(*s.op, s.in, *s.ref);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    char name[120];
    opname(*s.op, s.kind, name, sizeof name);
    if (st != 0) {
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) _exit(WEXITSTATUS(st));
        fail("signal", name, "fresh process ended with %d", st);
    }
    count(C_FRESH);
}
const Op& choose(int kind, int where, bool inner) {
    if (where == ACCESS && inner) return pick_op(kind, NT);     // what a signal handler may use
    static const uint32_t w[4][3] = { { 6, 2, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 2, 2, 4 } }, wi[3] = { 3, 3, 2 };
    uint32_t k = pickw(inner ? wi : w[where], 3);
    return pick_op(kind, k == 0 ? AL : k == 1 ? ST : NT);
}

SIM_SCENARIO(C15) {
    alarm(40);
    std::locale hooked(std::locale(std::locale::classic(), new HookCtype<char>), new HookCtype<wchar_t>);
    g_hooked = &hooked;
    Out* refs = static_cast<Out*>(mmap(nullptr, sizeof(Out) * (1 + INNER) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (refs == MAP_FAILED) harness_error("mmap");
    uint32_t* hits = reinterpret_cast<uint32_t*>(refs + 1 + INNER);
    static Out out;
    uint32_t n = 1 + pick(OUTER);
    for (uint32_t i = 0; i < n; ++i) {
        Step outer, inner[INNER];
        N.where = access_seam ? (pick(4) ? int(ACCESS) : int(pick(3))) : int(pick(3));
        N.outer = &outer;
        N.inner = inner;
        N.ninner = 1 + pick(INNER);
        N.next = N.depth = 0;
        N.limit = N.ninner + (pick(2) ? pick(16) : 0);
        N.maxdepth = 1 + pick(DEPTH);
        N.gap = pick(3) ? pick(4) : pick(60);
        outer.kind = int(pick(NKINDS));
        outer.op = &choose(outer.kind, N.where, false);
        outer.in = gen_in(outer.kind);
        outer.shared = 0;
        outer.mode = 0;
        outer.k = 0;
        outer.ref = refs;
        bool share = !(outer.op->flags & MUT) && pick(2);
        char name[120];
        opname(*outer.op, outer.kind, name, sizeof name);
        ev("outer %s at a %s %s", name, where_names[N.where], desc_in(outer.in).s);
        alone(outer, share, N.where, true, hits);
        ev("  %u points, alone %016llx", *hits, (unsigned long long)hash_out(*outer.ref));
        if (*hits == 0) continue;
        for (uint32_t j = 0; j < N.ninner; ++j) {
            Step& s = inner[j];
            s.shared = share && pick(2);
            s.kind = s.shared || pick(2) == 0 ? outer.kind : int(pick(NKINDS));
            s.op = !s.shared && s.kind == outer.kind && (N.where != ACCESS || (outer.op->flags & NT)) && pick(3) ? outer.op : &choose(s.kind, N.where, true);
            if (s.op->flags & MUT) s.shared = 0;
            s.in = s.shared || (s.kind == outer.kind && pick(5) == 4) ? outer.in : gen_in(s.kind);
            s.mode = N.where != ACCESS && pick(5) == 4 ? 1 + int(pick(3)) : 0;
            s.k = s.mode ? pick(4) : 0;
            s.ref = refs + 1 + j;
            opname(*s.op, s.kind, name, sizeof name);
            ev("inner %s shared %d mode %d %s", name, s.shared, s.mode, desc_in(s.in).s);
            alone(s, s.shared != 0, N.where, false, nullptr);
        }
        bool warm = pick(2) != 0;
#if __cplusplus < 201402L
        warm = warm || N.where == ACCESS;    // the predefined networks are no constants there: their first use is not for signal handlers
#endif
        if (warm) {
            g_imbue = nullptr;
            bool first = pick(2) != 0;
            if (first) run(*outer.op, outer.in, out);
            for (uint32_t j = 0; j < N.ninner; ++j) run(*inner[j].op, inner[j].in, out);
            if (!first) run(*outer.op, outer.in, out);
        }
        // the same operations again and again, interrupted at other points
        for (uint32_t again = 1 + pick(16); again-- > 0;) {
            N.next = N.depth = 0;
            // later calls may have far fewer points than the first
            N.left = pick(pick(2) ? *hits : std::min(*hits, 1u + pick(40)));
            whole(outer, N.where, out, share);
            count(C_CHECKS);
            ev("  nested %016llx after %u interruptions", (unsigned long long)hash_out(out), N.next);
            if (!same(out, *outer.ref)) mismatch("an operation with others in its middle", outer, out);
        }
        g_imbue = nullptr;
    }
}

} // namespace
} // namespace sim
