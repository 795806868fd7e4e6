// C05, C06, C09, C10, C11: every operation of ops.hpp under failing memory, after histories, under
// locale changes and over left-over memory.
#include "ops.hpp"
#include <cerrno>
#include <csetjmp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace sim {
using namespace ops;

static const Op& choose(int kind, bool nt_too) {
    static const uint32_t w[3] = { 5, 2, 1 };
    uint32_t k = pickw(w, nt_too ? 3 : 2);
    return pick_op(kind, k == 0 ? AL : k == 1 ? ST : NT);
}
static void opname(const Op& op, int kind, char* b, size_t n) {
    snprintf(b, n, "%s.%s%s%s", kind_names[kind], op.name, *op.sub ? "." : "", op.sub);
    for (char* c = b; *c; ++c) if (*c == ' ') *c = '_';
}
static uint64_t op_sig(const Op& op, int kind, uint64_t x) {
    return mix(mix(hash_bytes(op.name, strlen(op.name)), hash_bytes(op.sub, strlen(op.sub))), mix(uint64_t(kind), x));
}

// ---- C05 -----------------------------------------------------------------------------------
static const char* not_allowed(const Out& ref, const Out& got, const In& in) {
    if (same(ref, got)) return nullptr;
    if (!got.stream) return got.exc == X_BAD_ALLOC ? nullptr : "neither std::bad_alloc nor the normal result";
    bool told = got.exc == X_BAD_ALLOC || (got.state & int(std::ios_base::badbit)) != 0;
    if (got.dir == 'o') {
        if (got.an > ref.an || memcmp(got.acc, ref.acc, got.an * sizeof got.acc[0]) != 0) return "the stream received other characters";
        if (!told) return "output is missing and the stream does not tell";
        return nullptr;
    }
    if (!told) return "another outcome and the stream does not tell";
    return nullptr;
}
static void faulty_run(const Op& op, const In& in, Out& out, int mode, uint32_t k, uint32_t* seen = nullptr, uint32_t* fired = nullptr) {
    alloc_begin(mode, k);
    run(op, in, out);
    if (seen) *seen = alloc_plan().seen;
    if (fired) *fired = alloc_plan().fired;
    alloc_end();
}
static void verdict05(const Op& op, const In& in, const Out& ref, const Out& got, int mode, uint32_t k, uint32_t fired) {
    count(C_CHECKS);
    const char* why = not_allowed(ref, got, in);
    char name[120];
    opname(op, in.kind, name, sizeof name);
    ev("  mode %d k %u fired %u exc %s out %016llx", mode, k, fired, exc_names[got.exc], (unsigned long long)hash_out(got));
    sig(op_sig(op, in.kind, uint64_t(mode) << 40 | uint64_t(k) << 8 | uint64_t(got.exc)));
    if (fired) count(same(ref, got) ? C_SUCCESS : C_FAILREP);
    if (!why) return;
    static char d[2000];
    diff(got, ref, d, sizeof d);
    fail("out-of-memory", name, "%s (mode %d, allocation %u, %u failed): %s; arguments %s", why, mode, k, fired, d, desc_in(in).s);
}
SIM_SCENARIO(C05) {
    uint32_t nops = 1 + pick(3);
    bool cold = chance(1, 4);
    for (uint32_t i = 0; i < nops; ++i) {
        int kind = int(pick(NKINDS));
        const Op& op = choose(kind, true);
        In in = gen_in(kind);
        char name[120];
        opname(op, kind, name, sizeof name);
        ev("op %s %s", name, desc_in(in).s);
        static Out first, ref, got;
        bool have_first = cold && i == 0;
        int fmode = have_first ? 1 + int(pick(3)) : 0;
        uint32_t fk = have_first ? pick(6) : 0, ffired = 0, n = 0, fired;
        if (have_first) faulty_run(op, in, first, fmode, fk, nullptr, &ffired);   // nothing of the library was used before
        faulty_run(op, in, got, 4, 0, &n);
        faulty_run(op, in, ref, 4, 0, &n);
        if (!same(got, ref)) {
            static char d[2000];
            diff(got, ref, d, sizeof d);
            fail("repeat", name, "the same call gives different outcomes: %s", d);
        }
        if (have_first) verdict05(op, in, ref, first, fmode, fk, ffired);
        uint32_t trials = n == 0 ? 1 : n < 5 ? n + 1 : 5;
        for (uint32_t t = 0; t < trials; ++t) {
            int mode;
            uint32_t k;
            if (n == 0) { mode = 2; k = 0; }
            else if (n < 5) { mode = t < n ? 1 : 2; k = t < n ? t : pick(n); }
            else { static const uint32_t w[3] = { 5, 3, 1 }; mode = 1 + int(pickw(w, 3)); k = pick(mode == 3 ? 2 : n); }
            uint64_t before = live_blocks();
            faulty_run(op, in, got, mode, k, nullptr, &fired);
            uint64_t after = live_blocks();
            verdict05(op, in, ref, got, mode, k, fired);
            if (after > before) {   // something kept for later is not a leak; growth at each repetition is
                int grew = 1;
                for (int r = 0; r < 4; ++r) {
                    uint64_t b = live_blocks();
                    faulty_run(op, in, got, mode, k);
                    grew += live_blocks() > b;
                }
                if (grew == 5) fail("leak", name, "each call with allocation %u failing (mode %d) leaves memory behind; arguments %s", k, mode, desc_in(in).s);
            }
            faulty_run(op, in, got, 4, 0);
            count(C_RECOVERIES);
            if (!same(got, ref)) {
                static char d[2000];
                diff(got, ref, d, sizeof d);
                fail("after-out-of-memory", name, "repeated with memory available after allocation %u failed (mode %d): %s; arguments %s", k, mode, d, desc_in(in).s);
            }
        }
    }
}

// ---- C06 -----------------------------------------------------------------------------------
static const Op& pick_nt(int kind) {
#ifdef IPADDRESS_NO_EXCEPTIONS
    return pick_op(kind, NT | NTX);
#else
    return pick_op(kind, NT);
#endif
}
SIM_SCENARIO(C06) {
    uint32_t nops = 2 + pick(8);
    bool cold = chance(1, 3);
    for (uint32_t i = 0; i < nops; ++i) {
        int kind = int(pick(NKINDS));
        const Op& op = pick_nt(kind);
        In in = gen_in(kind);
        char name[120];
        opname(op, kind, name, sizeof name);
        ev("op %s %s", name, desc_in(in).s);
        static Out ref, got;
        uint32_t fired = 0;
        if (cold) faulty_run(op, in, got, 2, 0, nullptr, &fired);
        faulty_run(op, in, ref, 4, 0);
        if (!cold) {
            int mode = pick(4) ? 2 : 3;
            faulty_run(op, in, got, mode, mode == 3 ? pick(2) : 0, nullptr, &fired);
        }
        count(C_CHECKS);
        sig(op_sig(op, kind, mix(uint64_t(ref.exc), ref.items)));
        ev("  out %016llx", (unsigned long long)hash_out(ref));
        if (ref.exc != X_NONE || got.exc != X_NONE) fail("threw", name, "an operation declared not to throw threw %s '%s'; arguments %s", exc_names[ref.exc ? ref.exc : got.exc], ref.exc ? ref.what : got.what, desc_in(in).s);
        if (!same(ref, got)) {
            static char d[2000];
            diff(got, ref, d, sizeof d);
            fail("out-of-memory", name, "without memory (%u allocations failed) the outcome differs: %s; arguments %s", fired, d, desc_in(in).s);
        }
    }
}

// ---- C09 -----------------------------------------------------------------------------------
struct Step {
    int kind;
    const Op* op;
    In in;
    int slot;          // compared with this fresh outcome
    int ctx;           // circumstances of the call
    int mode;          // memory fault of this step (history only)
    uint32_t k;
};
struct Unwind {
    const Op& op;
    const In& in;
    Out& out;
    ~Unwind() { run(op, in, out); }
};
struct ThreadArg { const Op* op; const In* in; Out* out; };
static void thread_body(void* p) {
    ThreadArg* a = static_cast<ThreadArg*>(p);
    run(*a->op, *a->in, *a->out);
}
static void run_in_context(int ctx, const Op& op, const In& in, Out& out) {
    switch (ctx) {
        case 1:
            try { throw ip::parse_error(ip::error_code::empty_address, "earlier"); }
            catch (...) { run(op, in, out); }
            break;
        case 2:
            try {
                Unwind u = { op, in, out };
                throw 1;
            } catch (int) {}
            break;
        case 3: {
            errno = ERANGE;
            run(op, in, out);
            break;
        }
        case 4: {
            ThreadArg a = { &op, &in, &out };
            std::thread t(&thread_body, &a);
            t.join();
            break;
        }
        default: run(op, in, out); break;
    }
}
// arguments that differ from `p` in one respect
static In related(const In& p) {
    In q = gen_in(p.kind), r = p;
    switch (pick(6)) {
        case 0: r.a = near(p.a); break;
        case 1: r.text = q.text; r.conforming = q.conforming; break;
        case 2: r.scope = q.scope; break;
        case 3: r.fmt = q.fmt; r.base = q.base; r.strict = q.strict; r.conforming = false; r.flags = q.flags; r.width = q.width; r.fill = q.fill; break;
        case 4: r.b = p.kind == r.b.kind ? near(p.b) : q.b; break;
        default: r.diff = q.diff; r.has_np = q.has_np; r.np = q.np; r.shift = q.shift; r.arr = q.arr; r.u = q.u; r.u2 = q.u2;
    }
    return r;
}
// half of the calls find their arguments at the same addresses as other arguments before
static const In& placed(const In& in) {
    static In at;
    if (pick(2)) return in;
    at = in;
    return at;
}
SIM_SCENARIO(C09) {
    enum { SLOTS = 3 };
    Out* fresh = static_cast<Out*>(mmap(nullptr, sizeof(Out) * SLOTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (fresh == MAP_FAILED) harness_error("mmap");
    std::vector<Step> probes(1 + pick(SLOTS));
    for (size_t i = 0; i < probes.size(); ++i) {
        Step& s = probes[i];
        s.kind = int(pick(NKINDS));
        s.op = pick(3) ? &choose(s.kind, true) : &pick_op(s.kind, NT);
        s.in = gen_in(s.kind);
        s.slot = int(i);
        s.mode = 0;
        s.k = 0;
        s.in.stale = ip::error_code::no_error;
    }
    // each probe in a process of its own, where nothing of the library was used before
    for (size_t i = 0; i < probes.size(); ++i) {
        char name[120];
        opname(*probes[i].op, probes[i].kind, name, sizeof name);
        ev("probe %zu %s %s", i, name, desc_in(probes[i].in).s);
        pid_t pid = fork();
        if (pid < 0) harness_error("fork");
        if (pid == 0) {
            run(*probes[i].op, probes[i].in, fresh[i]);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (st != 0) {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) _exit(WEXITSTATUS(st));
            fail("signal", name, "fresh process ended with %d", st);
        }
        count(C_FRESH);
        ev("  fresh %016llx", (unsigned long long)hash_out(fresh[i]));
    }
    uint32_t len = 3 + pick(14);
    int faults = 0;
    static Out out;
    for (uint32_t i = 0; i < len; ++i) {
        if (pick(3) == 0) {
            // history
            Step s;
            bool again = pick(3) == 0;
            const Step& p = probes[pick(uint32_t(probes.size()))];
            s.kind = again ? p.kind : int(pick(NKINDS));
            s.op = again ? p.op : pick(4) ? &choose(s.kind, true) : &pick_op(s.kind, NT);
            s.in = again && pick(2) ? related(p.in) : gen_in(s.kind);
            s.mode = int(pick(4));
            s.k = pick(s.mode == 2 ? 3 : 8);
            uint32_t times = pick(24) == 0 ? 2 + pick(pick(3) ? 20 : 300) : 1;   // an effect may need repetition to show
            char name[120];
            opname(*s.op, s.kind, name, sizeof name);
            ev("history %s mode %d k %u times %u %s", name, s.mode, s.k, times, desc_in(s.in).s);
            const In& in = placed(s.in);
            for (uint32_t t = 0; t < times; ++t) {
                alloc_begin(s.mode, s.k);
                run(*s.op, in, out);
                faults += int(alloc_plan().fired);
                alloc_end();
            }
            ev("  exc %s out %016llx", exc_names[out.exc], (unsigned long long)hash_out(out));
            sig(op_sig(*s.op, s.kind, uint64_t(out.exc) * 16 + uint64_t(s.mode)));
            continue;
        }
        Step& s = probes[pick(uint32_t(probes.size()))];
        s.in.stale = chance(1, 2) ? ip::error_code(1 + pick(30)) : ip::error_code::no_error;
        if (s.in.stale != ip::error_code::no_error) count(F_STALE_CODE);
        int ctx = pick(2) ? 0 : int(pick(5));
        run_in_context(ctx, *s.op, placed(s.in), out);
        count(C_CHECKS);
        char name[120];
        opname(*s.op, s.kind, name, sizeof name);
        ev("call %d %s context %d stale %d out %016llx", s.slot, name, ctx, int(s.in.stale), (unsigned long long)hash_out(out));
        sig(op_sig(*s.op, s.kind, mix(uint64_t(ctx) * 64 + uint64_t(s.in.stale), hash_out(out))));
        if (!same(out, fresh[s.slot])) {
            static char d[2000];
            diff(out, fresh[s.slot], d, sizeof d);
            fail("history", name, "after %u steps (%d memory faults), context %d, code variable holding %d: %s (fresh process); arguments %s", i, faults, ctx, int(s.in.stale), d, desc_in(s.in).s);
        }
    }
}

// ---- C10 -----------------------------------------------------------------------------------
template <class C> struct Punct : std::numpunct<C> {
    explicit Punct(int v) : v_(v) {}
    int v_;
    typedef std::basic_string<C> str;
protected:
    C do_thousands_sep() const override { return C(v_ & 1 ? ',' : '\''); }
    C do_decimal_point() const override { return C(v_ & 1 ? '.' : ','); }
    std::string do_grouping() const override { return v_ & 2 ? "\1" : "\3\2"; }
    str do_truename() const override { return str(2, C('y')); }
    str do_falsename() const override { return str(2, C('n')); }
};
struct OddCtype : std::ctype<char> {
    OddCtype() : std::ctype<char>() {}
protected:
    char do_toupper(char c) const override { return c == 'i' ? 'Y' : c >= 'a' && c <= 'f' ? char('F' - (c - 'a')) : c; }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
    char do_tolower(char c) const override { return c == 'I' ? 'y' : c >= 'A' && c <= 'F' ? char('f' - (c - 'A')) : c; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    char do_widen(char c) const override { return c >= '0' && c <= '9' ? char('a' + (c - '0')) : c; }
    const char* do_widen(const char* b, const char* e, char* d) const override { for (; b != e; ++b, ++d) *d = do_widen(*b); return e; }
    char do_narrow(char c, char) const override { return c >= '0' && c <= '9' ? char('9' - (c - '0')) : c; }
    const char* do_narrow(const char* b, const char* e, char, char* d) const override { for (; b != e; ++b, ++d) *d = do_narrow(*b, 0); return e; }
};
// other classes for every character but white space
static const std::ctype_base::mask* odd_table() {
    static std::ctype_base::mask t[std::ctype<char>::table_size];
    const std::ctype_base::mask* c = std::ctype<char>::classic_table();
    for (size_t i = 0; i < std::ctype<char>::table_size; ++i) {
        std::ctype_base::mask space = std::ctype_base::mask(c[i] & std::ctype_base::space);
        std::ctype_base::mask other = std::ctype_base::mask(c[(i ^ 0x50) & 0xff] & ~std::ctype_base::space);   // '0'..'9' as '`a'..'i', 'a' as '1' ...
        t[i] = std::ctype_base::mask(space | other);
    }
    return t;
}
struct OddTable : std::ctype<char> {
    OddTable() : std::ctype<char>(odd_table()) {}
};
struct OddWCtype : std::ctype<wchar_t> {
protected:
    static std::ctype_base::mask turn(std::ctype_base::mask m) {   // digits for letters
        std::ctype_base::mask r = std::ctype_base::mask(m & ~(std::ctype_base::alpha | std::ctype_base::digit | std::ctype_base::xdigit));
        if (m & std::ctype_base::alpha) r = std::ctype_base::mask(r | std::ctype_base::digit | std::ctype_base::xdigit);
        if (m & std::ctype_base::digit) r = std::ctype_base::mask(r | std::ctype_base::alpha);
        return r;
    }
    bool do_is(std::ctype_base::mask m, wchar_t c) const override { return std::ctype<wchar_t>::do_is(turn(m), c); }
    wchar_t do_toupper(wchar_t c) const override { return c == L'i' ? wchar_t(0x130) : c >= L'a' && c <= L'f' ? wchar_t(L'F' - (c - L'a')) : c; }
    const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
    wchar_t do_tolower(wchar_t c) const override { return c == L'I' ? wchar_t(0x131) : c; }
    const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    wchar_t do_widen(char c) const override { return c >= '!' && c <= '~' ? wchar_t(0xFEE0 + c) : wchar_t((unsigned char)c); }
    const char* do_widen(const char* b, const char* e, wchar_t* d) const override { for (; b != e; ++b, ++d) *d = do_widen(*b); return e; }
    char do_narrow(wchar_t, char d) const override { return d; }
    const wchar_t* do_narrow(const wchar_t* b, const wchar_t* e, char x, char* d) const override { for (; b != e; ++b, ++d) *d = x; return e; }
};
template <class C> struct OddNumPut : std::num_put<C> {
    typedef typename std::num_put<C>::iter_type It;
protected:
    It any(It o) const { *o++ = C('N'); return o; }
    It do_put(It o, std::ios_base&, C, bool) const override { return any(o); }
    It do_put(It o, std::ios_base&, C, long) const override { return any(o); }
    It do_put(It o, std::ios_base&, C, unsigned long) const override { return any(o); }
    It do_put(It o, std::ios_base&, C, long long) const override { return any(o); }
    It do_put(It o, std::ios_base&, C, unsigned long long) const override { return any(o); }
    It do_put(It o, std::ios_base&, C, double) const override { return any(o); }
    It do_put(It o, std::ios_base&, C, const void*) const override { return any(o); }
};
template <class C> struct OddNumGet : std::num_get<C> {
    typedef typename std::num_get<C>::iter_type It;
protected:
    template <class V> static It any(It b, It, std::ios_base::iostate& e, V& v) { e |= std::ios_base::failbit; v = V(77); return b; }
    It do_get(It b, It e, std::ios_base&, std::ios_base::iostate& s, long& v) const override { return any(b, e, s, v); }
    It do_get(It b, It e, std::ios_base&, std::ios_base::iostate& s, unsigned short& v) const override { return any(b, e, s, v); }
    It do_get(It b, It e, std::ios_base&, std::ios_base::iostate& s, unsigned int& v) const override { return any(b, e, s, v); }
    It do_get(It b, It e, std::ios_base&, std::ios_base::iostate& s, unsigned long& v) const override { return any(b, e, s, v); }
    It do_get(It b, It e, std::ios_base&, std::ios_base::iostate& s, long long& v) const override { return any(b, e, s, v); }
    It do_get(It b, It e, std::ios_base&, std::ios_base::iostate& s, unsigned long long& v) const override { return any(b, e, s, v); }
};
static std::vector<std::locale>* g_locales;
static uint32_t g_flip_rate;
static void make_locales() {
    static std::vector<std::locale> l;
    std::locale c = std::locale::classic();
    l.push_back(c);
    std::locale p(std::locale(c, new Punct<char>(0)), new Punct<wchar_t>(0));
    std::locale q(std::locale(c, new Punct<char>(3)), new Punct<wchar_t>(3));
    std::locale t(std::locale(c, new OddCtype), new OddWCtype);
    std::locale n(std::locale(c, new OddNumPut<char>), new OddNumPut<wchar_t>);
    std::locale g(std::locale(c, new OddNumGet<char>), new OddNumGet<wchar_t>);
    std::locale all(std::locale(std::locale(t, new Punct<char>(2)), new Punct<wchar_t>(1)), new OddNumGet<char>);
    l.push_back(p);
    l.push_back(q);
    l.push_back(t);
    l.push_back(n);
    l.push_back(g);
    l.push_back(all);
    l.push_back(std::locale(c, new OddTable));
    try { l.push_back(std::locale("C.utf8")); } catch (...) {}
    g_locales = &l;
}
static const std::locale& any_locale() { return (*g_locales)[pick(uint32_t(g_locales->size()))]; }
static void flip() {
    if (!g_flip_rate || pick(g_flip_rate)) return;
    count(F_LOCALE_FLIP);
    std::locale::global(any_locale());
    if (pick(4) == 0) setlocale(LC_ALL, pick(2) ? "C.utf8" : "C");
}
SIM_SCENARIO(C10) {
    make_locales();
    uint32_t nops = 2 + pick(4);
    bool first_weird = chance(1, 4);   // the first use of the library happens under a strange locale
    for (uint32_t i = 0; i < nops; ++i) {
        int kind = int(pick(NKINDS));
        const Op& op = choose(kind, true);
        In in = gen_in(kind);
        char name[120];
        opname(op, kind, name, sizeof name);
        ev("op %s %s", name, desc_in(in).s);
        static Out ref, got;
        bool have_ref = !(first_weird && i == 0);
        if (have_ref) {
            run(op, in, ref);
            ev("  ref %016llx", (unsigned long long)hash_out(ref));
        }
        uint32_t reps = 1 + pick(3);
        for (uint32_t r = 0; r < reps; ++r) {
            uint32_t which = pick(uint32_t(g_locales->size()));
            std::locale::global((*g_locales)[which]);
            count(F_LOCALE_FLIP);
            const char* cl = nullptr;
            if (pick(3) == 0) { cl = pick(2) ? "C.utf8" : "POSIX"; setlocale(LC_ALL, cl); }
            static std::locale imb;
            g_imbue = nullptr;
            int imbi = -1;
            if ((op.flags & ST) && pick(2)) {
                imbi = int(pick(uint32_t(g_locales->size())));
                imb = (*g_locales)[size_t(imbi)];
                g_imbue = &imb;
            }
            g_flip_rate = pick(2) ? 0 : 1 + pick(3);
            set_alloc_hook(g_flip_rate ? &flip : nullptr);
            alloc_begin(4, 0);
            run(op, in, got);
            alloc_end();
            set_alloc_hook(nullptr);
            g_imbue = nullptr;
            std::locale::global(std::locale::classic());
            setlocale(LC_ALL, "C");
            if (!have_ref) {
                static Out keep;
                keep = got;
                run(op, in, ref);
                have_ref = true;
                got = keep;
            }
            count(C_CHECKS);
            ev("  locale %u C '%s' imbued %d flips %u out %016llx", which, cl ? cl : "", imbi, g_flip_rate, (unsigned long long)hash_out(got));
            sig(op_sig(op, kind, mix(which * 16 + uint64_t(imbi + 1), g_flip_rate * 8 + uint64_t(got.exc))));
            if (!same(got, ref)) {
                static char d[2000];
                diff(got, ref, d, sizeof d);
                fail("locale", name, "under global locale %u (C locale '%s', stream locale %d%s): %s (classic); arguments %s", which, cl ? cl : "C", imbi, g_flip_rate ? ", replaced during the call" : "", d, desc_in(in).s);
            }
        }
    }
}

// ---- C11 -----------------------------------------------------------------------------------
__attribute__((noinline)) static void scribble(int byte) {
    volatile unsigned char buf[24000];
    for (size_t i = 0; i < sizeof buf; ++i) buf[i] = (unsigned char)byte;
    asm volatile("" : : "r"(&buf[0]) : "memory");
}
__attribute__((noinline)) static void run_deep(int depth, const Op& op, const In& in, Out& out, int fill) {
    volatile char pad[208];
    pad[0] = char(depth);
    asm volatile("" : : "r"(&pad[0]) : "memory");
    if (depth > 0) run_deep(depth - 1, op, in, out, fill);
    else run(op, in, out, fill);
    asm volatile("" : : "r"(&pad[0]) : "memory");
}
static const int patterns[] = { 0x00, 0xFF, 0xA5, 0x20, 0x31, 0x2E, 0x25, 0x3A };

// the same value by different routes
struct Routes {
    Val v;
    template <class T> void go();
};
template <class T> static void extract_into(T& t, const std::string& text, Base base) {
    std::istringstream is(text);
    if (base == HEX) is >> std::hex;
    else if (base == OCT) is >> std::oct;
    is >> t;
}
template <class T> struct Route {   // routes of one type only
    enum { n = 0 };
    static T go(int, const Val& v) { return Tr<T>::make(v); }
};
template <> struct Route<ip::ipv6_address> {
    enum { n = 3 };
    static ip::ipv6_address go(int r, const Val& v) {
        Val p = v;
        p.slen = 0;
        memset(p.scope, 0, sizeof p.scope);
        if (r == 0) {   // through another scope id
            gen_scope(p, SCOPE_MAX ? 1 + int(pick(SCOPE_MAX)) : 0);
            ip::ipv6_address a = mk6(p);
            a.set_scope_id(std::string(v.scope, size_t(v.slen)));
            return a;
        }
        if (r == 1) {   // scope set, removed, set
            ip::ipv6_address a = mk6(p);
            a.set_scope_id(std::string(SCOPE_MAX, 'z'));
            a.set_scope_id(std::wstring());
            ip::error_code c = ip::error_code::no_error;
            if (v.slen) a.set_scope_id(std::u32string(v.scope, v.scope + v.slen), c);
            return a;
        }
        ip::ipv6_address a = ip::ipv6_address::from_uint(mk6(v).to_uint());
        a.set_scope_id(std::u16string(v.scope, v.scope + v.slen));
        return a;
    }
};
template <> struct Route<ip::ip_address> {
    enum { n = 3 };
    static ip::ip_address go(int r, const Val& v) {
        if (r == 0) {   // over a value of the other version
            Val o = v;
            o.six = !v.six;
            o.slen = 0;
            memset(o.scope, 0, sizeof o.scope);
            if (o.six) gen_scope(o, SCOPE_MAX);
            ip::ip_address a = Tr<ip::ip_address>::make(o);
            a = Tr<ip::ip_address>::make(v);
            return a;
        }
        if (r == 1) {
            ip::ip_address a = Tr<ip::ip_address>::make(v), b = a.is_v4() ? ip::ip_address(a.v4().value()) : ip::ip_address(a.v6().value());
            return b;
        }
        Val o = v;
        o.six = !v.six;
        o.slen = 0;
        memset(o.scope, 0, sizeof o.scope);
        ip::ip_address a = Tr<ip::ip_address>::make(o), b = Tr<ip::ip_address>::make(v);
        a.swap(b);
        return a;
    }
};
template <> struct Route<ip::ip_network> {
    enum { n = 2 };
    static ip::ip_network go(int r, const Val& v) {
        if (r == 0) {
            Val o = gen_val(IPN);
            ip::ip_network a = Tr<ip::ip_network>::make(o);
            a = Tr<ip::ip_network>::make(v);
            return a;
        }
        Val o = gen_val(IPN);
        ip::ip_network a = Tr<ip::ip_network>::make(o), b = Tr<ip::ip_network>::make(v);
        std::swap(a, b);
        return a;
    }
};
template <> struct Route<ip::ipv4_network> {
    enum { n = 2 };
    static ip::ipv4_network go(int r, const Val& v) {
        ip::ipv4_network a = mkn4(v);
        if (r == 0 || v.plen == 0) return ip::ipv4_network::from_address(a.broadcast_address(), size_t(v.plen), false);
        return a.supernet().subnets(1)[get_bit(v, v.plen - 1) ? 1 : 0];
    }
};
template <> struct Route<ip::ipv6_network> {
    enum { n = 2 };
    static ip::ipv6_network go(int r, const Val& v) {
        ip::ipv6_network a = mkn6(v);
        if (v.slen) return a;
        if (r == 0 || v.plen == 0) return ip::ipv6_network::from_address(a.broadcast_address(), size_t(v.plen), false);
        return a.supernet().subnets(1)[get_bit(v, v.plen - 1) ? 1 : 0];
    }
};
template <> struct Route<ip::uint128_t> {
    enum { n = 3 };
    static ip::uint128_t go(int r, const Val& v) {
        ip::uint128_t a = Tr<ip::uint128_t>::make(v), b = Tr<ip::uint128_t>::make(gen_val(U128));
        if (r == 0) return (a ^ b) ^ b;
        if (r == 1) { a += b; a -= b; return a; }
        return ~(~a);
    }
};
template <class T> void Routes::go() {
    static const int P = int(sizeof patterns / sizeof *patterns);
    alignas(16) unsigned char s0[sizeof(T)], s1[sizeof(T) + 16];
    int f0 = patterns[pick(P)], f1 = patterns[pick(P)];
    memset(s0, f0, sizeof s0);
    memset(s1, f1, sizeof s1);
    count(F_MEM_PATTERN, 2);
    T* a = new (s0) T(Tr<T>::make(v));
    scribble(f1);
    int routes = 5 + Route<T>::n;
    int r = int(pick(uint32_t(routes)));
    Base base = Base(pick(3));
    T* b = new (s1) T();
    ip::format f = v.slen || v.kind == U128 ? ip::format::compressed : ip::format(pick(3));
    std::string text = render_canonical(v, f, base, pick(2) != 0);
    char name[60];
    snprintf(name, sizeof name, "%s.route%d", kind_names[v.kind], r);
    set_where("%s of %s", name, desc(v).s);
    switch (r) {
        case 0: {
            Val x;
            if (!parse_ref<T>(text, true, base, x)) fail("route", name, "own text '%s' of %s does not parse", text.c_str(), desc(v).s);
            *b = Tr<T>::make(x);
            break;
        }
        case 1: {
            Val x;
            if (!parse_ref<T>(widen<char32_t>(text), true, base, x)) fail("route", name, "own text '%s' of %s does not parse", text.c_str(), desc(v).s);
            *b = Tr<T>::make(x);
            break;
        }
        case 2: *b = Tr<T>::make(near(v)); *b = *a; break;
        case 3: extract_into(*b, text, base); break;
        case 4: { T t(*a); *b = Tr<T>::make(near(v)); b->swap(t); break; }
        default: *b = Route<T>::go(r - 5, v); break;
    }
    scribble(f0);
    T* h = new T(*b);
    count(C_CHECKS);
    sig(mix(uint64_t(r) * 8 + uint64_t(v.kind), hash_val(v)));
    const T &x = *a, &y = pick(2) ? *b : *h;
    uint64_t hx = x.hash(), hy = y.hash();
    ev("route %s %s hash %016llx", name, desc(v).s, (unsigned long long)hx);
    bool eq = x == y, ne = x != y, lt = x < y, gt = x > y, le = x <= y, ge = x >= y;
    if (!eq || ne || lt || gt || !le || !ge) fail("route", name, "%s made directly and by route %d ('%s') do not compare equal (%d%d%d%d%d%d)", desc(v).s, r, text.c_str(), eq, ne, lt, gt, le, ge);
    if (hx != hy || std::hash<T>()(x) != std::hash<T>()(y)) fail("route", name, "%s made directly and by route %d ('%s') hash differently", desc(v).s, r, text.c_str());
    if (Str2<T>::go(x, f, base) != Str2<T>::go(y, f, base)) fail("route", name, "%s made directly and by route %d print differently", desc(v).s, r);
    if (!same(read_val(y), v)) fail("route", name, "%s made by route %d reads back as %s", desc(v).s, r, desc(read_val(y)).s);
    std::unordered_set<T> set;
    set.insert(x);
    set.insert(y);
    set.insert(Tr<T>::make(v));
    if (set.size() != 1 || !set.count(y)) fail("route", name, "%s is found %zu times in a set", desc(v).s, set.size());
    delete h;
}
SIM_SCENARIO(C11) {
    uint32_t nops = 2 + pick(5);
    for (uint32_t i = 0; i < nops; ++i) {
        if (pick(3) == 0) {
            Routes r;
            r.v = gen_any();
            dispatch(r.v.kind, r);
            continue;
        }
        int kind = int(pick(NKINDS));
        const Op& op = pick(2) ? choose(kind, true) : pick_op(kind, NT);
        In in = gen_in(kind);
        char name[120];
        opname(op, kind, name, sizeof name);
        static Out ref, got;
        uint32_t reps = 2 + pick(2);
        for (uint32_t r = 0; r < reps; ++r) {
            const int P = int(sizeof patterns / sizeof *patterns);
            int ps = patterns[pick(P)], ph = patterns[pick(P)], po = patterns[pick(P)];
            int depth = pick(3) ? 0 : int(pick(12));
            Out& o = r ? got : ref;
            count(F_MEM_PATTERN, 3);
            set_heap_fill(ph);
            scribble(ps);
            run_deep(depth, op, in, o, po);
            set_heap_fill(-1);
            sig(op_sig(op, kind, mix(hash_out(o), uint64_t(ps) << 16 | uint64_t(ph) << 8 | uint64_t(po))));
            if (!r) {
                ev("op %s %s out %016llx", name, desc_in(in).s, (unsigned long long)hash_out(ref));
                continue;
            }
            count(C_CHECKS);
            if (!same(got, ref)) {
                static char d[2000];
                diff(got, ref, d, sizeof d);
                fail("memory", name, "with stack 0x%02x, heap 0x%02x, storage 0x%02x the outcome differs: %s; arguments %s", ps, ph, po, d, desc_in(in).s);
            }
        }
    }
}
} // namespace sim
