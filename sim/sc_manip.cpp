// C04: histories of manipulators, insertions, extractions, failures, copyfmt, moves and swaps over
// several streams, against a model of one pending form and one pending strictness per stream.
#include "streams.hpp"
#include <memory>

namespace sim {
namespace {

template <class C> struct DuplexBuf : std::basic_streambuf<C> {
    typedef std::basic_string<C> str;
    typedef typename std::basic_streambuf<C>::int_type int_type;
    typedef std::char_traits<C> tr;
    str in, out;
    size_t pos;
    int rfault, wfault, th;     // at the end of `in`: 0 end, 1 throw; writes: 0 work, 1 refused, 2 throw
    size_t wroom;               // characters accepted before the write fault
    DuplexBuf() : pos(0), rfault(0), wfault(0), th(0), wroom(0) {}
    int_type underflow() override {
        if (pos < in.size()) return tr::to_int_type(in[pos]);
        Pause p;
        if (rfault) { count(F_SRC_THROW); throw_kind(th); }
        return tr::eof();
    }
    int_type uflow() override {
        int_type c = underflow();
        if (!tr::eq_int_type(c, tr::eof())) ++pos;
        return c;
    }
    int_type overflow(int_type c) override {
        Pause p;
        if (tr::eq_int_type(c, tr::eof())) return tr::not_eof(c);
        if (wfault) {
            if (wroom == 0) {
                if (wfault == 2) { count(F_SINK_THROW); throw_kind(th); }
                count(F_DISK_FULL);
                return tr::eof();
            }
            --wroom;
        }
        out.push_back(tr::to_char_type(c));
        return c;
    }
};

template <class C> struct Stream : std::basic_iostream<C> {
    DuplexBuf<C> buf;
    Stream() : std::basic_iostream<C>(nullptr) { this->rdbuf(&buf); this->clear(); }
    Stream(Stream&& o) : std::basic_iostream<C>(std::move(o)), buf() { this->set_rdbuf(&buf); }
    Stream& operator=(Stream&& o) {
        std::basic_iostream<C>::operator=(std::move(o));
        return *this;
    }
    void exchange(Stream& o) { std::basic_iostream<C>::swap(o); }
};

enum { NONE = -1 };
struct Model {
    int form;          // pending form, NONE
    int strict;        // pending strictness, NONE
    std::vector<std::pair<int, long>> words;   // the program's own attributes
    std::vector<std::pair<int, void*>> ptrs;
    Model() : form(NONE), strict(NONE) {}
};

struct World;
template <class C> struct Slot {
    std::unique_ptr<Stream<C>> s;
    Model m;
    int id;
};

template <class C> struct Lab {
    typedef std::basic_string<C> str;
    Slot<C> slots[3];
    int nslots, who;
    bool faults;
    Slot<C>* cur;

    Lab() : nslots(1 + int(pick(3))), who(0), faults(pick(2) != 0), cur(nullptr) {
        for (int i = 0; i < nslots; ++i) { slots[i].s.reset(new Stream<C>()); slots[i].id = i; }
    }

    void check_words(Slot<C>& x, const char* after) {
        for (size_t i = 0; i < x.m.words.size(); ++i)
            if (x.s->iword(x.m.words[i].first) != x.m.words[i].second)
                fail("foreign-word", after, "stream %d: the program's own stream attribute %d changed from %ld to %ld", x.id, x.m.words[i].first, x.m.words[i].second, x.s->iword(x.m.words[i].first));
        for (size_t i = 0; i < x.m.ptrs.size(); ++i)
            if (x.s->pword(x.m.ptrs[i].first) != x.m.ptrs[i].second)
                fail("foreign-word", after, "stream %d: the program's own stream pointer %d changed", x.id, x.m.ptrs[i].first);
    }

    void manip(Slot<C>& x) {
        int m = int(pick(5));
        static const char* const nm[] = { "full", "compact", "compressed", "strict", "non_strict" };
        bool mask = pick(2) != 0;
        int amode = faults && chance(1, 6) ? 1 + int(pick(2)) : 0;
        std::ios_base::iostate st0 = x.s->rdstate();
        bool exc = false;
        set_where("manip.%s", nm[m]);
        (void)mask;
        alloc_begin(amode, 0);
        try {
            Window w;
            apply(*x.s, m);
        } catch (...) { exc = true; }
        uint32_t fired = alloc_plan().fired;
        alloc_end();
        ev("stream %d << %s%s%s", x.id, nm[m], fired ? " allocation failed" : "", exc ? " exception" : "");
        count(C_OPS);
        if (!fired && (exc || x.s->rdstate() != st0)) fail("state", nm[m], "manipulator %s changed the state from %s to %s%s", nm[m], state_str(st0), state_str(x.s->rdstate()), exc ? " with an exception" : "");
        if (fired && (exc || x.s->rdstate() != st0 || (st0 & std::ios_base::badbit))) {
            // reported (badbit, perhaps set before): not known to be set; set it again with memory
            std::ios_base::iostate e = x.s->exceptions();
            x.s->exceptions(std::ios_base::goodbit);
            x.s->clear();
            apply(*x.s, m);
            if (!x.s->good()) fail("state", nm[m], "manipulator %s fails with memory available", nm[m]);
            x.s->exceptions(e);
        }
        if (m < 3) x.m.form = m; else x.m.strict = m == 3;
        if (x.s->exceptions() & x.s->rdstate()) {}
    }
    static void apply(Stream<C>& s, int m) {
        switch (m) {
            case 0: s << ip::full; break;
            case 1: s << ip::compact; break;
            case 2: s << ip::compressed; break;
            case 3: s >> ip::strict; break;
            default: s >> ip::non_strict; break;
        }
    }

    struct Insert {
        Lab& l; Slot<C>& x;
        template <class T> void go() { l.template insert<T>(x); }
    };
    struct Extract {
        Lab& l; Slot<C>& x;
        template <class T> void go() { l.template extract<T>(x); }
    };

    template <class T> void insert(Slot<C>& x) {
        const char* name = kind_names[Tr<T>::kind];
        bool uses_form = Tr<T>::kind != U128;
        Stream<C>& s = *x.s;
        Val v = gen_val(Tr<T>::kind);
        T obj = Tr<T>::make(v);
        int pend = uses_form ? x.m.form : NONE;
        ip::format fmt = pend == 0 ? ip::format::full : pend == 1 ? ip::format::compact : ip::format::compressed;
        Base base = base_of(s.flags());
        str want = widen<C>(render_canonical(v, fmt, base, (s.flags() & std::ios_base::uppercase) != 0));
        int amode = faults && chance(1, 8) ? 1 + int(pick(2)) : 0;
        uint32_t ak = pick(3);
        bool wf = faults && chance(1, 4);
        if (wf) {
            s.buf.wfault = 1 + int(pick(2));
            s.buf.wroom = pick(uint32_t(want.size()));
            s.buf.th = int(pick(NTHROW));
        }
        if (uses_form) x.m.form = NONE;   // used up, whatever happens
        std::ios_base::iostate st0 = s.rdstate();
        size_t before = s.buf.out.size();
        bool exc = false;
        set_where("%s.insert", name);
        alloc_begin(amode, ak);
        try { Window w; s << obj; } catch (...) { exc = true; }
        uint32_t fired = alloc_plan().fired;
        alloc_end();
        s.buf.wfault = 0;
        std::ios_base::iostate st = s.rdstate();
        str got = s.buf.out.substr(before);
        ev("stream %d << %s %s form %d: [%s] state %s -> %s%s%s%s", x.id, name, desc(v).s, pend, narrow(got).c_str(), state_str(st0), state_str(st), exc ? " exception" : "", fired ? " allocation failed" : "", wf ? " write fault" : "");
        count(C_OPS);
        count(C_CHECKS);
        sig(mix(mix(uint64_t(Tr<T>::kind), uint64_t(pend + 1) * 64 + unsigned(st0) * 8 + unsigned(st)), uint64_t(x.m.strict + 1) * 16 + exc * 8 + (fired != 0) * 4 + wf * 2));
        if (st0 == std::ios_base::goodbit && !fired && !wf) {
            if (exc || st != std::ios_base::goodbit) fail("state", name, "insertion into a good stream: state %s%s", state_str(st), exc ? ", exception" : "");
            if (got != want) fail("form", name, "with %s pending, %s was written as [%s] instead of [%s]", pend == NONE ? "no form" : pend == 0 ? "full" : pend == 1 ? "compact" : "compressed", desc(v).s, narrow(got).c_str(), narrow(want).c_str());
        } else if (got.size() > want.size() || want.compare(0, got.size(), got) != 0)
            fail("form", name, "with form %d pending, %s was written as [%s], expected [%s] or a part", pend, desc(v).s, narrow(got).c_str(), narrow(want).c_str());
        if (st0 != std::ios_base::goodbit && !got.empty()) fail("state", name, "output although the state was %s", state_str(st0));
        count(st == std::ios_base::goodbit ? C_SUCCESS : C_FAILREP);
    }

    template <class T> void extract(Slot<C>& x) {
        const char* name = kind_names[Tr<T>::kind];
        bool net = is_net(Tr<T>::kind);
        Stream<C>& s = *x.s;
        Base base = base_of(s.flags());
        Token tok = gen_token(Tr<T>::kind, base, true, true);
        if (net && pick(2)) for (int i = 0; i < 4 && !tok.needs_non_strict; ++i) tok = gen_token(Tr<T>::kind, base, false, true);
        int rf = faults && chance(1, 6) ? 1 + int(pick(2)) : 0;       // cut the source: 1 ends, 2 throws
        std::string text = tok.text;
        size_t cut = text.size();
        if (rf) cut = pick(uint32_t(text.size()) + 1);
        s.buf.in = widen<C>(text.substr(0, cut) + (rf ? "" : " 17"));
        s.buf.pos = 0;
        s.buf.rfault = rf == 2;
        s.buf.th = int(pick(NTHROW));
        int amode = faults && chance(1, 8) ? 1 + int(pick(2)) : 0;
        uint32_t ak = pick(3);
        int pend = net ? x.m.strict : NONE;
        bool strict = pend != 0;
        if (net) x.m.strict = NONE;
        Val want;
        bool parses = parse_ref<T>(widen<C>(text), strict, base, want);
        std::ios_base::iostate st0 = s.rdstate();
        set_where("%s.extract", name);
        T obj = Tr<T>::make(gen_val(Tr<T>::kind));
        bool exc = false;
        alloc_begin(amode, ak);
        try { Window w; s >> obj; } catch (...) { exc = true; }
        uint32_t fired = alloc_plan().fired;
        alloc_end();
        std::ios_base::iostate st = s.rdstate();
        Val got = read_val(obj);
        ev("stream %d >> %s [%s]%s strict %d state %s -> %s%s%s", x.id, name, narrow(s.buf.in).c_str(), rf == 2 ? " then throws" : "", pend, state_str(st0), state_str(st), exc ? " exception" : "", fired ? " allocation failed" : "");
        count(C_OPS);
        count(C_CHECKS);
        sig(mix(mix(uint64_t(Tr<T>::kind) + 100, uint64_t(pend + 1) * 64 + unsigned(st0) * 8 + unsigned(st)), uint64_t(x.m.form + 1) * 16 + exc * 8 + (fired != 0) * 4 + uint64_t(rf)));
        if (st0 == std::ios_base::goodbit && !fired && !rf) {
            bool ok = !(st & std::ios_base::failbit);
            if (ok != parses || (st & ~std::ios_base::failbit))
                fail("strict", name, "with %s, [%s] was %s (state %s)", pend == NONE ? "no rule given" : pend ? "strict" : "non_strict", text.c_str(), ok ? "accepted" : "rejected", state_str(st));
            if (ok && !same(got, want)) fail("strict", name, "with %s, [%s] was read as %s instead of %s", strict ? "strict" : "non_strict", text.c_str(), desc(got).s, desc(want).s);
            if (tok.valid) {
                bool acc = !(tok.needs_non_strict && strict);
                if (ok != acc || (ok && !same(got, tok.v))) fail("strict", name, "with %s, [%s] was %s", strict ? "strict" : "non_strict", text.c_str(), ok ? "accepted" : "rejected");
            }
        }
        s.buf.rfault = 0;
        count(st == std::ios_base::goodbit ? C_SUCCESS : C_FAILREP);
    }

    void recover(Slot<C>& x) {
        if (x.s->good()) return;
        if (pick(5) == 0) return;
        x.s->clear();
        count(C_RECOVERIES);
    }

    // output and input of standard types: uses nothing up
    void std_io(Slot<C>& x) {
        Stream<C>& s = *x.s;
        try {
            if (pick(2)) { s << 4711 << C(',') << widen<C>("text"); }
            else {
                s.buf.in = widen<C>("123 word");
                s.buf.pos = 0;
                int i = 0;
                str w;
                s >> i >> w;
            }
        } catch (...) {}
        ev("stream %d other input and output", x.id);
    }

    void step() {
        Slot<C>& x = slots[pick(uint32_t(nslots))];
        static const uint32_t w[] = { 10, 8, 8, 2, 2, 2, 1, 1, 1, 2, 1 };
        switch (pickw(w, 11)) {
            case 0: manip(x); break;
            case 1: { Insert f = { *this, x }; dispatch(int(pick(NKINDS)), f); recover(x); break; }
            case 2: { Extract f = { *this, x }; dispatch(int(pick(NKINDS)), f); recover(x); break; }
            case 3: std_io(x); recover(x); break;
            case 4: {   // flags, state and mask
                static const std::ios_base::fmtflags b[] = { std::ios_base::dec, std::ios_base::hex, std::ios_base::oct };
                x.s->setf(b[pick(3)], std::ios_base::basefield);
                if (pick(2)) x.s->setf(std::ios_base::uppercase); else x.s->unsetf(std::ios_base::uppercase);
                ev("stream %d flags %x", x.id, unsigned(x.s->flags()));
                break;
            }
            case 5: {
                static const std::ios_base::iostate e[] = { std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit };
                x.s->clear();
                x.s->exceptions(e[pick(4)]);
                if (faults && pick(3) == 0) {
                    count(F_STREAM_STATE);
                    try { x.s->setstate(pick(2) ? std::ios_base::badbit : std::ios_base::eofbit); } catch (const std::ios_base::failure&) {}
                }
                ev("stream %d state %s mask %s", x.id, state_str(x.s->rdstate()), state_str(x.s->exceptions()));
                break;
            }
            case 6: {   // copyfmt: attributes of the source, its pending manipulators included
                Slot<C>& y = slots[pick(uint32_t(nslots))];
                std::ios_base::iostate e = y.s->exceptions();
                x.s->clear();
                y.s->exceptions(std::ios_base::goodbit);
                x.s->copyfmt(*y.s);
                y.s->clear();
                y.s->exceptions(e);
                if (&x != &y) { Model m = y.m; x.m = m; }
                ev("stream %d copyfmt from %d", x.id, y.id);
                break;
            }
            case 7: {   // move construction
                std::unique_ptr<Stream<C>> n(new Stream<C>(std::move(*x.s)));
                x.s = std::move(n);
                ev("stream %d moved", x.id);
                break;
            }
            case 8: {   // swap
                Slot<C>& y = slots[pick(uint32_t(nslots))];
                if (&x == &y) break;
                x.s->exchange(*y.s);
                std::swap(x.m, y.m);
                ev("streams %d and %d swapped", x.id, y.id);
                break;
            }
            case 9: {   // the program's own attributes
                count(F_INDEX_PRESSURE);
                int i = std::ios_base::xalloc();
                if (pick(2)) { long val = 1000 + long(pick(1000)); x.s->iword(i) = val; x.m.words.push_back(std::make_pair(i, val)); }
                else { x.s->pword(i) = &x; x.m.ptrs.push_back(std::make_pair(i, static_cast<void*>(&x))); }
                ev("stream %d attribute %zu", x.id, x.m.words.size() + x.m.ptrs.size());
                break;
            }
            default: {   // a new stream in place of the old: nothing pending
                x.s.reset(new Stream<C>());
                x.m = Model();
                ev("stream %d replaced", x.id);
            }
        }
        for (int i = 0; i < nslots; ++i) check_words(slots[i], "step");
    }
    void run() {
        uint32_t n = 8 + pick(50);
        for (uint32_t i = 0; i < n; ++i) {
            step();
            if (sched::active()) sched::yield();
        }
    }
    static void task(void* p) { static_cast<Lab*>(p)->run(); }
};
} // namespace

SIM_SCENARIO(C04) {
    if (chance(1, 4)) {
        count(F_INDEX_PRESSURE);
        for (uint32_t n = 1 + pick(12); n > 0; --n) (void)std::ios_base::xalloc();
    }
    if (pick(3)) {
        Lab<char> l;
        l.run();
    } else if (pick(2)) {
        Lab<wchar_t> l;
        l.run();
    } else {
        Lab<char> a;
        Lab<wchar_t> b;
        Lab<char> c;
        c.slots[0].id = 20;
        sched::spawn(&Lab<char>::task, &a);
        sched::spawn(&Lab<wchar_t>::task, &b);
        sched::spawn(&Lab<char>::task, &c);
        sched::run(20000);
    }
}
} // namespace sim
