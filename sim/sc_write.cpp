// C03: insertion into streams over sinks that accept part of the output, are full, or throw.
#include "streams.hpp"

namespace sim {
namespace {

template <class C> std::basic_string<C> padded(const std::basic_string<C>& s, std::streamsize w, C fill, std::ios_base::fmtflags fl) {
    if (w <= std::streamsize(s.size())) return s;
    std::basic_string<C> pad(size_t(w) - s.size(), fill);
    return (fl & std::ios_base::adjustfield) == std::ios_base::left ? s + pad : pad + s;
}

template <class C> struct Writer {
    typedef std::basic_string<C> str;
    SimSink<C> sink;
    std::basic_ostream<C> os;
    str log;                       // everything the stream accepted so far
    std::ios_base::iostate mask;
    bool alloc_faults;
    int id;
    uint32_t steps, n, rounds;
    ip::format form;               // chosen for this insertion
    int pending;

    explicit Writer(int i) : os(nullptr), mask(std::ios_base::goodbit), alloc_faults(false), id(i), steps(0), n(0), rounds(0), form(ip::format::compressed), pending(0) { os.rdbuf(&sink); os.clear(); }

    void plan_fault() {
        sink.hit = false;
        switch (pick(4)) {
            case 0: sink.heal(); break;
            case 1: case 2:
                sink.fault = KF_FULL;
                sink.limit = sink.accepted.size() + (pick(3) ? pick(60) : pick(400));
                break;
            default:
                sink.fault = KF_THROW;
                sink.th = int(pick(NTHROW));
                sink.limit = sink.accepted.size() + (pick(3) ? pick(60) : pick(400));
        }
        sink.sync_fails = chance(1, 6);
        ev("writer %d medium: %s after %ld more%s", id, sink.fault == KF_NONE ? "works" : sink.fault == KF_FULL ? "full" : "throws", sink.fault ? long(sink.limit - sink.accepted.size()) : -1L,
           sink.sync_fails ? ", sync fails" : "");
    }

    void setup() {
        n = 3 + pick(8);
        sink.set_buffer(pick(3) ? 0 : 1 + pick(24));
        sink.per_char = chance(1, 4);
        sink.stalls = pick(2) != 0;
        if (chance(1, 4)) sink.reenter = &reenter_library;
        static const std::ios_base::iostate masks[] = { std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit,
            std::ios_base::badbit | std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit };
        mask = masks[pick(6)];
        os.exceptions(mask);
        alloc_faults = chance(1, 4);
        plan_fault();
    }

    void check_prefix(const char* who, const char* name, const str& before, const str& want, bool& complete, str& delta) {
        str after = sink.all();
        if (after.compare(0, before.size(), before) != 0) fail("history", name, "%s: earlier output changed", who);
        delta = after.substr(before.size());
        if (delta.size() > want.size() || want.compare(0, delta.size(), delta) != 0)
            fail("prefix", name, "%s: the sink received [%s], which is no prefix of [%s]", who, narrow(delta).c_str(), narrow(want).c_str());
        complete = delta.size() == want.size();
    }

    template <class T> void go() {
        const char* name = kind_names[Tr<T>::kind];
        Val v = gen_val(Tr<T>::kind);
        T obj = Tr<T>::make(v);
        static const std::ios_base::fmtflags adj[] = { std::ios_base::fmtflags(0), std::ios_base::left, std::ios_base::right, std::ios_base::internal };
        os.setf(adj[pick(4)], std::ios_base::adjustfield);
        Base base = Base(pick(3));
        os.setf(base == HEX ? std::ios_base::hex : base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
        if (pick(4) == 0) os.setf(std::ios_base::uppercase); else os.unsetf(std::ios_base::uppercase);
        if (pick(6) == 0) os.setf(std::ios_base::showbase | std::ios_base::showpos); else os.unsetf(std::ios_base::showbase | std::ios_base::showpos);
        // libstdc++ ends the program when a flush in the sentry's destructor throws: not combined
        bool unit = chance(1, 5) && !(mask & std::ios_base::badbit) && sink.fault != KF_THROW;
        if (unit) os.setf(std::ios_base::unitbuf); else os.unsetf(std::ios_base::unitbuf);
        C fill = pick(2) ? C(' ') : sizeof(C) > 1 && pick(2) ? C(0x30fb) : C("*0%f"[pick(4)]);
        os.fill(fill);
        std::streamsize w = pick(3) == 0 ? std::streamsize(1 + pick(70)) : 0;
        os.width(w);
        int f = pick(2) ? int(pick(3)) : -1;
        ip::format fmt = ip::format::compressed;
        if (f == 0) { os << ip::full; fmt = ip::format::full; }
        else if (f == 1) { os << ip::compact; fmt = ip::format::compact; }
        else if (f == 2) { os << ip::compressed; }
        // the working sink
        str canon = widen<C>(render_canonical(v, fmt, base, (os.flags() & std::ios_base::uppercase) != 0));
        str want = padded(canon, w, fill, os.flags());
        std::basic_ostringstream<C> twin;
        twin.flags(os.flags());
        twin.fill(fill);
        twin.width(w);
        if (f == 0) twin << ip::full; else if (f == 1) twin << ip::compact; else if (f == 2) twin << ip::compressed;
        twin << obj;
        if (Tr<T>::kind == U128 && f >= 0) { std::basic_ostringstream<C> x; os << ip::compressed; }   // not used up by an integer
        if (twin.str() != want || !twin.good() || twin.width() != 0)
            fail("text", name, "a working sink received [%s] instead of [%s]", narrow(twin.str()).c_str(), narrow(want).c_str());

        int amode = 0;
        uint32_t ak = 0;
        if (alloc_faults && pick(2)) { amode = 1 + int(pick(2)); ak = pick(4); }
        std::ios_base::iostate st0 = os.rdstate();
        str before = sink.all();
        sink.hit = false;
        set_where("%s.insert", name);
        bool exc = false, exc_alloc = false;
        alloc_begin(amode, ak);
        try {
            Window win;
            os << obj;
        } catch (const std::bad_alloc&) { exc = exc_alloc = true; }
        catch (...) { exc = true; }
        uint32_t fired = alloc_plan().fired;
        alloc_end();
        std::ios_base::iostate st = os.rdstate();
        char who[300];
        snprintf(who, sizeof who, "%s << %s %s", sizeof(C) == 1 ? "ostream" : "wostream", name, narrow(canon).c_str());
        str delta;
        bool complete;
        if (st0 != std::ios_base::goodbit) {
            check_prefix(who, name, before, str(), complete, delta);
            if ((st & st0) != st0) fail("state", name, "%s: state %s became %s", who, state_str(st0), state_str(st));
            count(F_STREAM_STATE);
        } else {
            check_prefix(who, name, before, want, complete, delta);
            bool reported = (st & (std::ios_base::badbit | std::ios_base::failbit)) || exc;
            if (!complete && !reported) fail("silent", name, "%s: only %zu of %zu characters were accepted and the stream is %s", who, delta.size(), want.size(), state_str(st));
            if (!sink.hit && !fired) {
                if (reported || st != std::ios_base::goodbit) fail("state", name, "%s: state %s%s although the sink accepted everything", who, state_str(st), exc ? " and an exception" : "");
                if (os.width() != 0) fail("width", name, "%s: width is still %ld", who, long(os.width()));
            }
            if (sink.hit && !reported) fail("silent", name, "%s: the sink failed and the stream is %s", who, state_str(st));
            count(reported ? C_FAILREP : C_SUCCESS);
        }
        if ((st & mask) && !exc) fail("mask", name, "%s: state %s is in the exception mask but nothing was thrown", who, state_str(st));
        if (exc && !(st & mask) && !(fired && exc_alloc)) fail("exception", name, "%s: an exception although state %s is not in the mask %s", who, state_str(st), state_str(mask));
        if (read_bytes_changed<T>(obj, v)) fail("value", name, "%s: the object changed", who);
        log += delta;
        count(C_OPS);
        count(C_CHECKS, 4);
        if (exc) count(C_EXC);
        ev("writer %d << %s [%s] width %ld fill %lx flags %x state %s -> %s, %zu of %zu characters%s%s", id, name, narrow(canon).c_str(), long(w), (unsigned long)fill, unsigned(os.flags()), state_str(st0), state_str(st),
           delta.size(), want.size(), exc ? " exception" : "", fired ? " allocation failed" : "");
        sig(mix(mix(mix(hash_bytes(canon.data(), canon.size() * sizeof(C)), delta.size()), uint64_t(st) * 64 + uint64_t(mask) * 8 + exc * 4 + (fired != 0) * 2 + unit), uint64_t(w) * 2 + sink.per_char));
    }
    template <class T> static bool read_bytes_changed(const T& o, const Val& v) { return !same(read_val(o), v); }

    // other output between the insertions
    void other() {
        if (!os.good()) return;
        os.width(0);
        str before = sink.all(), want, delta;
        bool complete, exc = false;
        sink.hit = false;
        try {
            switch (pick(3)) {
                case 0: want = widen<C>("\n"); os << C('\n'); break;
                case 1: os.flush(); break;
                default: want = widen<C>(" and "); os << want; break;
            }
        } catch (...) { exc = true; }
        (void)exc;
        check_prefix("other output", "std", before, want, complete, delta);
        log += delta;
    }

    void recover() {
        if (os.good() && !sink.hit) return;
        if (pick(4) == 0) return;      // carry on with a failed stream
        if (pick(2)) { sink.heal(); count(C_RECOVERIES); ev("writer %d medium works again", id); }
        else plan_fault();
        os.clear();
    }

    void run() {
        for (uint32_t i = 0; i < n; ++i) {
            dispatch(int(pick(NKINDS)), *this);
            if (pick(2)) other();
            recover();
            if (pick(6) == 0) plan_fault();
            if (sched::active()) sched::yield();
        }
        // the fault is gone: the next insertion is complete, and nothing was lost, doubled or reordered
        sink.heal();
        mask = std::ios_base::goodbit;
        os.exceptions(mask);
        os.clear();
        os.unsetf(std::ios_base::unitbuf);
        alloc_faults = false;
        dispatch(int(pick(NKINDS)), *this);
        os.flush();
        if (!os.good()) fail("recovery", "flush", "state %s after the medium works again", state_str(os.rdstate()));
        if (sink.accepted != log) fail("log", "sink", "the medium holds [%s], accepted was [%s]", narrow(sink.accepted).c_str(), narrow(log).c_str());
        count(C_RECOVERIES);
    }
    static void task(void* p) { static_cast<Writer*>(p)->run(); }
};
} // namespace

SIM_SCENARIO(C03) {
    if (chance(1, 5)) {
        count(F_INDEX_PRESSURE);
        for (uint32_t n = 1 + pick(12); n > 0; --n) (void)std::ios_base::xalloc();
    }
    uint32_t k = 1 + pick(3);
    Writer<char>* n[3] = {};
    Writer<wchar_t>* w[3] = {};
    for (uint32_t i = 0; i < k; ++i) {
        if (pick(3)) { n[i] = new Writer<char>(int(i)); n[i]->setup(); sched::spawn(&Writer<char>::task, n[i]); }
        else { w[i] = new Writer<wchar_t>(int(i)); w[i]->setup(); sched::spawn(&Writer<wchar_t>::task, w[i]); }
    }
    sched::run(20000);
    for (uint32_t i = 0; i < 3; ++i) { delete n[i]; delete w[i]; }
}
} // namespace sim
