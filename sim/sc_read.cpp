// C01, C02: extraction from streams over sources that split, delay and fail.
#include "streams.hpp"

namespace sim {

namespace {

struct Item { size_t start, end; Token tok; int kind; Base base; };

template <class C> struct Reader {
    typedef std::basic_string<C> str;
    SimSource<C> src;
    std::basic_istream<C> in;
    std::vector<Item> items;
    bool strict_pending;     // model of the stream's rule for the next network
    bool with_faults, alloc_faults;
    int id;
    std::ios_base::iostate mask;
    uint32_t steps;

    Reader(int i, bool faults) : in(nullptr), strict_pending(true), with_faults(faults), alloc_faults(false), id(i), mask(std::ios_base::goodbit), steps(0) {
        in.rdbuf(&src);
        in.clear();
    }

    void setup() {
        uint32_t n = 1 + pick(with_faults ? 4 : 6);
        std::string text = gen_ws(false);
        for (uint32_t i = 0; i < n; ++i) {
            Item it;
            it.kind = int(pick(NKINDS));
            it.base = it.kind == U128 ? Base(pick(3)) : DEC;
            it.tok = gen_token(it.kind, it.base, true, true);
            it.start = text.size();
            text += it.tok.text;
            it.end = text.size();
            items.push_back(it);
            count(C_TOKENS);
            if (i + 1 < n) text += gen_ws(true);
        }
        if (pick(2)) text += gen_ws(false);
        src.content = widen<C>(text);
        if (sizeof(C) > 1 && pick(12) == 0) src.content[pick(uint32_t(text.size()))] = C(0x2460 + pick(100));   // a character outside 8 bit
        static const unsigned chunks[] = { 1, 2, 3, 5, 8, 16, 40, 0 };
        src.max_chunk = chunks[pick(8)];
        src.unbuffered = chance(1, 5);
        src.stalls = !with_faults || pick(2);
        if (chance(1, 4)) src.reenter = &reenter_library;
        if (with_faults) {
            uint32_t nf = pick(4);
            for (uint32_t i = 0; i < nf; ++i) {
                typename SimSource<C>::Fault f;
                const Item& it = items[pick(uint32_t(items.size()))];
                // mostly inside a token
                f.at = pick(4) ? it.start + pick(uint32_t(it.end - it.start + 1)) : pick(uint32_t(src.content.size() + 1));
                f.kind = pick(3) == 0 ? SF_EOF : SF_THROW;
                f.th = int(pick(NTHROW));
                f.healed = false;
                f.hits = 0;
                src.faults.push_back(f);
            }
            for (size_t i = 0; i < src.faults.size(); ++i)
                for (size_t k = i + 1; k < src.faults.size(); ++k)
                    if (src.faults[k].at < src.faults[i].at) std::swap(src.faults[i], src.faults[k]);
            alloc_faults = chance(1, 3);
            static const std::ios_base::iostate masks[] = { std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit,
                std::ios_base::badbit | std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit };
            mask = masks[pick(7)];
            in.exceptions(mask);
        }
        ev("reader %d %s%s chunk=%u stalls=%d mask=%s content=[%s]", id, sizeof(C) == 1 ? "char" : "wchar_t", src.unbuffered ? " unbuffered" : "", src.max_chunk, int(src.stalls),
           state_str(mask), narrow(src.content).c_str());
        for (size_t i = 0; i < src.faults.size(); ++i)
            ev("reader %d fault at %zu: %s %d", id, src.faults[i].at, src.faults[i].kind == SF_EOF ? "end of source" : "throws", src.faults[i].th);
    }

    const Item* item_at(size_t p) const {   // the token that starts at or after p, if only white space lies between
        for (size_t i = 0; i < items.size(); ++i)
            if (items[i].start >= p) {
                for (size_t k = p; k < items[i].start; ++k) if (!is_ws((unsigned long)src.content[k])) return nullptr;
                return &items[i];
            }
        return nullptr;
    }

    template <class T> void go() { extract<T>(); }

    template <class T> void extract() {
        const char* name = kind_names[Tr<T>::kind];
        bool net = is_net(Tr<T>::kind);
        size_t p0 = src.consumed();
        int fi;
        size_t f = src.next_fault(p0, &fi);
        size_t e = src.content.size();
        size_t lim = f < e ? f : e;
        bool at_fault = f <= e && fi >= 0;
        bool throws = at_fault && src.faults[size_t(fi)].kind == SF_THROW;
        std::ios_base::iostate st0 = in.rdstate();
        std::ios_base::fmtflags fl0 = in.flags();
        std::streamsize w0 = in.width();
        Base base = base_of(fl0);

        // the reference: extracting a string from what the source can deliver, in one piece
        str rest = src.content.substr(p0, lim - p0);
        std::basic_istringstream<C> twin(rest);
        twin.flags(fl0);
        twin.width(w0);
        twin.clear(st0);
        str token;
        twin >> token;
        std::ios_base::iostate rst = twin.rdstate();
        size_t used = rest.empty() ? 0 : size_t(twin.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in));
        std::streamsize rw = twin.width();
        bool reach = (rst & std::ios_base::eofbit) && !(st0 & std::ios_base::eofbit);   // needs more than the source delivers before the fault
        Val want;
        bool strict = net ? strict_pending : true;
        bool parses = !(rst & std::ios_base::failbit) && parse_ref<T>(token, strict, base, want);
        if (net) strict_pending = true;

        int amode = 0;
        uint32_t ak = 0;
        if (alloc_faults && chance(1, 2)) {
            amode = 1 + int(pick(2));
            ak = pick(4);
        }
        set_where("%s.extract", name);
        T obj = Tr<T>::make(gen_val(Tr<T>::kind));
        bool exc = false, exc_alloc = false, exc_failure = false;
        src.last_fault = -1;
        alloc_begin(amode, ak);
        try {
            Window w;
            in >> obj;
        } catch (const std::bad_alloc&) {
            exc = exc_alloc = true;
        } catch (const std::ios_base::failure&) {
            exc = exc_failure = true;
        } catch (...) {
            exc = true;
        }
        uint32_t fired = alloc_plan().fired;
        alloc_end();
        size_t p1 = src.consumed();
        std::ios_base::iostate st = in.rdstate();
        count(C_OPS);
        if (exc) count(C_EXC);
        Val got = read_val(obj);
        bool ok = !exc && !(st & (std::ios_base::failbit | std::ios_base::badbit));
        count(ok ? C_SUCCESS : C_FAILREP);
        ev("reader %d >> %s%s%s from %zu to %zu token [%s] state %s%s%s", id, name, strict ? "" : " non_strict", base == HEX ? " hex" : base == OCT ? " oct" : "", p0, p1, narrow(token).c_str(), state_str(st),
           exc ? " exception" : "", fired ? " allocation failed" : "");
        sig(mix(mix(mix(mix(uint64_t(Tr<T>::kind) * 64 + unsigned(st) * 8 + unsigned(mask), hash_bytes(token.data(), token.size() * sizeof(C))), throws && reach ? f - p0 + 1 : 0), uint64_t(src.max_chunk) * 2 + src.unbuffered), uint64_t(fired * 4 + exc * 2 + strict)));

        char who[100];
        snprintf(who, sizeof who, "%s >> %s, token [%s]", sizeof(C) == 1 ? "istream" : "wistream", name, narrow(token).c_str());
        // ---- checks ----
        count(C_CHECKS);
        // a token that ends exactly at the fault, by width: a peek at the next character may or may not happen
        if (throws && !reach && p0 + used == f && src.last_fault == fi) reach = true;
        if ((st & mask) && !exc) fail("mask", name, "%s: state %s is in the exception mask %s but nothing was thrown", who, state_str(st), state_str(mask));
        if (exc && !(st & mask) && !(fired && exc_alloc)) fail("exception", name, "%s: an exception although state %s is not in the mask %s", who, state_str(st), state_str(mask));
        if (in.flags() != fl0) fail("flags", name, "%s: the stream's flags changed", who);
        if (fired) {
            if (p1 < p0 || p1 > p0 + used) fail("consume", name, "%s: consumed %zu..%zu with failing allocations, the token ends at %zu", who, p0, p1, p0 + used);
            if (ok) {
                if (p1 != p0 + used || !parses || throws_reached(throws, reach)) fail("partial", name, "%s: success is reported for %zu of %zu characters", who, p1 - p0, used);
                if (!same(got, want)) fail("value", name, "%s: success with %s instead of %s after a failed allocation", who, desc(got).s, desc(want).s);
            } else if (!exc && !(st & (std::ios_base::badbit | std::ios_base::failbit))) fail("silent", name, "%s: not reported", who);
        } else if (throws && reach) {
            if (!(st & std::ios_base::badbit)) fail("silent", name, "%s: the source threw at byte %zu and the state is %s", who, f, state_str(st));
            if (p1 != f) fail("consume", name, "%s: the source threw at byte %zu but %zu is the position afterwards", who, f, p1);
        } else {
            if (p1 != p0 + used) fail("consume", name, "%s: consumed %zu..%zu instead of %zu..%zu (content [%s])", who, p0, p1, p0, p0 + used, narrow(src.content).c_str());
            std::ios_base::iostate exp = rst | (parses ? std::ios_base::goodbit : std::ios_base::failbit);
            // an exception for a bit in the mask ends the operation early
            if (exc ? (st & ~exp) || (rst & ~st & ~std::ios_base::failbit) : st != exp)
                fail("state", name, "%s: state %s instead of %s", who, state_str(st), state_str(exp));
            if (ok && !same(got, want)) fail("value", name, "%s: %s instead of %s", who, desc(got).s, desc(want).s);
            if (!exc && in.width() != rw) fail("width", name, "%s: width %ld afterwards, %ld after a string", who, long(in.width()), long(rw));
            // the value known by construction
            const Item* it = item_at(p0);
            if (it && st0 == std::ios_base::goodbit && it->kind == Tr<T>::kind && it->base == base && it->tok.valid && w0 == 0 && lim >= it->end && (used && p0 + used == it->end) && narrow(token) == it->tok.text) {
                bool acc = !it->tok.needs_non_strict || !strict;
                if (!exc && ok != acc) fail("accept", name, "%s (%s): %s", who, strict ? "strict" : "non_strict", ok ? "accepted" : "rejected");
                if (ok && !same(got, it->tok.v)) fail("value", name, "%s: %s, but the token was made from %s", who, desc(got).s, desc(it->tok.v).s);
                count(C_CHECKS);
            }
        }
        if (st != std::ios_base::goodbit || exc) {
            // the source works again
            if (src.last_fault >= 0) {
                typename SimSource<C>::Fault& x = src.faults[size_t(src.last_fault)];
                if (x.hits > 2 || pick(2)) { x.healed = true; count(C_RECOVERIES); }
            }
            if (pick(8) || with_faults) in.clear(); else count(F_STREAM_STATE);
        }
    }
    static bool throws_reached(bool t, bool r) { return t && r; }

    void manip() {
        if (pick(3) == 0) {
            if (pick(2)) { in >> ip::non_strict; strict_pending = false; }
            else { in >> ip::strict; strict_pending = true; }
            if (with_faults && in.rdstate() != std::ios_base::goodbit) harness_error("manipulator changed the state");
        }
    }

    void step() {
        ++steps;
        size_t p = src.consumed();
        const Item* it = item_at(p);
        int kind = it && pick(6) ? it->kind : int(pick(NKINDS));
        if (it && it->kind == U128 && pick(8)) {
            in.setf(it->base == HEX ? std::ios_base::hex : it->base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
        } else if (pick(10) == 0) in.setf(pick(2) ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
        if (chance(1, 12)) in.unsetf(std::ios_base::skipws); else in.setf(std::ios_base::skipws);
        if (chance(1, 12)) in.width(1 + pick(20)); else in.width(0);
        if (chance(1, 10)) in.setf(std::ios_base::uppercase);
        if (in.rdstate() == std::ios_base::goodbit || !with_faults) manip();
        if (!with_faults && chance(1, 10)) {   // something else on the same stream
            str s;
            in >> s;
            ev("reader %d >> string [%s]", id, narrow(s).c_str());
            if (in.rdstate() != std::ios_base::goodbit) in.clear();
            return;
        }
        dispatch(kind, *this);
    }

    void run() {
        bool done = false;
        uint32_t idle = 0;
        while (!done && steps < 40) {
            size_t before = src.consumed();
            step();
            if (sched::active()) sched::yield();
            bool at_end = src.consumed() >= src.content.size();
            idle = src.consumed() == before ? idle + 1 : 0;
            if (idle > 12) {   // e.g. noskipws before white space: skip a character
                in.clear();
                src.last_fault = -1;
                for (size_t i = 0; i < src.faults.size(); ++i) src.faults[i].healed = true;
                in.exceptions(std::ios_base::goodbit);
                in.get();
                in.clear();
                in.exceptions(mask);
                idle = 0;
            }
            done = at_end && pick(3);
        }
    }
    static void task(void* p) { static_cast<Reader*>(p)->run(); }
};

void readers(bool faults) {
    if (chance(1, 5)) {   // other code uses stream indices too
        count(F_INDEX_PRESSURE);
        for (uint32_t n = 1 + pick(12); n > 0; --n) (void)std::ios_base::xalloc();
    }
    uint32_t k = faults ? 1 + pick(2) : 1 + pick(4);
    std::vector<Reader<char>*> n;
    std::vector<Reader<wchar_t>*> w;
    for (uint32_t i = 0; i < k; ++i) {
        if (pick(3)) {
            n.push_back(new Reader<char>(int(i), faults));
            n.back()->setup();
            sched::spawn(&Reader<char>::task, n.back());
        } else {
            w.push_back(new Reader<wchar_t>(int(i), faults));
            w.back()->setup();
            sched::spawn(&Reader<wchar_t>::task, w.back());
        }
    }
    sched::run(20000);
    for (size_t i = 0; i < n.size(); ++i) delete n[i];
    for (size_t i = 0; i < w.size(); ++i) delete w[i];
}
} // namespace

SIM_SCENARIO(C01) { readers(false); }
SIM_SCENARIO(C02) { readers(true); }

namespace {
struct SelfTest {
    const Token& t;
    Base b;
    template <class T> void go() {
        Val v;
        bool s = parse_ref<T>(t.text, true, b, v);
        if (s == t.needs_non_strict) fail("selftest", kind_names[Tr<T>::kind], "[%s] strict: %d", t.text.c_str(), int(s));
        bool n = parse_ref<T>(t.text, false, b, v);
        if (!n || !same(v, t.v)) fail("selftest", kind_names[Tr<T>::kind], "[%s] is %s, not %s", t.text.c_str(), n ? desc(v).s : "rejected", desc(t.v).s);
        T o = Tr<T>::make(t.v);
        if (!same(read_val(o), t.v)) fail("selftest", kind_names[Tr<T>::kind], "make/read of %s", desc(t.v).s);
        static const ip::format fs[] = { ip::format::full, ip::format::compact, ip::format::compressed };
        for (int f = 0; f < 3; ++f) {
            std::string x = Str2<T>::go(o, fs[f], b), y = render_canonical(t.v, fs[f], b, false);
            if (x != y) fail("selftest", kind_names[Tr<T>::kind], "form %d of %s: %s, expected %s", f, desc(t.v).s, x.c_str(), y.c_str());
        }
    }
};
}
// the text generator agrees with the parser (self check of the harness against the library)
SIM_SCENARIO(selftest) {
    for (int i = 0; i < 60; ++i) {
        int kind = int(pick(NKINDS));
        Base b = kind == U128 ? Base(pick(3)) : DEC;
        Token t = gen_token(kind, b, false, true);
        SelfTest g = { t, b };
        dispatch(kind, g);
    }
}
} // namespace sim
