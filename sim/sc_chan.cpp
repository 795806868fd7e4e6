// C13: programs that exchange values as text over a channel, a log file, or a duplex connection
// that split, delay, stall, break, lose and tear, and that crash and restart themselves.
#include "streams.hpp"
#include <list>
#include <vector>

namespace sim {
namespace {

const size_t NONE = ~size_t(0);

// One direction of a connection: what the writing end handed over, how much of it arrived so far.
template <class C> struct Wire {
    typedef std::basic_string<C> str;
    str bytes;            // carried (handed to the medium)
    size_t visible;       // arrived at the reading end
    size_t window;        // bytes under way at most
    size_t cut;           // the connection breaks when this many bytes were handed over
    size_t lost_from;     // bytes that were under way when it broke and never arrive
    bool shut;            // the writing end is closed or the connection is broken
    bool broken;
    bool reader_gone;
    unsigned max_latency, max_chunk;
    Wire() : visible(0), window(64), cut(NONE), lost_from(NONE), shut(false), broken(false), reader_gone(false), max_latency(20), max_chunk(8) {}
    size_t carried() const { return lost_from < bytes.size() ? lost_from : bytes.size(); }
    void snap() {          // the connection breaks now
        if (broken) return;
        broken = shut = true;
        size_t flight = bytes.size() - visible;
        lost_from = bytes.size() - (flight ? pick(uint32_t(flight + 1)) : 0);
        count(F_DISCONNECT);
        ev("  the connection breaks after %zu bytes, %zu arrive", bytes.size(), lost_from);
    }
};

enum ErrStyle { ERR_SHORT, ERR_THROW };

// The stream buffer a program has on its end.
template <class C> struct End : std::basic_streambuf<C> {
    typedef std::basic_streambuf<C> base;
    typedef typename base::int_type int_type;
    typedef std::char_traits<C> tr;
    Wire<C>* in;
    Wire<C>* out;
    size_t pos;                 // read from `in` so far (into the buffer)
    size_t die_read, die_write; // this process crashes at this byte
    bool dead;
    int style, th;
    unsigned cap;
    End() : in(nullptr), out(nullptr), pos(0), die_read(NONE), die_write(NONE), dead(false), style(ERR_SHORT), th(0), cap(0) { style = int(pick(2)); th = int(pick(NTHROW)); }
    void set_buffer(unsigned n) { cap = n > 48 ? 48 : n; if (cap) this->setp(obuf, obuf + cap); else this->setp(nullptr, nullptr); }
    size_t consumed() const { return pos - size_t(this->egptr() - this->gptr()); }
    size_t written() const { return out->bytes.size() + size_t(this->pptr() - this->pbase()); }
    static bool readable(void* p) { End* e = static_cast<End*>(p); return e->dead || e->in->visible > e->pos || e->in->bytes.size() > e->in->visible || e->in->shut; }
    static bool writable(void* p) { End* e = static_cast<End*>(p); return e->out->broken || e->out->reader_gone || e->out->bytes.size() - e->out->visible < e->out->window; }
protected:
    int_type underflow() override {
        if (this->gptr() < this->egptr()) return tr::to_int_type(*this->gptr());
        Pause p;
        if (dead) return tr::eof();
        for (;;) {
            if (in->visible > pos) break;
            size_t c = in->carried();
            if (in->visible < c) {          // something is under way: it arrives, in pieces, after a while
                if (in->max_latency && pick(3)) { count(F_DELAY); sched::sleep(1 + pick(in->max_latency)); }
                c = in->carried();
                if (c <= in->visible) continue;
                size_t k = in->max_chunk ? 1 + pick(in->max_chunk) : c;
                if (k < c - in->visible) count(F_CHUNK_SPLIT); else k = c - in->visible;
                in->visible += k;
                break;
            }
            if (in->shut) { count(F_SRC_EOF); return tr::eof(); }
            sched::wait(&End::readable, this, "data to arrive");
        }
        size_t n = in->visible - pos;
        if (die_read != NONE && pos + n > die_read) {
            if (pos >= die_read) { dead = true; count(F_READER_CRASH); if (style == ERR_THROW) throw_kind(th); return tr::eof(); }
            n = die_read - pos;
        }
        if (n > sizeof ibuf / sizeof *ibuf) n = sizeof ibuf / sizeof *ibuf;
        for (size_t i = 0; i < sizeof ibuf / sizeof *ibuf; ++i) ibuf[i] = C('7');
        size_t room = sizeof ibuf / sizeof *ibuf - n, off = room ? pos % (room + 1) : 0;
        for (size_t i = 0; i < n; ++i) ibuf[off + i] = in->bytes[pos + i];
        this->setg(ibuf + off, ibuf + off, ibuf + off + n);
        pos += n;
        return tr::to_int_type(*this->gptr());
    }
    bool put(const C* s, size_t n, size_t& done) {
        done = 0;
        while (n) {
            if (dead || out->broken) return false;
            if (out->reader_gone) { out->snap(); return false; }
            if (!writable(this)) { count(F_STALL); sched::wait(&End::writable, this, "room in the channel"); continue; }
            size_t m = out->window - (out->bytes.size() - out->visible);
            if (m > n) m = n;
            if (m > 1) { size_t k = 1 + pick(uint32_t(m)); if (k < m) { m = k; count(F_SHORT_WRITE); } }
            if (out->cut != NONE && out->bytes.size() + m >= out->cut) m = out->cut - out->bytes.size();
            bool die = die_write != NONE && out->bytes.size() + m >= die_write;
            if (die) m = die_write > out->bytes.size() ? die_write - out->bytes.size() : 0;
            out->bytes.append(s, m);
            s += m; n -= m; done += m;
            if (die) { dead = true; count(F_WRITER_CRASH); out->snap(); return false; }
            if (out->cut != NONE && out->bytes.size() >= out->cut) { out->snap(); return false; }
            if (n && pick(3) == 0) sched::yield();
        }
        return true;
    }
    bool drain() {
        size_t n = size_t(this->pptr() - this->pbase()), w;
        if (!n) return true;
        bool ok = put(this->pbase(), n, w);
        tr::move(obuf, obuf + w, n - w);
        this->setp(obuf, obuf + cap);
        this->pbump(int(n - w));
        return ok;
    }
    int_type overflow(int_type c) override {
        Pause p;
        bool ok;
        if (cap) {
            ok = drain();
            if (ok && !tr::eq_int_type(c, tr::eof())) { *this->pptr() = tr::to_char_type(c); this->pbump(1); }
        } else if (tr::eq_int_type(c, tr::eof())) return tr::not_eof(c);
        else { C x = tr::to_char_type(c); size_t w; ok = put(&x, 1, w); if (!ok && w == 1) ok = true; }
        if (ok) return tr::not_eof(c);
        if (style == ERR_THROW) throw_kind(th);
        return tr::eof();
    }
    std::streamsize xsputn(const C* s, std::streamsize n) override {
        if (cap) return base::xsputn(s, n);
        Pause p;
        size_t w;
        bool ok = put(s, size_t(n), w);
        if (!ok && w < size_t(n) && style == ERR_THROW) throw_kind(th);
        return std::streamsize(w);
    }
    int sync() override {
        Pause p;
        return !cap || drain() ? 0 : -1;
    }
private:
    C ibuf[48], obuf[48];
};

struct Rec {
    Val v;
    int kind, rkind;          // written as, read as
    int form;                 // -1: none given
    Base base;
    bool upper;
    int width, adj;
    int how_w, how_r;         // directly, over strings
    int rule;                 // reader: 0 none, 1 strict, 2 non_strict
    std::string sep;
};

template <class T> struct Txt { static std::string go(const T& t, const Rec& r) { return t.to_string(r.form == 0 ? ip::format::full : r.form == 1 ? ip::format::compact : ip::format::compressed); } };
template <> struct Txt<ip::uint128_t> { static std::string go(const ip::uint128_t& t, const Rec& r) { return t.to_string(base_fmt(r.base)); } };

template <class C> struct Proto {
    typedef std::basic_string<C> str;
    // ---- writing: false when the stream is not good afterwards
    struct W {
        std::basic_ostream<C>& os;
        const Rec& r;
        int amode;
        uint32_t ak, fired;
        template <class S> void shape(S& s) {
            s.setf(r.base == HEX ? std::ios_base::hex : r.base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
            if (r.upper) s.setf(std::ios_base::uppercase); else s.unsetf(std::ios_base::uppercase);
            static const std::ios_base::fmtflags adj[] = { std::ios_base::fmtflags(0), std::ios_base::left, std::ios_base::right, std::ios_base::internal };
            s.setf(adj[r.adj], std::ios_base::adjustfield);
            s.width(r.width);
        }
        template <class S> void manip(S& s) {
            if (r.form == 0) s << ip::full; else if (r.form == 1) s << ip::compact; else if (r.form == 2) s << ip::compressed;
        }
        template <class T> void go() {
            T obj = Tr<T>::make(r.v);
            alloc_begin(amode, ak);
            if (r.how_w == 1) {
                std::basic_ostringstream<C> t;
                shape(t);
                manip(t);
                try { Window w; t << obj; } catch (const std::bad_alloc&) { t.setstate(std::ios_base::badbit); }
                fired = alloc_plan().fired;
                alloc_end();
                if (t.good()) { os.width(0); os << t.str(); }
                else { if (!fired) fail("write", kind_names[r.kind], "a string stream is %s after << %s", state_str(t.rdstate()), desc(r.v).s); os.setstate(std::ios_base::failbit); }
            } else if (r.how_w == 2) {
                bool ok = true;
                std::string s;
                try { Window w; s = Txt<T>::go(obj, r); } catch (const std::bad_alloc&) { ok = false; }
                fired = alloc_plan().fired;
                alloc_end();
                if (ok) { os.width(0); os << widen<C>(s); } else { if (!fired) fail("write", kind_names[r.kind], "bad_alloc with memory"); os.setstate(std::ios_base::failbit); }
            } else {
                shape(os);
                manip(os);
                try { Window w; os << obj; }
                catch (const std::bad_alloc&) { if (!alloc_plan().fired) fail("write", kind_names[r.kind], "bad_alloc with memory"); os.setstate(std::ios_base::badbit); }
                fired = alloc_plan().fired;
                alloc_end();
            }
            // the manipulator was for this value
        }
    };
    // ---- reading
    struct R {
        std::basic_istream<C>& is;
        const Rec& r;
        int amode;
        uint32_t ak, fired;
        Val got;
        template <class T> void go() {
            is.setf(r.base == HEX ? std::ios_base::hex : r.base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
            T obj = Tr<T>::make(gen_val(r.rkind));
            if (r.how_r == 1) {          // a word, then parse
                str s;
                is >> s;
                if (is.fail()) return;
                bool ok = parse_ref<T>(s, true, r.base, got);
                if (!ok) is.setstate(std::ios_base::failbit);
            } else if (r.how_r == 2) {   // a word, then a string stream
                str s;
                is >> s;
                if (is.fail()) return;
                std::basic_istringstream<C> t(s);
                t.flags(is.flags());
                if (r.rule == 1) t >> ip::strict; else if (r.rule == 2) t >> ip::non_strict;
                t >> obj;
                if (t.fail()) is.setstate(std::ios_base::failbit); else got = read_val(obj);
            } else {
                if (r.rule == 1) is >> ip::strict; else if (r.rule == 2) is >> ip::non_strict;
                alloc_begin(amode, ak);
                try { Window w; is >> obj; }
                catch (const std::bad_alloc&) { if (!alloc_plan().fired) fail("read", kind_names[r.rkind], "bad_alloc with memory"); is.setstate(std::ios_base::badbit); }
                fired = alloc_plan().fired;
                alloc_end();
                if (!is.fail()) got = read_val(obj);
            }
        }
    };
    static Val as_read(const Rec& r) { Val v = r.v; v.kind = r.rkind; return v; }

    // writes one record and its separator
    static bool write(End<C>& e, std::basic_ostream<C>& os, const Rec& r, uint32_t i, bool afault, const char* who) {
        W w = { os, r, 0, 0, 0 };
        if (afault && chance(1, 8)) { w.amode = 1 + int(pick(2)); w.ak = pick(3); }
        size_t at = e.written();
        set_where("%s.channel.write", kind_names[r.kind]);
        bool up0 = !e.dead && !e.out->broken && !e.out->reader_gone;
        dispatch(r.kind, w);
        os.width(0);
        if (os.good()) os << widen<C>(r.sep);
        count(C_OPS);
        ev("%s writes %u: %s at %zu..%zu %s%s", who, i, desc(r.v).s, at, e.written(), state_str(os.rdstate()), w.fired ? " allocation failed" : "");
        bool down = e.dead || e.out->broken || e.out->reader_gone;
        if (!os.good() && !w.fired && up0 && !down) fail("write", kind_names[r.kind], "writing %s gave %s although the channel works", desc(r.v).s, state_str(os.rdstate()));
        if (os.good() && down && (e.dead || e.out->broken) && e.written() == at) fail("silent", kind_names[r.kind], "writing %s to a broken channel is reported as success", desc(r.v).s);
        sig(mix(mix(hash_val(r.v), uint64_t(r.kind * 8 + r.form + 1) * 64 + uint64_t(r.how_w * 16 + r.adj * 2 + r.upper)), uint64_t(os.rdstate()) * 1024 + uint64_t(r.width)));
        return os.good();
    }
    enum Outcome { GOT, NOT_YET, FAULTED };
    // reads one record: complete only when white space follows. sent: the end of record i is known to
    // lie at byte `end` of this stream (NONE: was not written completely)
    static Outcome read(End<C>& e, std::basic_istream<C>& is, const Rec& r, uint32_t i, size_t end, bool afault, const char* who) {
        R x = { is, r, 0, 0, 0, Val() };
        if (afault && r.how_r == 0 && chance(1, 8)) { x.amode = 1 + int(pick(2)); x.ak = pick(3); }
        set_where("%s.channel.read", kind_names[r.rkind]);
        size_t p0 = e.consumed();
        dispatch(r.rkind, x);
        std::ios_base::iostate st = is.rdstate();
        count(C_OPS);
        count(C_TOKENS);
        bool complete = false;
        if (is.good()) {
            typename std::char_traits<C>::int_type c = is.peek();
            complete = is.good() && is_ws((unsigned long)std::char_traits<C>::to_char_type(c));
            if (is.good() && !complete) fail("position", kind_names[r.rkind], "after reading %s the next character is 0x%lx, no separator", desc(x.got).s, (unsigned long)c);
        }
        ev("%s reads %u: %s at %zu..%zu %s%s%s", who, i, is.fail() && st != std::ios_base::eofbit ? "nothing" : desc(x.got).s, p0, e.consumed(), state_str(st), complete ? "" : " (incomplete)", x.fired ? " allocation failed" : "");
        sig(mix(mix(hash_val(r.v), uint64_t(st) * 4 + complete), uint64_t(r.rkind * 8 + r.how_r) * 16 + x.fired));
        count(C_CHECKS);
        if (complete) {
            Val want = as_read(r);
            if (!same(x.got, want)) fail("value", kind_names[r.rkind], "value %u was written as %s and read as %s", i, desc(want).s, desc(x.got).s);
            return GOT;
        }
        // what arrived in full must have been read
        if (!x.fired && !e.dead && end != NONE && end <= e.in->carried() && !(e.in->lost_from < end))
            fail("lost", kind_names[r.rkind], "value %u (%s) arrived completely and was not read: state %s", i, desc(r.v).s, state_str(st));
        return x.fired ? FAULTED : NOT_YET;
    }
};

Rec gen_rec() {
    Rec r;
    r.kind = r.rkind = int(pick(NKINDS));
    r.v = gen_val(r.kind);
    if (is_net(r.kind)) mask_host(r.v);
    if (pick(3) == 0) {        // another type that holds the same value
        if (r.kind == V4 || r.kind == V6) r.rkind = IP;
        else if (r.kind == IP) r.rkind = r.v.six ? V6 : V4;
        else if (r.kind == N4 || r.kind == N6) r.rkind = IPN;
        else if (r.kind == IPN) r.rkind = r.v.six ? N6 : N4;
    }
    r.form = pick(2) ? int(pick(3)) : -1;
    r.base = r.kind == U128 ? Base(pick(3)) : DEC;
    r.upper = pick(4) == 0;
    r.width = pick(4) == 0 ? int(1 + pick(60)) : 0;
    r.adj = int(pick(4));
    r.how_w = pick(4) ? 0 : 1 + int(pick(2));
    r.how_r = pick(4) ? 0 : 1 + int(pick(2));
    r.rule = is_net(r.kind) && pick(3) == 0 ? 1 + int(pick(2)) : 0;
    r.sep = pick(3) ? "\n" : gen_ws(true);
    return r;
}

struct LinkBase {
    virtual ~LinkBase() {}
    virtual void spawn() = 0;
    virtual void check() = 0;
};

// ---- a channel that breaks; the reading end tells, on connecting, how many values it has -----------
template <class C> struct Pipe : LinkBase {
    struct Conn {
        Wire<C> w;
        std::vector<size_t> ends;    // stream offset after each record of this connection
        uint32_t first;
        bool receiver_done;
        Conn() : first(0), receiver_done(false) {}
    };
    int id;
    std::vector<Rec> recs;
    std::vector<Val> received;       // durable at the receiver
    std::list<Conn> conns;
    Conn* offered;
    bool listening, finished, afault;
    uint32_t faults;
    char wn[24], rn[24];
    explicit Pipe(int i) : id(i), offered(nullptr), listening(false), finished(false), afault(false), faults(0) {
        uint32_t n = 2 + pick(10);
        for (uint32_t k = 0; k < n; ++k) recs.push_back(gen_rec());
        faults = pick(6);
        afault = pick(3) == 0;
        snprintf(wn, sizeof wn, "sender %d", i);
        snprintf(rn, sizeof rn, "receiver %d", i);
    }
    static bool is_listening(void* p) { return static_cast<Pipe*>(p)->listening; }
    static bool is_offered(void* p) { Pipe* q = static_cast<Pipe*>(p); return q->offered || q->finished; }
    static bool conn_done(void* p) { return static_cast<Conn*>(p)->receiver_done; }
    void sender() {
        for (;;) {
            sched::wait(&Pipe::is_listening, this, "the receiver");
            if (received.size() == recs.size()) { finished = true; return; }
            conns.push_back(Conn());
            Conn& c = conns.back();
            c.first = uint32_t(received.size());
            End<C> e;
            e.out = &c.w;
            c.w.window = 1 + pick(80);
            c.w.max_chunk = pick(4) ? 1 + pick(20) : 0;
            c.w.max_latency = pick(40);
            e.set_buffer(pick(2) ? 0 : 1 + pick(40));
            if (faults && pick(4)) {
                --faults;
                size_t at = pick(3) ? pick(60) : pick(400);
                if (pick(2)) c.w.cut = at; else e.die_write = at;
            }
            ev("%s connects at value %u (buffer %u, window %zu%s)", wn, c.first, e.cap, c.w.window, sizeof(C) > 1 ? ", wide" : "");
            if (c.first) count(C_RECOVERIES);
            listening = false;
            offered = &c;
            std::basic_ostream<C> os(&e);
            bool ok = true;
            for (uint32_t i = c.first; i < recs.size() && ok; ++i) {
                ok = Proto<C>::write(e, os, recs[i], i, afault && faults, wn);
                if (!ok && afault && faults) --faults;
                if (ok) c.ends.push_back(e.written());
                if (ok && pick(3) == 0) { os.flush(); ok = os.good(); }
                if (pick(3) == 0) sched::yield();
                if (pick(8) == 0) sched::sleep(1 + pick(30));
            }
            if (ok) os.flush();
            if (e.dead) ev("%s crashes", wn);
            c.w.shut = true;      // what is still in the stream's buffer is gone
            sched::wait(&Pipe::conn_done, &c, "the receiver to finish");
        }
    }
    void receiver() {
        while (received.size() < recs.size() || !finished) {
            offered = nullptr;
            listening = true;
            sched::wait(&Pipe::is_offered, this, "a connection");
            if (finished) return;
            Conn& c = *offered;
            End<C> e;
            e.in = &c.w;
            if (faults && pick(4) == 0) { --faults; e.die_read = pick(120); }
            std::basic_istream<C> is(&e);
            uint32_t i = c.first;
            while (i < recs.size()) {
                // the end of the record, if the sender got so far
                typename Proto<C>::Outcome o;
                size_t k = i - c.first;
                o = Proto<C>::read(e, is, recs[i], i, NONE, afault && faults, rn);
                if (o == Proto<C>::GOT) {
                    received.push_back(Proto<C>::as_read(recs[i]));
                    if (e.consumed() > (k < c.ends.size() ? c.ends[k] : NONE)) fail("position", kind_names[recs[i].rkind], "value %u ends at %zu and %zu characters were consumed", i, c.ends[k], e.consumed());
                    ++i;
                    if (pick(3) == 0) sched::yield();
                } else {
                    // the end of the record, if the sender got so far
                    if (o == Proto<C>::NOT_YET && !e.dead && c.w.shut && k < c.ends.size() && c.ends[k] <= c.w.carried())
                        fail("lost", kind_names[recs[i].rkind], "value %u (%s) arrived completely and was not read: state %s", i, desc(recs[i].v).s, state_str(is.rdstate()));
                    if (o == Proto<C>::NOT_YET && !e.dead && !c.w.shut)
                        fail("lost", kind_names[recs[i].rkind], "reading value %u (%s) failed on a working channel: state %s", i, desc(recs[i].v).s, state_str(is.rdstate()));
                    if (is.bad() && !e.dead && o == Proto<C>::NOT_YET) fail("read", kind_names[recs[i].rkind], "state %s without a fault", state_str(is.rdstate()));
                    if (o == Proto<C>::FAULTED && faults) --faults;
                    break;
                }
            }
            if (e.dead) ev("%s crashes", rn);
            c.w.reader_gone = true;
            c.receiver_done = true;
            if (i < recs.size()) count(F_CRASH);
        }
    }
    static void st(void* p) { static_cast<Pipe*>(p)->sender(); }
    static void rt(void* p) { static_cast<Pipe*>(p)->receiver(); }
    void spawn() override { sched::spawn(&Pipe::st, this); sched::spawn(&Pipe::rt, this); }
    void check() override {
        if (received.size() != recs.size()) fail("lost", "pipe", "%zu of %zu values arrived", received.size(), recs.size());
        count(C_SUCCESS, recs.size());
    }
};

// ---- an append-only file: written back late, torn by power loss, recovered by reading it -----------
template <class C> struct Log : LinkBase {
    typedef std::basic_string<C> str;
    int id;
    std::vector<Rec> recs;
    Wire<C> file;                 // bytes: page cache; visible: what the readers may see (committed)
    size_t durable;               // survives power loss
    size_t committed;             // end of the last record that was synced
    uint32_t committed_n;
    std::vector<size_t> ends;
    uint32_t faults;
    bool writer_done, afault;
    int power;                    // power losses so far
    struct RState { Log* l; int id; uint32_t n; size_t off; bool done; char name[32]; };
    RState rd[2];
    int nr;
    char wn[24];
    explicit Log(int i) : id(i), durable(0), committed(0), committed_n(0), faults(pick(6)), writer_done(false), afault(pick(3) == 0), power(0), nr(1 + int(pick(2))) {
        uint32_t n = 2 + pick(10);
        for (uint32_t k = 0; k < n; ++k) recs.push_back(gen_rec());
        for (int k = 0; k < nr; ++k) { rd[k].l = this; rd[k].id = k; rd[k].n = 0; rd[k].off = 0; rd[k].done = false; snprintf(rd[k].name, sizeof rd[k].name, "tailer %d.%d", i, k); }
        snprintf(wn, sizeof wn, "logger %d", i);
    }
    // reads the file back: how many records are complete, and where the last one ends
    uint32_t recover(size_t& end) {
        Wire<C> snap;
        snap.bytes = file.bytes;
        snap.visible = 0;
        snap.shut = true;
        snap.max_chunk = pick(2) ? 1 + pick(30) : 0;
        snap.max_latency = 0;
        End<C> e;
        e.in = &snap;
        std::basic_istream<C> is(&e);
        uint32_t n = 0;
        end = 0;
        while (n < recs.size()) {
            if (Proto<C>::read(e, is, recs[n], n, n < ends.size() ? ends[n] : NONE, false, wn) != Proto<C>::GOT) break;
            // padding and separator, as far as they are there
            for (size_t k = 0; k < size_t(recs[n].width) + recs[n].sep.size(); ++k) {
                if (!is.good()) break;
                typename std::char_traits<C>::int_type c = is.peek();
                if (!is.good() || !is_ws((unsigned long)std::char_traits<C>::to_char_type(c))) break;
                is.get();
            }
            is.clear();
            end = e.consumed();
            ++n;
        }
        return n;
    }
    void logger() {
        bool first = true;
        while (committed_n < recs.size()) {
            size_t end = 0;
            uint32_t n = 0;
            if (!first) {
                n = recover(end);
                count(C_RECOVERIES);
                ev("%s recovered %u values (%u were committed), %zu of %zu bytes", wn, n, committed_n, end, file.bytes.size());
                if (n < committed_n) fail("durability", "log", "%u values were committed and only %u were recovered", committed_n, n);
                if (end < committed) end = committed;
                // start over after the last committed record or go on after the recovered ones
                if (pick(2)) { n = committed_n; end = committed; }
                else if (n > 0 && n <= ends.size()) end = ends[n - 1] <= file.bytes.size() ? ends[n - 1] : (n = committed_n, committed);
                file.bytes.resize(end);
                if (durable > end) durable = end;      // the cut is synced
                while (ends.size() < n) ends.push_back(end);   // its separator was torn
                ends.resize(n);
            }
            first = false;
            file.broken = false;
            file.lost_from = NONE;
            file.window = NONE / 2;
            file.cut = NONE;
            End<C> e;
            e.out = &file;
            e.set_buffer(pick(3) ? 1 + pick(46) : 0);
            bool planned = faults && pick(4);
            if (planned) { --faults; e.die_write = file.bytes.size() + (pick(3) ? pick(60) : pick(300)); }
            std::basic_ostream<C> os(&e);
            bool ok = true;
            for (uint32_t i = n; i < recs.size() && ok; ++i) {
                ok = Proto<C>::write(e, os, recs[i], i, afault && faults, wn);
                if (!ok && afault && faults) --faults;
                if (!ok) break;
                ends.push_back(e.written());
                if (pick(3) == 0 || i + 1 == recs.size()) {
                    os.flush();
                    ok = os.good();
                    if (ok) {
                        durable = committed = file.bytes.size();
                        committed_n = i + 1;
                        ev("%s commits %u values, %zu bytes", wn, committed_n, committed);
                    }
                } else if (pick(4) == 0 && file.bytes.size() > durable) durable += pick(uint32_t(file.bytes.size() - durable + 1));   // written back early
                if (pick(3) == 0) sched::yield();
                if (pick(6) == 0) sched::sleep(1 + pick(30));
            }
            if (committed_n < recs.size()) {
                if (!e.dead && !file.broken) file.snap();
                if (pick(2)) {          // power loss: what was not durable survives up to an arbitrary byte
                    ++power;
                    size_t keep = durable + (file.bytes.size() > durable ? pick(uint32_t(file.bytes.size() - durable + 1)) : 0);
                    if (keep < file.bytes.size()) count(F_TORN_WRITE);
                    count(F_CRASH);
                    file.bytes.resize(keep);
                    // what survived may also be overwritten by garbage of the same length: not modelled; text stays a prefix
                    ev("power loss: %zu bytes survive (%zu durable)", keep, durable);
                }
                // records that are not in the file any more
                while (!ends.empty() && ends.back() > file.bytes.size()) ends.pop_back();
                sched::sleep(1 + pick(30));
            }
        }
        writer_done = true;
    }
    struct Tail { Log* l; RState* r; };
    static bool tail_more(void* p) { Tail* t = static_cast<Tail*>(p); return t->l->committed_n > t->r->n || t->l->writer_done; }
    // a tailing program: its position is durable after every value
    void tailer(RState& r) {
        while (r.n < recs.size()) {
            Tail t = { this, &r };
            sched::wait(&Log::tail_more, &t, "committed data");
            if (committed_n <= r.n) fail("lost", "log", "%u of %zu values were read and the log ends at %zu", r.n, recs.size(), committed);
            // a view of the committed bytes
            Wire<C> w;
            w.bytes = file.bytes.substr(r.off, committed - r.off);
            w.shut = true;
            w.max_chunk = pick(2) ? 1 + pick(30) : 0;
            w.max_latency = pick(20);
            size_t base_off = r.off;
            uint32_t avail = committed_n;
            End<C> e;
            e.in = &w;
            if (faults && pick(5) == 0) { --faults; e.die_read = pick(120); }
            std::basic_istream<C> is(&e);
            int pw = power;
            while (r.n < avail) {
                size_t end = r.n < ends.size() && ends[r.n] <= committed ? ends[r.n] - base_off : NONE;
                typename Proto<C>::Outcome o = Proto<C>::read(e, is, recs[r.n], r.n, end, afault && faults, r.name);
                if (o != Proto<C>::GOT) {
                    if (!e.dead && o == Proto<C>::NOT_YET) fail("lost", kind_names[recs[r.n].rkind], "value %u of %u committed ones was not read: state %s", r.n, avail, state_str(is.rdstate()));
                    if (o == Proto<C>::FAULTED && faults) --faults;
                    break;
                }
                ++r.n;
                r.off = base_off + e.consumed();
                if (pick(4) == 0) sched::yield();
                if (power != pw) { ev("%s crashes with the machine", r.name); count(F_READER_CRASH); break; }
            }
            if (e.dead) ev("%s crashes at value %u", r.name, r.n);
            sched::yield();
        }
        r.done = true;
    }
    static void lt(void* p) { static_cast<Log*>(p)->logger(); }
    static void tt(void* p) { RState* r = static_cast<RState*>(p); r->l->tailer(*r); }
    void spawn() override { sched::spawn(&Log::lt, this); for (int k = 0; k < nr; ++k) sched::spawn(&Log::tt, &rd[k]); }
    void check() override {
        for (int k = 0; k < nr; ++k) if (rd[k].n != recs.size()) fail("lost", "log", "%s read %u of %zu values", rd[k].name, rd[k].n, recs.size());
        count(C_SUCCESS, recs.size() * size_t(nr));
    }
};

// ---- request and reply over one stream for both directions -------------------------------------------
template <class C> struct Duplex : LinkBase {
    struct Conn { Wire<C> up, down; uint32_t first; bool server_done, client_done; Conn() : first(0), server_done(false), client_done(false) {} };
    int id;
    std::vector<Rec> recs, echo;   // requests, and the form of the replies
    std::list<Conn> conns;
    Conn* offered;
    uint32_t answered, faults;
    bool listening, finished, afault;
    char cn[24], sn[24];
    explicit Duplex(int i) : id(i), offered(nullptr), answered(0), faults(pick(5)), listening(false), finished(false), afault(pick(3) == 0) {
        uint32_t n = 2 + pick(8);
        for (uint32_t k = 0; k < n; ++k) {
            recs.push_back(gen_rec());
            Rec e = gen_rec();
            Rec x = recs.back();
            // the reply: the value as it was read, in a form of its own
            x.v.kind = x.kind = recs.back().rkind;
            x.rkind = recs.back().kind;
            x.form = e.form;
            x.width = e.width;
            x.adj = e.adj;
            x.how_w = e.how_w;
            x.how_r = e.how_r;
            x.rule = is_net(x.kind) && pick(3) == 0 ? 1 + int(pick(2)) : 0;
            if (x.kind == U128) x.base = Base(pick(3));
            x.sep = e.sep;
            echo.push_back(x);
        }
        snprintf(cn, sizeof cn, "client %d", i);
        snprintf(sn, sizeof sn, "server %d", i);
    }
    static bool is_listening(void* p) { return static_cast<Duplex*>(p)->listening; }
    static bool is_offered(void* p) { Duplex* q = static_cast<Duplex*>(p); return q->offered || q->finished; }
    static bool server_done(void* p) { return static_cast<Conn*>(p)->server_done; }
    static bool client_done(void* p) { return static_cast<Conn*>(p)->client_done; }
    void plan(Conn& c, End<C>& e, Wire<C>& out) {
        out.window = 200;
        out.max_chunk = pick(3) ? 1 + pick(20) : 0;
        out.max_latency = pick(30);
        e.set_buffer(pick(2) ? 0 : 1 + pick(46));
        (void)c;
        if (faults && pick(3)) {
            --faults;
            size_t at = pick(2) ? pick(60) : pick(250);
            switch (pick(3)) { case 0: out.cut = at; break; case 1: e.die_write = at; break; default: e.die_read = at; }
        }
    }
    // both programs: a write that fails or a read that is not complete ends the connection
    void hang_up(Conn& c, End<C>& e, const char* who) {
        if (e.dead) ev("%s crashes", who);
        e.out->shut = true;
        e.in->reader_gone = true;
        (void)c;
    }
    void client() {
        for (;;) {
            sched::wait(&Duplex::is_listening, this, "the server");
            if (answered == recs.size()) { finished = true; return; }
            conns.push_back(Conn());
            Conn& c = conns.back();
            c.first = answered;
            End<C> e;
            e.out = &c.up;
            e.in = &c.down;
            plan(c, e, c.up);
            listening = false;
            offered = &c;
            ev("%s connects at value %u", cn, answered);
            if (answered) count(C_RECOVERIES);
            std::basic_iostream<C> io(&e);
            uint32_t depth = 1 + pick(3), sent = answered, base = answered;
            bool ok = true, af = afault && faults;
            while (answered < recs.size() && ok) {
                while (ok && sent < recs.size() && sent - answered < depth) {
                    // what was asked for a later answer may stand already
                    ok = Proto<C>::write(e, io, recs[sent], sent, af, cn);
                    if (ok) { ++sent; if (sent - answered == depth || sent == recs.size()) { io.flush(); ok = io.good(); } }
                }
                if (!ok) break;
                io.flush();
                if (!io.good()) break;
                typename Proto<C>::Outcome o = Proto<C>::read(e, io, echo[answered], answered, NONE, af, cn);
                ok = o == Proto<C>::GOT;
                if (o == Proto<C>::NOT_YET && !e.dead && !c.down.shut) fail("lost", kind_names[echo[answered].rkind], "reading reply %u failed on a working connection: state %s", answered, state_str(io.rdstate()));
                if (ok) { ++answered; count(C_SUCCESS); }
            }
            (void)base;
            if (!ok && af && faults) --faults;
            hang_up(c, e, cn);
            c.client_done = true;
            sched::wait(&Duplex::server_done, &c, "the server to hang up");
        }
    }
    void server() {
        for (;;) {
            offered = nullptr;
            listening = true;
            sched::wait(&Duplex::is_offered, this, "a connection");
            if (finished) return;
            Conn& c = *offered;
            End<C> e;
            e.in = &c.up;
            e.out = &c.down;
            plan(c, e, c.down);
            std::basic_iostream<C> io(&e);
            bool af = afault && faults;
            for (uint32_t i = c.first; i < recs.size(); ++i) {
                typename Proto<C>::Outcome o = Proto<C>::read(e, io, recs[i], i, NONE, af, sn);
                if (o != Proto<C>::GOT) {
                    if (o == Proto<C>::NOT_YET && !e.dead && !c.up.shut) fail("lost", kind_names[recs[i].rkind], "reading request %u failed on a working connection: state %s", i, state_str(io.rdstate()));
                    break;
                }
                if (!Proto<C>::write(e, io, echo[i], i, af, sn)) break;
                io.flush();
                if (!io.good()) break;
                if (pick(4) == 0) sched::yield();
            }
            hang_up(c, e, sn);
            c.server_done = true;
            sched::wait(&Duplex::client_done, &c, "the client to hang up");
        }
    }
    static void ct(void* p) { static_cast<Duplex*>(p)->client(); }
    static void st(void* p) { static_cast<Duplex*>(p)->server(); }
    void spawn() override { sched::spawn(&Duplex::ct, this); sched::spawn(&Duplex::st, this); }
    void check() override { if (answered != recs.size()) fail("lost", "duplex", "%u of %zu replies", answered, recs.size()); }
};

template <class C> LinkBase* make_link(int i) {
    switch (pick(3)) {
        case 0: return new Pipe<C>(i);
        case 1: return new Log<C>(i);
        default: return new Duplex<C>(i);
    }
}
} // namespace

SIM_SCENARIO(C13) {
    if (chance(1, 6)) {
        count(F_INDEX_PRESSURE);
        for (uint32_t n = 1 + pick(12); n > 0; --n) (void)std::ios_base::xalloc();
    }
    uint32_t k = 1 + pick(2);
    LinkBase* l[2] = {};
    for (uint32_t i = 0; i < k; ++i) { l[i] = pick(3) ? make_link<char>(int(i)) : make_link<wchar_t>(int(i)); l[i]->spawn(); }
    sched::run(60000);
    for (uint32_t i = 0; i < k; ++i) { l[i]->check(); delete l[i]; }
}
} // namespace sim
