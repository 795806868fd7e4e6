// The I/O seam: stream buffers that deliver and accept characters as the simulator decides.
#ifndef SIM_STREAMS_HPP
#define SIM_STREAMS_HPP
#include "vals.hpp"
#include "sched.hpp"

namespace sim {

struct SimIoError : std::runtime_error {
    SimIoError() : std::runtime_error("simulated I/O error") {}
};
enum ThrowKind { TH_IO, TH_ALLOC, TH_FAILURE, TH_PARSE, TH_INT, NTHROW };
[[noreturn]] inline void throw_kind(int k) {
    Pause p;
    switch (k) {
        case TH_ALLOC: throw std::bad_alloc();
        case TH_FAILURE: throw std::ios_base::failure("simulated failure");
        case TH_PARSE: throw ip::parse_error(ip::error_code::empty_address, "raised by the source");
        case TH_INT: throw 42;
        default: throw SimIoError();
    }
}

enum SrcFault { SF_NONE, SF_EOF, SF_THROW };

// Delivers `content` in chunks the simulator chooses.
template <class C> class SimSource : public std::basic_streambuf<C> {
public:
    typedef std::basic_string<C> str;
    typedef typename std::basic_streambuf<C>::int_type int_type;
    typedef std::char_traits<C> tr;
    str content;
    size_t limit;                 // bytes available; beyond is end of source
    struct Fault { size_t at; int kind; int th; bool healed; int hits; };
    std::vector<Fault> faults;    // sorted by position
    unsigned max_chunk;           // 0: whole rest at once
    bool unbuffered, stalls, closed;
    void (*reenter)(void*);
    void* reenter_arg;
    int last_fault;               // index of the fault hit last, -1
    uint64_t refills;

    SimSource() : limit(~size_t(0)), max_chunk(1), unbuffered(false), stalls(false), closed(true), reenter(nullptr), reenter_arg(nullptr), last_fault(-1), refills(0), pos_(0) {}
    size_t delivered() const { return pos_; }
    size_t consumed() const { return pos_ - size_t(this->egptr() - this->gptr()); }
    size_t end() const { return limit < content.size() ? limit : content.size(); }
    // the first fault not healed at or after p
    size_t next_fault(size_t p, int* idx = nullptr) const {
        for (size_t i = 0; i < faults.size(); ++i)
            if (!faults[i].healed && faults[i].at >= p) { if (idx) *idx = int(i); return faults[i].at; }
        if (idx) *idx = -1;
        return ~size_t(0);
    }
    // for sources that grow: blocked until more than pos_ is there or the source is closed
    static bool more(void* p) {
        SimSource* s = static_cast<SimSource*>(p);
        return s->closed || s->end() > s->pos_;
    }
protected:
    int_type underflow() override {
        if (!unbuffered && this->gptr() < this->egptr()) return tr::to_int_type(*this->gptr());
        Pause pause;
        ++refills;
        if (reenter) { count(F_REENTRANT); reenter(reenter_arg); }
        if (stalls && sched::active() && chance(1, 3)) {
            count(F_STALL);
            if (pick(2)) sched::sleep(1 + pick(50)); else sched::yield();
        }
        int idx;
        size_t f = next_fault(pos_, &idx);
        if (f == pos_) {
            Fault& x = faults[size_t(idx)];
            ++x.hits;
            last_fault = idx;
            if (x.kind == SF_EOF) { count(F_SRC_EOF); return tr::eof(); }
            count(F_SRC_THROW);
            throw_kind(x.th);
        }
        if (!closed && end() <= pos_) {
            if (!sched::active()) return tr::eof();
            sched::wait(&SimSource::more, this, "data");
        }
        size_t e = end();
        if (f < e) e = f;
        if (pos_ >= e) return tr::eof();
        if (unbuffered) return tr::to_int_type(content[pos_]);
        size_t n = e - pos_;
        if (max_chunk && n > 1) {
            size_t m = 1 + pick(max_chunk);
            if (m < n) { n = m; count(F_CHUNK_SPLIT); }
        }
        if (n > sizeof buf_ / sizeof *buf_) n = sizeof buf_ / sizeof *buf_;
        // what was in the buffer before is gone; put the data at a place of its own
        size_t room = sizeof buf_ / sizeof *buf_ - n, off = room ? pos_ % (room + 1) : 0;
        for (size_t i = 0; i < sizeof buf_ / sizeof *buf_; ++i) buf_[i] = C('7');
        for (size_t i = 0; i < n; ++i) buf_[off + i] = content[pos_ + i];
        this->setg(buf_ + off, buf_ + off, buf_ + off + n);
        pos_ += n;
        return tr::to_int_type(*this->gptr());
    }
    int_type uflow() override {
        if (!unbuffered) return std::basic_streambuf<C>::uflow();
        int_type c = underflow();
        if (!tr::eq_int_type(c, tr::eof())) ++pos_;
        return c;
    }
    int_type pbackfail(int_type) override { return tr::eof(); }
private:
    size_t pos_;
    C buf_[64];
};

enum SinkFault { KF_NONE, KF_FULL, KF_THROW };

// Accepts characters up to the current limit.
template <class C> class SimSink : public std::basic_streambuf<C> {
public:
    typedef std::basic_string<C> str;
    typedef typename std::basic_streambuf<C>::int_type int_type;
    typedef std::char_traits<C> tr;
    str accepted;
    size_t limit;        // total characters that fit; beyond: the fault
    int fault, th;
    bool sync_fails, hit, short_writes, per_char, stalls;
    void (*reenter)(void*);
    uint64_t syncs;
    SimSink() : limit(~size_t(0)), fault(KF_NONE), th(0), sync_fails(false), hit(false), short_writes(true), per_char(false), stalls(false), reenter(nullptr), syncs(0), cap_(0) { accepted.reserve(1 << 14); }
    void set_buffer(unsigned n) {   // 0: unbuffered
        cap_ = n > 32 ? 32 : n;
        if (cap_) this->setp(buf_, buf_ + cap_); else this->setp(nullptr, nullptr);
    }
    str all() const { return accepted + str(this->pbase(), this->pptr()); }
    size_t total() const { return accepted.size() + size_t(this->pptr() - this->pbase()); }
    void heal() { limit = ~size_t(0); fault = KF_NONE; sync_fails = false; }
protected:
    bool put(const C* s, size_t n) {   // to the medium
        size_t room = limit > accepted.size() ? limit - accepted.size() : 0;
        size_t m = n < room ? n : room;
        accepted.append(s, m);
        return m == n;
    }
    void broken() {
        hit = true;
        if (fault == KF_THROW) { count(F_SINK_THROW); throw_kind(th); }
        count(F_DISK_FULL);
    }
    bool drain() {
        size_t n = size_t(this->pptr() - this->pbase());
        if (n == 0) return true;
        size_t before = accepted.size();
        bool ok = put(this->pbase(), n);
        size_t w = accepted.size() - before;
        // keep what was not written
        std::char_traits<C>::move(buf_, buf_ + w, n - w);
        this->setp(buf_, buf_ + cap_);
        this->pbump(int(n - w));
        return ok;
    }
    int_type overflow(int_type c) override {
        Pause p;
        stall();
        if (cap_) {
            if (!drain()) { broken(); return tr::eof(); }
            if (tr::eq_int_type(c, tr::eof())) return tr::not_eof(c);
            *this->pptr() = tr::to_char_type(c);
            this->pbump(1);
            return c;
        }
        if (tr::eq_int_type(c, tr::eof())) return tr::not_eof(c);
        C x = tr::to_char_type(c);
        if (!put(&x, 1)) { broken(); return tr::eof(); }
        return c;
    }
    std::streamsize xsputn(const C* s, std::streamsize n) override {
        Pause p;
        stall();
        if (cap_ || per_char) return std::basic_streambuf<C>::xsputn(s, n);
        size_t before = accepted.size();
        if (!put(s, size_t(n))) {
            count(F_SHORT_WRITE);
            broken();
        }
        return std::streamsize(accepted.size() - before);
    }
    int sync() override {
        Pause p;
        ++syncs;
        if (cap_ && !drain()) { broken(); return -1; }
        if (sync_fails) { count(F_SYNC_FAIL); hit = true; return -1; }
        return 0;
    }
    void stall() {
        if (reenter) { count(F_REENTRANT); reenter(nullptr); }
        if (stalls && sched::active() && chance(1, 3)) { count(F_STALL); if (pick(2)) sched::sleep(1 + pick(50)); else sched::yield(); }
    }
private:
    unsigned cap_;
    C buf_[32];
};

void reenter_library(void*);
inline const char* state_str(std::ios_base::iostate s) {
    static const char* const n[8] = { "good", "bad", "eof", "eof|bad", "fail", "fail|bad", "fail|eof", "fail|eof|bad" };
    int i = (s & std::ios_base::badbit ? 1 : 0) | (s & std::ios_base::eofbit ? 2 : 0) | (s & std::ios_base::failbit ? 4 : 0);
    return n[i];
}
template <class C> const C* ws_chars();
inline bool is_ws(unsigned long c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string gen_ws(bool at_least_one);
} // namespace sim
#endif
