// Every operation of the library's public interface as a named, repeatable step: prepared arguments
// in, a recorded outcome out. The scenarios decide under which conditions a step runs.
#ifndef SIM_OPS_HPP
#define SIM_OPS_HPP
#include "vals.hpp"
#include "streams.hpp"
#include <locale>

#if defined(__cpp_char8_t) && __cplusplus >= 202002L
#define SIM_CHAR8 1
#endif

namespace sim {
namespace ops {

// One text in every character type. `odd` texts hold code units that are not ASCII.
struct Texts {
    std::string c;
    std::wstring w;
    std::u16string u;
    std::u32string l;
#ifdef SIM_CHAR8
    std::u8string e;
#endif
};
template <class C> struct TextOf;
template <> struct TextOf<char> { static const std::string& get(const Texts& t) { return t.c; } static const char* name() { return "char"; } };
template <> struct TextOf<wchar_t> { static const std::wstring& get(const Texts& t) { return t.w; } static const char* name() { return "wchar_t"; } };
template <> struct TextOf<char16_t> { static const std::u16string& get(const Texts& t) { return t.u; } static const char* name() { return "char16_t"; } };
template <> struct TextOf<char32_t> { static const std::u32string& get(const Texts& t) { return t.l; } static const char* name() { return "char32_t"; } };
#ifdef SIM_CHAR8
template <> struct TextOf<char8_t> { static const std::u8string& get(const Texts& t) { return t.e; } static const char* name() { return "char8_t"; } };
#endif
Texts make_texts(const std::string& s, bool odd);
uint64_t hash_texts(const Texts& t);

struct In {
    int kind;
    Val a, b, c, u, u2;      // c: an address (V4/V6/IP by the kind)
    Val n;                   // a network related to a
    size_t diff, np, plen;
    bool has_np, strict, conforming;
    int fmt;                 // ip::format
    Base base;
    Texts text, scope;
    ip::error_code stale;
    int width, fill;
    unsigned flags;          // bit 0: uppercase, 1: left, 2: internal
    unsigned arr;            // which array size
    int shift;
    In() : kind(V4), diff(1), np(0), plen(0), has_np(false), strict(true), conforming(false), fmt(0), base(DEC), stale(ip::error_code::no_error), width(0), fill(' '), flags(0), arr(0), shift(0) {}
};
In gen_in(int kind);
uint64_t hash_in(const In& in);
Text desc_in(const In& in);

enum Exc { X_NONE, X_BAD_ALLOC, X_PARSE, X_LOGIC, X_ERROR, X_STD, X_OTHER };
extern const char* const exc_names[];

// What an operation gave. Holds no memory of its own.
struct Out {
    uint64_t h;
    uint32_t items;
    int exc, code;
    uint64_t what_h;
    size_t tn, wn;
    char what[400];
    char text[1600];
    // stream operations
    bool stream;
    int state;
    char dir;                 // 'o' or 'i'
    size_t an;
    uint32_t acc[200];        // characters the sink accepted
    uint64_t val_h;           // extracted value
    bool touched;             // extraction changed the object
    Out() { clear(); }
    void clear() { h = 1469598103934665603ULL; items = 0; exc = X_NONE; code = -1; what_h = 0; tn = wn = 0; what[0] = text[0] = 0; stream = false; state = 0; dir = 0; an = 0; val_h = 0; touched = false; }
    void num(const char* tag, uint64_t v);
    void bytes(const char* tag, const void* p, size_t n);
    void val(const char* tag, const Val& v);
    template <class T> void obj(const char* tag, const T& t) { Pause p; val(tag, read_val(t)); }
    template <class C> void str(const char* tag, const std::basic_string<C>& s) {
        Pause p;
        uint64_t x = s.size();
        char buf[120];
        size_t n = 0;
        for (size_t i = 0; i < s.size(); ++i) {
            uint64_t c = uint64_t(s[i]) & (sizeof(C) == 1 ? 0xff : sizeof(C) == 2 ? 0xffff : 0xffffffffu);
            x = mix(x, c);
            if (n < sizeof buf - 1) buf[n++] = c >= 0x20 && c < 0x7f ? char(c) : '?';
        }
        buf[n] = 0;
        num_text(tag, buf, x);
    }
    void num_text(const char* tag, const char* shown, uint64_t x);
};
bool same(const Out& a, const Out& b);                 // the same outcome in every respect
void diff(const Out& a, const Out& b, char* buf, size_t n);
uint64_t hash_out(const Out& o);

enum Flags {
    NT = 1,      // declared not to throw
    AL = 2,      // may allocate
    ST = 4,      // stream insertion or extraction
    NTX = 8,     // declared not to throw when IPADDRESS_NO_EXCEPTIONS is defined
    MUT = 16     // changes its object
};
struct Ctx;
struct Op {
    const char* name;
    const char* sub;          // character type or ""
    int flags;
    void (*run)(const In& in, Out& out, int fill);   // fill: pattern of object storage
    // for objects that several threads use at once: make the objects, use them, check and remove them
    void* (*mk)(const In& in, int fill);
    void (*body)(void*, Out&);
    void (*chk)(void*, const In&);
    void (*rm)(void*);
};
struct Table { const Op* p; size_t n; };
const std::vector<Op>& table(int kind);
// Runs it: exceptions are recorded, arguments checked to be unchanged.
void run(const Op& op, const In& in, Out& out, int fill = 0);
const Op& pick_op(int kind, int flags);                // one with any of the flags
bool is_nt(const Op& op);                              // in this build

void add_v4(std::vector<Op>&);
void add_v6(std::vector<Op>&);
void add_ip(std::vector<Op>&);
void add_n4(std::vector<Op>&);
void add_n6(std::vector<Op>&);
void add_ipn(std::vector<Op>&);
void add_u128(std::vector<Op>&);

void guard(void (*f)(void*, Out&), void* p, Out& out);  // exceptions become part of the outcome
extern void (*g_on_stream)();                           // called by the streams of the operations in the middle of their work
extern std::locale* g_imbue;                           // streams of the operations are given this locale
} // namespace ops
} // namespace sim
#endif
