// Values of every type of the library: generation, construction, reading back, independent text.
#ifndef SIM_VALS_HPP
#define SIM_VALS_HPP
#include "std_all.hpp"
#include "rt.hpp"
#include <cstdio>
#include <cstring>
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <string>
#include <ipaddress/ipaddress.hpp>

namespace ip = ipaddress;

namespace sim {

enum Kind { V4, V6, IP, N4, N6, IPN, U128, NKINDS };
extern const char* const kind_names[NKINDS];
enum { SCOPE_MAX = IPADDRESS_IPV6_SCOPE_MAX_LENGTH };   // the configured longest scope id
inline bool is_net(int k) { return k == N4 || k == N6 || k == IPN; }
inline bool is_addr(int k) { return k == V4 || k == V6 || k == IP; }

// The plain model of a value. Addresses and networks: `six` tells the version, the first 4 or all 16
// bytes are used; uint128_t: 16 bytes, most significant first.
struct Val {
    int kind;
    bool six;
    unsigned char b[16];
    char scope[SCOPE_MAX + 1];
    int slen;
    int plen;
    Val() : kind(V4), six(false), slen(0), plen(0) { memset(b, 0, sizeof b); memset(scope, 0, sizeof scope); }
    int size() const { return kind == U128 || six ? 16 : 4; }
    int maxp() const { return six ? 128 : 32; }
};
bool same(const Val& a, const Val& b);
struct Text {
    char s[200];
};
Text desc(const Val& v);
uint64_t hash_val(const Val& v);

Val gen_val(int kind);                 // any value of the kind
Val gen_any();
Val near(const Val& v);                // a slightly different value of the same kind
void gen_scope(Val& v, int len);       // valid scope id of the given length
void mask_host(Val& v);
Val addr_of(const Val& v);             // the address part, as V4 or V6
void set_bit(Val& v, int bit, bool on);
bool get_bit(const Val& v, int bit);

// ---- objects -------------------------------------------------------------------------------
ip::ipv4_address mk4(const Val& v);
ip::ipv6_address mk6(const Val& v);
ip::ipv4_network mkn4(const Val& v);
ip::ipv6_network mkn6(const Val& v);
void rd(const ip::ipv4_address& a, Val& v);
void rd(const ip::ipv6_address& a, Val& v);
void rd(const ip::ip_address& a, Val& v);
void rd(const ip::ipv4_network& a, Val& v);
void rd(const ip::ipv6_network& a, Val& v);
void rd(const ip::ip_network& a, Val& v);
void rd(const ip::uint128_t& a, Val& v);

template <class T> struct Tr;
template <> struct Tr<ip::ipv4_address> { static constexpr int kind = V4; static ip::ipv4_address make(const Val& v) { return mk4(v); } };
template <> struct Tr<ip::ipv6_address> { static constexpr int kind = V6; static ip::ipv6_address make(const Val& v) { return mk6(v); } };
template <> struct Tr<ip::ip_address> {
    static constexpr int kind = IP;
    static ip::ip_address make(const Val& v) { return v.six ? ip::ip_address(mk6(v)) : ip::ip_address(mk4(v)); }
};
template <> struct Tr<ip::ipv4_network> { static constexpr int kind = N4; static ip::ipv4_network make(const Val& v) { return mkn4(v); } };
template <> struct Tr<ip::ipv6_network> { static constexpr int kind = N6; static ip::ipv6_network make(const Val& v) { return mkn6(v); } };
template <> struct Tr<ip::ip_network> {
    static constexpr int kind = IPN;
    static ip::ip_network make(const Val& v) { return v.six ? ip::ip_network(mkn6(v)) : ip::ip_network(mkn4(v)); }
};
template <> struct Tr<ip::uint128_t> {
    static constexpr int kind = U128;
    static ip::uint128_t make(const Val& v) {
        uint64_t h = 0, l = 0;
        for (int i = 0; i < 8; ++i) { h = h << 8 | v.b[i]; l = l << 8 | v.b[8 + i]; }
        return ip::uint128_t(h, l);
    }
};
template <class T> Val read_val(const T& t) { Val v; rd(t, v); return v; }

// f.template go<T>() for the type of the kind
template <class F> void dispatch(int kind, F& f) {
    switch (kind) {
        case V4: f.template go<ip::ipv4_address>(); break;
        case V6: f.template go<ip::ipv6_address>(); break;
        case IP: f.template go<ip::ip_address>(); break;
        case N4: f.template go<ip::ipv4_network>(); break;
        case N6: f.template go<ip::ipv6_network>(); break;
        case IPN: f.template go<ip::ip_network>(); break;
        default: f.template go<ip::uint128_t>(); break;
    }
}

// The value that parsing gives, by the library's own parser for std::basic_string (the reference of
// the statements about streams). strict only matters to networks, base only to uint128_t.
enum Base { DEC, OCT, HEX };
inline Base base_of(std::ios_base::fmtflags f) { return f & std::ios_base::hex ? HEX : f & std::ios_base::oct ? OCT : DEC; }
inline ip::uint128_t::format base_fmt(Base b) {
    return b == HEX ? ip::uint128_t::format::hexadecimal : b == OCT ? ip::uint128_t::format::octal : ip::uint128_t::format::decimal;
}
template <class T, bool Net> struct Parse;
template <class T> struct Parse<T, false> {
    template <class S> static bool go(const S& s, bool, Base, T& out) {
        ip::error_code c = ip::error_code::no_error;
        out = T::parse(s, c);
        return c == ip::error_code::no_error;
    }
};
template <class T> struct Parse<T, true> {
    template <class S> static bool go(const S& s, bool strict, Base, T& out) {
        ip::error_code c = ip::error_code::no_error;
        out = T::parse(s, c, strict);
        return c == ip::error_code::no_error;
    }
};
template <> struct Parse<ip::uint128_t, false> {
    template <class S> static bool go(const S& s, bool, Base b, ip::uint128_t& out) {
        ip::optional<ip::uint128_t> r = ip::uint128_t::from_string(s, base_fmt(b));
        if (!r) return false;
        out = r.value();
        return true;
    }
};
template <class T, class S> bool parse_ref(const S& s, bool strict, Base b, Val& out) {
    T t{};
    if (!Parse<T, Tr<T>::kind == N4 || Tr<T>::kind == N6 || Tr<T>::kind == IPN>::go(s, strict, b, t)) return false;
    out = read_val(t);
    return true;
}
template <class T, bool Net> struct Str;
template <class T> struct Str2 { static std::string go(const T& t, ip::format f, Base) { return t.to_string(f); } };
template <> struct Str2<ip::uint128_t> { static std::string go(const ip::uint128_t& t, ip::format, Base b) { return t.to_string(base_fmt(b)); } };

// ---- independent text ----------------------------------------------------------------------
// A token whose value is known by construction. It uses only the documented syntax. host: number of
// host bits set (the token needs non_strict then, and v is the masked value).
struct Token {
    std::string text;
    Val v;
    bool valid;          // false: must be rejected (when `strict` as recorded)
    bool needs_non_strict;
    Token() : valid(true), needs_non_strict(false) {}
};
std::string render_v4(const unsigned char* b);
std::string render_v6(const Val& v, int style);
std::string render_canonical(const Val& v, ip::format f, Base base, bool upper);   // what the library documents
Token gen_token(int kind, Base base, bool allow_invalid, bool allow_host_bits);
std::string gen_garbage(int kind);     // some token that is not in the syntax

template <class C> std::basic_string<C> widen(const std::string& s) {
    std::basic_string<C> r;
    r.reserve(s.size());
    for (size_t i = 0; i < s.size(); ++i) r.push_back(C((unsigned char)s[i]));
    return r;
}
template <class C> std::string narrow(const std::basic_string<C>& s) {   // for messages
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned long c = (unsigned long)s[i];
        if (sizeof(C) == 1) c &= 0xff;
        char buf[16];
        if (c >= 0x20 && c < 0x7f && c != '\\') r.push_back(char(c));
        else { snprintf(buf, sizeof buf, "\\x%lx", c); r += buf; }
    }
    return r;
}
} // namespace sim
#endif
