// Operation templates, instantiated per type in ops_*.cpp.
#ifndef SIM_OPS_IMPL_HPP
#define SIM_OPS_IMPL_HPP
#include "ops.hpp"
#include <new>

namespace sim {
namespace ops {

// an object placed in storage that held something else before
template <class T> struct Box {
    alignas(16) unsigned char raw[sizeof(T) + 16];
    T* p;
    Box(const Val& v, int fill) {
        memset(raw, fill, sizeof raw);
        p = new (raw) T(Tr<T>::make(v));
    }
    T& operator*() { return *p; }
    T* operator->() { return p; }
private:
    Box(const Box&);
};
template <class T> struct AddrT;
template <> struct AddrT<ip::ipv4_address> { typedef ip::ipv4_address type; };
template <> struct AddrT<ip::ipv6_address> { typedef ip::ipv6_address type; };
template <> struct AddrT<ip::ip_address> { typedef ip::ip_address type; };
template <> struct AddrT<ip::ipv4_network> { typedef ip::ipv4_address type; };
template <> struct AddrT<ip::ipv6_network> { typedef ip::ipv6_address type; };
template <> struct AddrT<ip::ip_network> { typedef ip::ip_address type; };
template <> struct AddrT<ip::uint128_t> { typedef ip::uint128_t type; };

template <class T> struct Cx {
    const In& in;
    Box<T> a, b;
    Box<typename AddrT<T>::type> c;
    Box<ip::uint128_t> u, u2;
    Cx(const In& i, int fill) : in(i), a(i.a, fill), b(i.b, fill ^ 0x11), c(i.c, fill), u(i.u, fill), u2(i.u2, fill) {}
private:
    Cx(const Cx&);
};

template <class O, class T> struct Call {
    static void* mk(const In& in, int fill) { return new Cx<T>(in, fill); }
    static void rm(void* p) { delete static_cast<Cx<T>*>(p); }
    static void chk(void* p, const In& in) {
        Cx<T>& x = *static_cast<Cx<T>*>(p);
        if (!sim::same(read_val(*x.a), in.a) || !sim::same(read_val(*x.b), in.b) || !sim::same(read_val(*x.c), in.c))
            fail("argument-changed", kind_names[in.kind], "a shared object was changed: %s became %s", desc(in.a).s, desc(read_val(*x.a)).s);
    }
    static void body(void* p, Out& out) { O::go(*static_cast<Cx<T>*>(p), out); }
    static void run(const In& in, Out& out, int fill) {
        Cx<T> x(in, fill);
        guard(&body, &x, out);
        Pause pause;
        if (!sim::same(read_val(*x.b), in.b) || !sim::same(read_val(*x.c), in.c))
            fail("argument-changed", kind_names[in.kind], "an argument was changed: %s became %s (or %s became %s)", desc(in.b).s, desc(read_val(*x.b)).s, desc(in.c).s, desc(read_val(*x.c)).s);
        if (O::strong && out.exc != X_NONE && !sim::same(read_val(*x.a), in.a))
            fail("argument-changed", kind_names[in.kind], "the object was changed by an operation that failed: %s became %s", desc(in.a).s, desc(read_val(*x.a)).s);
        if (!O::mut && !sim::same(read_val(*x.a), in.a))
            fail("argument-changed", kind_names[in.kind], "the object was changed by a const operation: %s became %s", desc(in.a).s, desc(read_val(*x.a)).s);
    }
};
struct Const { static const bool mut = false, strong = false; };
struct Mut { static const bool mut = true, strong = false; };
struct Strong { static const bool mut = true, strong = true; };   // unchanged when it fails

template <class T> struct IsNet { static const bool value = Tr<T>::kind == N4 || Tr<T>::kind == N6 || Tr<T>::kind == IPN; };
template <class T> struct IsU { static const bool value = Tr<T>::kind == U128; };

inline void put_code(Out& o, ip::error_code c) { o.num("code", uint64_t(c)); }

// ---- parsing ----
template <class T, bool Net> struct ParseCall;
template <class T> struct ParseCall<T, false> {
    template <class S> static T ec(const S& s, ip::error_code& c, bool) { return T::parse(s, c); }
    template <class S> static T th(const S& s, bool) { return T::parse(s); }
};
template <class T> struct ParseCall<T, true> {
    template <class S> static T ec(const S& s, ip::error_code& c, bool strict) { return T::parse(s, c, strict); }
    template <class S> static T th(const S& s, bool strict) { return T::parse(s, strict); }
};
template <class C> struct parse_ec : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::error_code c = x.in.stale;
        T t = ParseCall<T, IsNet<T>::value>::ec(TextOf<C>::get(x.in.text), c, x.in.strict);
        put_code(o, c);
        o.obj("value", t);
    }
};
template <class C> struct parse_th : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        T t = ParseCall<T, IsNet<T>::value>::th(TextOf<C>::get(x.in.text), x.in.strict);
        o.obj("value", t);
    }
};
template <class C, size_t N> struct Arr {
    C d[N];
    Arr(const std::basic_string<C>& s) {
        for (size_t i = 0; i < N; ++i) d[i] = i < s.size() ? s[i] : C(0);
    }
};
template <class C> struct parse_arr_ec : Const {
    template <size_t N, class T> static void run(Cx<T>& x, Out& o) {
        Arr<C, N> s(TextOf<C>::get(x.in.text));
        ip::error_code c = x.in.stale;
        T t = ParseCall<T, IsNet<T>::value>::ec(s.d, c, x.in.strict);
        put_code(o, c);
        o.obj("value", t);
    }
    template <class T> static void go(Cx<T>& x, Out& o) {
        switch (x.in.arr) {
            case 0: run<8>(x, o); break;
            case 1: run<24>(x, o); break;
            default: run<64>(x, o); break;
        }
    }
};
template <class C> struct parse_arr_th : Const {
    template <size_t N, class T> static void run(Cx<T>& x, Out& o) {
        Arr<C, N> s(TextOf<C>::get(x.in.text));
        T t = ParseCall<T, IsNet<T>::value>::th(s.d, x.in.strict);
        o.obj("value", t);
    }
    template <class T> static void go(Cx<T>& x, Out& o) {
        switch (x.in.arr) {
            case 0: run<8>(x, o); break;
            case 1: run<24>(x, o); break;
            default: run<64>(x, o); break;
        }
    }
};
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER

template <class T, class C> struct Lit;
#endif

// ---- observers shared by all ----
struct compare : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        const T &a = *x.a, &b = *x.b;
        unsigned r = 0;
        r |= (a == b) ? 1u : 0u;
        r |= (a != b) ? 2u : 0u;
        r |= (a < b) ? 4u : 0u;
        r |= (a > b) ? 8u : 0u;
        r |= (a <= b) ? 16u : 0u;
        r |= (a >= b) ? 32u : 0u;
        r |= (b < a) ? 64u : 0u;
        r |= (a == a) ? 128u : 0u;
        o.num("compare", r);
    }
};
struct hash : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        uint64_t h = x.a->hash(), s = std::hash<T>()(*x.a), b = x.b->hash();
        o.num("hash", h);
        o.num("std::hash", s);
        o.num("hash", b);
    }
};
struct swap : Mut {
    template <class T> static void go(Cx<T>& x, Out& o) {
        T t(*x.b);
        x.a->swap(t);
        o.obj("a", *x.a);
        o.obj("t", t);
        std::swap(*x.a, t);
        o.obj("a", *x.a);
        o.obj("t", t);
    }
};
struct copy : Mut {
    template <class T> static void go(Cx<T>& x, Out& o) {
        T t{};
        o.obj("default", t);
        t = *x.a;
        T u(t), m(std::move(t));
        o.obj("copy", u);
        o.obj("move", m);
        *x.a = *x.b;
        o.obj("assigned", *x.a);
        *x.a = std::move(u);
        o.obj("assigned", *x.a);
    }
};

// ---- text ----
template <class T, class C> struct ToStr;
#define SIM_TOSTR(C, fn) \
    template <class T> struct ToStr<T, C> { static std::basic_string<C> go(const T& t, const In& in) { return t.fn(ip::format(in.fmt)); } }; \
    template <> struct ToStr<ip::uint128_t, C> { static std::basic_string<C> go(const ip::uint128_t& t, const In& in) { return t.fn(base_fmt(in.base)); } };
SIM_TOSTR(char, to_string)
SIM_TOSTR(wchar_t, to_wstring)
SIM_TOSTR(char16_t, to_u16string)
SIM_TOSTR(char32_t, to_u32string)
#ifdef SIM_CHAR8
SIM_TOSTR(char8_t, to_u8string)
#endif
template <class C> struct to_text : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.str("text", ToStr<T, C>::go(*x.a, x.in)); }
};
template <class C> struct op_text : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.str("text", std::basic_string<C>(*x.a)); }
};
struct std_text : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        o.str("to_string", std::to_string(*x.a));
        o.str("to_wstring", std::to_wstring(*x.a));
    }
};
struct rev_ptr : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.str("reverse", x.a->reverse_pointer()); }
};

// ---- streams ----
template <class C> class FixedSink : public std::basic_streambuf<C> {
    Out& o_;
public:
    typedef std::char_traits<C> tr;
    typedef typename std::basic_streambuf<C>::int_type int_type;
    explicit FixedSink(Out& o) : o_(o) {}
protected:
    void put(C c) { if (g_on_stream) g_on_stream(); if (o_.an < 200) o_.acc[o_.an++] = uint32_t(c); }
    int_type overflow(int_type c) override { if (!tr::eq_int_type(c, tr::eof())) put(tr::to_char_type(c)); return tr::not_eof(c); }
    std::streamsize xsputn(const C* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
};
template <class C> class FixedSource : public std::basic_streambuf<C> {
public:
    explicit FixedSource(const std::basic_string<C>& s) {
        C* p = const_cast<C*>(s.data());
        end_ = p + s.size();
        this->setg(p, p, g_on_stream ? p : end_);
    }
    size_t left() const { return size_t(end_ - this->gptr()); }
protected:
    typename std::basic_streambuf<C>::int_type underflow() override {
        if (this->gptr() == end_) return std::char_traits<C>::eof();
        if (g_on_stream) g_on_stream();
        this->setg(this->gptr(), this->gptr(), this->gptr() + 1);
        return std::char_traits<C>::to_int_type(*this->gptr());
    }
private:
    C* end_;
};
template <class S> void dress(S& s, const In& in) {
    typedef typename S::char_type C;
    if (g_imbue) s.imbue(*g_imbue);
    s.fill(C(in.fill));
    s.width(in.width);
    if (in.flags & 1) s.setf(std::ios_base::uppercase);
    if (in.flags & 2) s.setf(std::ios_base::left, std::ios_base::adjustfield);
    else if (in.flags & 4) s.setf(std::ios_base::internal, std::ios_base::adjustfield);
    if (in.flags & 8) s.exceptions(std::ios_base::badbit);
    if (in.flags & 16) s.setf(std::ios_base::showbase | std::ios_base::showpos);
    if (in.base == HEX) s.setf(std::ios_base::hex, std::ios_base::basefield);
    else if (in.base == OCT) s.setf(std::ios_base::oct, std::ios_base::basefield);
}
template <class C> struct insert : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        o.stream = true;
        o.dir = 'o';
        FixedSink<C> buf(o);
        std::basic_ostream<C> os(nullptr);
        {
            Pause p;
            os.rdbuf(&buf);
            dress(os, x.in);
        }
        try {
            switch (x.in.arr) {
                case 0: break;
                case 1:
                    if (x.in.fmt == int(ip::format::full)) os << ip::full;
                    else if (x.in.fmt == int(ip::format::compact)) os << ip::compact;
                    else os << ip::compressed;
                    break;
                default:
                    if (x.in.fmt == int(ip::format::full)) ip::full(os);
                    else if (x.in.fmt == int(ip::format::compact)) ip::compact(os);
                    else ip::compressed(os);
                    break;
            }
            os << *x.a;
        } catch (...) {
            o.state = int(os.rdstate());
            throw;
        }
        o.state = int(os.rdstate());
        o.num("state", uint64_t(o.state));
        o.num("width", uint64_t(os.width()));
    }
};
template <class C> struct extract : Mut {
    template <class T> static void go(Cx<T>& x, Out& o) {
        o.stream = true;
        o.dir = 'i';
        FixedSource<C> buf(TextOf<C>::get(x.in.text));
        std::basic_istream<C> is(nullptr);
        {
            Pause p;
            is.rdbuf(&buf);
            dress(is, x.in);
            is.width(0);
        }
        Val v;
        try {
            if (!x.in.strict) is >> ip::non_strict;
            else if (x.in.arr == 0) is >> ip::strict;
            is >> *x.a;
        } catch (...) {
            Pause p;
            o.state = int(is.rdstate());
            v = read_val(*x.a);
            o.val_h = hash_val(v);
            o.touched = !sim::same(v, x.in.a);
            throw;
        }
        Pause p;
        o.state = int(is.rdstate());
        v = read_val(*x.a);
        o.val_h = hash_val(v);
        o.touched = !sim::same(v, x.in.a);
        o.num("state", uint64_t(o.state));
        o.num("left", buf.left());
        o.val("value", v);
    }
};

// ---- addresses ----
struct classify : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        const T& a = *x.a;
        unsigned r = 0;
        if (a.is_multicast()) r |= 1;
        if (a.is_private()) r |= 2;
        if (a.is_global()) r |= 4;
        if (a.is_reserved()) r |= 8;
        if (a.is_loopback()) r |= 16;
        if (a.is_link_local()) r |= 32;
        if (a.is_unspecified()) r |= 64;
        o.num("class", r);
    }
};
struct site_local : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.num("site_local", x.a->is_site_local()); }
};
struct addr_data : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        o.bytes("data", x.a->data(), size_t(x.in.a.size()));
        o.num("version", uint64_t(x.a->version()));
    }
};
template <class T> struct Bytes;
template <> struct Bytes<ip::ipv4_address> { static const size_t n = 4; };
template <> struct Bytes<ip::ipv6_address> { static const size_t n = 16; };
struct from_bytes : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        typename T::base_type d = {};
        for (size_t i = 0; i < Bytes<T>::n; ++i) d[i] = x.in.b.b[i];
        o.obj("array", T::from_bytes(d));
        o.obj("ctor", T(d));
        size_t n = x.in.plen % 20;
        o.obj("ptr", T::from_bytes(x.in.u.b, n > 16 ? 16 : n));
    }
};
struct to_uint : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto u = x.a->to_uint();
        o.obj("back", T::from_uint(u));
        typedef typename T::uint_type U;
        o.obj("any", T::from_uint(U(*x.u)));
        o.num("conv", uint64_t(U(*x.a)));
    }
};
struct any_conv : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        const ip::ip_address& a = *x.a;
        o.num("is4", a.is_v4());
        o.num("is6", a.is_v6());
        o.num("size", a.size());
        auto p4 = a.v4();
        auto p6 = a.v6();
        o.num("has4", p4.has_value());
        o.num("has6", p6.has_value());
        if (p4) o.obj("v4", p4.value());
        if (p6) o.obj("v6", p6.value());
        if (a.is_v4()) { o.num("u32", a.to_uint32()); o.obj("back", ip::ip_address::from_uint(a.to_uint32())); o.num("cast", uint32_t(a)); }
        o.obj("u128", a.to_uint128());
        o.obj("v6uint", ip::ip_address::from_uint(*x.u));
        o.obj("ptr", ip::ip_address::from_bytes(x.in.u.b, size_t(x.in.a.size()), a.version()));
    }
};
struct six_conv : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto m = x.a->ipv4_mapped();
        o.num("mapped", m.has_value());
        if (m) o.obj("mapped", m.value());
        auto s = x.a->sixtofour();
        o.num("6to4", s.has_value());
        if (s) o.obj("6to4", s.value());
        auto t = x.a->teredo();
        o.num("teredo", t.has_value());
        if (t) { o.obj("server", t.value().first); o.obj("client", t.value().second); }
    }
};
struct scope_get : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto a = x.a->get_scope_id();
        auto b = x.b->get_scope_id();
        o.num("has_string", a.has_string());
        o.num("has_uint32", a.has_uint32());
        o.num("bool", bool(a));
        if (a.has_uint32()) { o.num("uint32", a.get_uint32()); o.num("cast", uint32_t(a)); }
        unsigned r = 0;
        r |= (a == b) ? 1u : 0u;
        r |= (a != b) ? 2u : 0u;
        r |= (a < b) ? 4u : 0u;
        r |= (a > b) ? 8u : 0u;
        r |= (a <= b) ? 16u : 0u;
        r |= (a >= b) ? 32u : 0u;
        o.num("compare", r);
    }
};
struct scope_str : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto a = x.a->get_scope_id();
        o.str("get_string", a.get_string());
        o.str("conv", std::string(a));
    }
};
template <class C> struct scope_ec : Mut {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::error_code c = x.in.stale;
        x.a->set_scope_id(TextOf<C>::get(x.in.scope), c);
        if (SCOPE_MAX) put_code(o, c);   // documented to have no effect when built without scope ids
        o.obj("after", *x.a);
    }
};
template <class C> struct scope_th : Strong {
    template <class T> static void go(Cx<T>& x, Out& o) {
        struct After {
            Cx<T>& x;
            Out& o;
            ~After() { o.obj("after", *x.a); }
        } after = { x, o };
        x.a->set_scope_id(TextOf<C>::get(x.in.scope));
    }
};
template <class T, bool Any> struct ScopeArrEc { template <class A> static void go(T& t, const A& s, ip::error_code& c) { t.set_scope_id(s, c); } };
struct ScopeArr { enum : size_t { whole = SCOPE_MAX + 1, small = SCOPE_MAX && SCOPE_MAX < 3 ? whole : 4, middle = SCOPE_MAX && SCOPE_MAX < 8 ? whole : 9 }; };
template <class C> struct scope_arr_ec : Mut {
    template <size_t N, class T> static void run(Cx<T>& x, Out& o) {
        Arr<C, N> s(TextOf<C>::get(x.in.scope));
        ip::error_code c = x.in.stale;
        x.a->set_scope_id(s.d, c);
        if (SCOPE_MAX) put_code(o, c);
        o.obj("after", *x.a);
    }
    template <class T> static void go(Cx<T>& x, Out& o) {
        switch (x.in.arr) {
            case 0: run<ScopeArr::small>(x, o); break;
            case 1: run<ScopeArr::middle>(x, o); break;
            default: run<ScopeArr::whole>(x, o); break;
        }
    }
};
template <class C> struct scope_arr_th : Strong {
    template <size_t N, class T> static void run(Cx<T>& x, Out& o) {
        Arr<C, N> s(TextOf<C>::get(x.in.scope));
        struct After {
            Cx<T>& x;
            Out& o;
            ~After() { o.obj("after", *x.a); }
        } after = { x, o };
        x.a->set_scope_id(s.d);
    }
    template <class T> static void go(Cx<T>& x, Out& o) {
        switch (x.in.arr) {
            case 0: run<ScopeArr::small>(x, o); break;
            case 1: run<ScopeArr::middle>(x, o); break;
            default: run<ScopeArr::whole>(x, o); break;
        }
    }
};

// ---- networks ----
struct net_query : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        const T& n = *x.a;
        o.num("version", uint64_t(n.version()));
        o.num("prefixlen", n.prefixlen());
        o.obj("network", n.network_address());
        o.obj("broadcast", n.broadcast_address());
        o.obj("netmask", n.netmask());
        o.obj("hostmask", n.hostmask());
        o.obj("count", ip::uint128_t(n.addresses_count()));
    }
};
struct net_any : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        o.num("is4", x.a->is_v4());
        o.num("is6", x.a->is_v6());
        o.num("size", x.a->size());
        auto p4 = x.a->v4();
        auto p6 = x.a->v6();
        o.num("has4", p4.has_value());
        o.num("has6", p6.has_value());
        if (p4) o.obj("v4", p4.value());
        if (p6) o.obj("v6", p6.value());
    }
};
struct net_relate : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        unsigned r = 0;
        if (x.a->contains(*x.c)) r |= 1;
        if (x.a->overlaps(*x.b)) r |= 2;
        if (x.a->subnet_of(*x.b)) r |= 4;
        if (x.a->supernet_of(*x.b)) r |= 8;
        if (x.b->overlaps(*x.a)) r |= 16;
        if (x.a->contains(x.b->network_address())) r |= 32;
        o.num("relate", r);
    }
};
struct from_addr_ec : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::error_code c = x.in.stale;
        T t = T::from_address(*x.c, c, x.in.plen, x.in.strict);
        put_code(o, c);
        o.obj("value", t);
    }
};
struct from_addr : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.obj("value", T::from_address(*x.c, x.in.plen, x.in.strict)); }
};
inline ip::optional<size_t> opt_np(const In& in) { return in.has_np ? ip::optional<size_t>(in.np) : ip::optional<size_t>(); }
struct supernet_ec : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::error_code c = x.in.stale;
        T t = x.a->supernet(c, x.in.diff, opt_np(x.in));
        put_code(o, c);
        o.obj("value", t);
    }
};
struct supernet_th : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.obj("value", x.a->supernet(x.in.diff, opt_np(x.in))); }
};
// walks at most `some` members each way; a range of at most 2^bits members must end within that many
template <class Seq> void walk(const char* what, const Seq& s, int bits, unsigned some, Out& o) {
    uint64_t members = bits < 63 ? uint64_t(1) << bits : ~uint64_t(0);
    o.num("empty", s.empty());
    uint64_t n = 0, max = some < members ? some : members;
    auto e = s.end();
    for (auto it = s.begin(); it != e; ++it) {
        if (n >= max) {
            if (members <= some) fail("iteration", what, "the range goes on after %llu members", (unsigned long long)n);
            break;
        }
        o.obj("i", *it);
        ++n;
    }
    o.num("n", n);
}
template <class Seq> void walk_back(const char* what, const Seq& s, int bits, unsigned some, Out& o) {
    uint64_t members = bits < 63 ? uint64_t(1) << bits : ~uint64_t(0);
    uint64_t n = 0, max = some < members ? some : members;
    auto e = s.rend();
    for (auto it = s.rbegin(); it != e; ++it) {
        if (n >= max) {
            if (members <= some) fail("iteration", what, "the reversed range goes on after %llu members", (unsigned long long)n);
            break;
        }
        o.obj("r", *it);
        ++n;
    }
    o.num("rn", n);
}
template <class Seq> void random_access(const Seq& s, const In& in, uint64_t members, Out& o) {
    if (s.empty()) return;
    o.obj("front", s.front());
    o.obj("back", s.back());
    uint64_t k = in.u.b[15] % (members > 200 ? 200 : members);
    auto it = s.begin();
    it += int64_t(k);
    if (it != s.end()) {
        o.obj("+=", *it);
        o.obj("[]", s.begin()[int64_t(k)]);
        o.num("-", uint64_t(it - s.begin()));
        auto b = it;
        b -= int64_t(k);
        o.num("back at begin", b == s.begin());
        auto c = it++;
        o.obj("c", *c);
        if (it != s.end()) o.obj("++", *it);
        --it;
        o.num("same", it == c);
        o.num("order", (s.begin() < it) | (it <= s.begin()) << 1 | (it > c) << 2 | (it >= c) << 3);
    }
}
inline void put_big(Out& o, const char* n, uint64_t v) { o.num(n, v); }
inline void put_big(Out& o, const char* n, const ip::uint128_t& v) {
    o.num(n, v.upper());
    o.num(n, v.lower());
}
inline void to_width(const Val& u, uint32_t& r) { r = uint32_t(u.b[12]) << 24 | uint32_t(u.b[13]) << 16 | uint32_t(u.b[14]) << 8 | u.b[15]; }
inline void to_width(const Val& u, ip::uint128_t& r) {
    r = ip::uint128_t();
    for (int i = 0; i < 16; ++i) r = (r << 8) | ip::uint128_t(u.b[i]);
}
// the calls of a range and its iterators with steps of every size
template <class Seq> void range_calls(const Seq& s, const In& in, Out& o) {
    typedef typename Seq::const_iterator It;
    typedef typename It::uint_type U;
    put_big(o, "size", s.size());
    put_big(o, "length", s.end().uint_diff(s.begin()));
    o.num("end - begin", uint64_t(s.end() - s.begin()));
    o.num("default", It() == It());
    put_big(o, "default length", It().uint_diff(It()));
    o.num("c", (s.cbegin() == s.begin()) | (s.cend() == s.end()) << 1 | (s.crbegin() == s.rbegin()) << 2 | (s.crend() == s.rend()) << 3);
    if (s.empty()) return;
    U m = U(s.size()), k;
    to_width(in.u, k);
    if (m != U()) k = k % m;
    o.obj("at", s.at(k));
    o.obj("[]", s[k]);
    o.obj("it[]", s.begin()[k]);
    It a = s.begin() + k, b = k + s.begin(), c = s.begin();
    c += k;
    o.obj("+", *a);
    o.num("agree", (a == b) | (a == c) << 1 | (a != s.end()) << 2 | (a < s.end()) << 3 | (s.begin() <= a) << 4);
    put_big(o, "from begin", a.uint_diff(s.begin()));
    put_big(o, "to end", s.end().uint_diff(a));
    o.num("n", uint64_t(a - s.begin()));
    It d = a - k;
    a -= k;
    o.num("and back", (d == s.begin()) | (a == s.begin()) << 1);
    auto r = s.rbegin() + k;
    o.obj("r+", *r);
    o.obj("r[]", s.rbegin()[k]);
    r -= k;
    o.num("r back", (r == s.rbegin()) | (r != s.rend()) << 1);
    std::swap(b, d);
    o.obj("swapped", *d);
}
struct hosts : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        int bits = x.in.a.maxp() - x.in.a.plen;
        auto s = x.a->hosts();
        walk("hosts", s, bits, 70, o);
        walk_back("hosts", s, bits, 70, o);
        random_access(s, x.in, bits < 8 ? uint64_t(1) << bits : 200, o);
        range_calls(s, x.in, o);
    }
};
template <class T, class S> void look_subnets(Cx<T>& x, const S& s, Out& o) {
    int bits = x.in.has_np ? int(x.in.np) - x.in.a.plen : int(x.in.diff);
    walk("subnets", s, bits, 40, o);
    walk_back("subnets", s, bits, 40, o);
    random_access(s, x.in, bits < 8 ? uint64_t(1) << bits : 200, o);
    range_calls(s, x.in, o);
}
struct subnets_ec : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::error_code c = x.in.stale;
        auto s = x.a->subnets(c, x.in.diff, opt_np(x.in));
        put_code(o, c);
        if (c == ip::error_code::no_error) look_subnets(x, s, o);
    }
};
struct subnets_th : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto s = x.a->subnets(x.in.diff, opt_np(x.in));
#ifdef IPADDRESS_NO_EXCEPTIONS
        ip::error_code c = ip::error_code::no_error;
        x.a->subnets(c, x.in.diff, opt_np(x.in));
        if (c != ip::error_code::no_error) return;
#endif
        look_subnets(x, s, o);
    }
};
template <class S> void look_exclude(const S& s, Out& o) {
    o.num("empty", s.empty());
    unsigned n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        if (n >= 130) fail("iteration", "address_exclude", "more than 130 networks");
        o.obj("i", *it);
        ++n;
    }
    o.num("n", n);
}
struct exclude_ec : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::error_code c = x.in.stale;
        auto s = x.a->address_exclude(*x.b, c);
        put_code(o, c);
        if (c == ip::error_code::no_error) look_exclude(s, o);
    }
};
struct exclude_th : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto s = x.a->address_exclude(*x.b);
#ifdef IPADDRESS_NO_EXCEPTIONS
        ip::error_code c = ip::error_code::no_error;
        x.a->address_exclude(*x.b, c);
        if (c != ip::error_code::no_error) return;
#endif
        look_exclude(s, o);
    }
};

// ---- 128-bit integers ----
struct u_arith : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        const ip::uint128_t &a = *x.a, &b = *x.b;
        o.obj("+", a + b);
        o.obj("-", a - b);
        o.obj("*", a * b);
        o.obj("&", a & b);
        o.obj("|", a | b);
        o.obj("^", a ^ b);
        o.obj("~", ~a);
        o.obj("neg", -a);
        o.num("bool", (bool(a) ? 1u : 0u) | (!b ? 2u : 0u));
        if (b != ip::uint128_t(0)) {
            o.obj("/", a / b);
            o.obj("%", a % b);
        }
    }
};
struct u_shift : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        o.obj("<<", *x.a << x.in.shift);
        o.obj(">>", *x.a >> x.in.shift);
    }
};
struct u_inplace : Mut {
    template <class T> static void go(Cx<T>& x, Out& o) {
        ip::uint128_t& a = *x.a;
        const ip::uint128_t& b = *x.b;
        a += b; o.obj("+=", a);
        a *= b; o.obj("*=", a);
        a -= b; o.obj("-=", a);
        a ^= b; o.obj("^=", a);
        a |= b; o.obj("|=", a);
        a &= ~b; o.obj("&=", a);
        a <<= x.in.shift; o.obj("<<=", a);
        a >>= x.in.shift; o.obj(">>=", a);
        if (b != ip::uint128_t(0)) { a /= b; o.obj("/=", a); a += b; a %= b; o.obj("%=", a); }
        ip::uint128_t p = a++; o.obj("++", p);
        p = ++a; o.obj("++", p);
        p = a--; o.obj("--", p);
        p = --a; o.obj("--", p);
    }
};
struct u_conv : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        const ip::uint128_t& a = *x.a;
        o.num("u64", uint64_t((unsigned long long)(a)));
        o.num("i64", uint64_t((long long)(a)));
        o.num("u32", (unsigned int)(a));
        o.num("i32", uint64_t(int64_t((int)(a))));
        o.num("u16", (unsigned short)(a));
        o.num("u8", (unsigned char)(a));
        double d = (double)(a);
        uint64_t bits;
        memcpy(&bits, &d, 8);
        o.num("double", bits);
        ip::uint128_t back(d);
        if (d < 3e38) o.obj("back", back);
        o.obj("int", ip::uint128_t(int(x.in.shift)));
        o.obj("long", ip::uint128_t((long long)(x.in.diff)));
        o.num("mixed", (a == x.in.plen ? 1u : 0u) | (a < x.in.plen ? 2u : 0u) | (a >= x.in.plen ? 4u : 0u));
    }
};
template <class C> struct u_parse : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        auto r = ip::uint128_t::from_string(TextOf<C>::get(x.in.text), base_fmt(x.in.base));
        o.num("has", r.has_value());
        if (r) o.obj("value", r.value());
    }
};
template <class C> struct u_parse_arr : Const {
    template <class T> static void go(Cx<T>& x, Out& o) {
        Arr<C, 64> s(TextOf<C>::get(x.in.text));
        auto r = ip::uint128_t::from_string(s.d, base_fmt(x.in.base));
        o.num("has", r.has_value());
        if (r) o.obj("value", r.value());
    }
};

// ---- registration ----
template <class O, class T> void add(std::vector<Op>& v, const char* name, const char* sub, int flags) {
    Op op = { name, sub, flags | (O::mut ? MUT : 0), &Call<O, T>::run, &Call<O, T>::mk, &Call<O, T>::body, &Call<O, T>::chk, &Call<O, T>::rm };
    v.push_back(op);
}
#ifdef SIM_CHAR8
#define SIM_EACH_CHAR(X) X(char) X(wchar_t) X(char16_t) X(char32_t) X(char8_t)
#else
#define SIM_EACH_CHAR(X) X(char) X(wchar_t) X(char16_t) X(char32_t)
#endif
template <class T, class C> void add_text_ops(std::vector<Op>& v) {
    const char* n = TextOf<C>::name();
    add<parse_ec<C>, T>(v, "parse(code)", n, NT);
    add<parse_th<C>, T>(v, "parse", n, AL | NTX);
    add<parse_arr_ec<C>, T>(v, "parse(array,code)", n, NT);
    add<parse_arr_th<C>, T>(v, "parse(array)", n, AL | NTX);
    add<to_text<C>, T>(v, "to_string", n, AL);
    add<op_text<C>, T>(v, "operator string", n, AL);
}
template <class T> void add_common(std::vector<Op>& v) {
    add<compare, T>(v, "compare", "", NT);
    add<hash, T>(v, "hash", "", NT);
    add<swap, T>(v, "swap", "", NT);
    add<copy, T>(v, "copy", "", NT);
    add<std_text, T>(v, "std::to_string", "", AL);
    add<insert<char>, T>(v, "insert", "char", ST);
    add<insert<wchar_t>, T>(v, "insert", "wchar_t", ST);
    add<extract<char>, T>(v, "extract", "char", ST);
    add<extract<wchar_t>, T>(v, "extract", "wchar_t", ST);
}
template <class T> void add_addr(std::vector<Op>& v) {
    add_common<T>(v);
#define X(C) add_text_ops<T, C>(v);
    SIM_EACH_CHAR(X)
#undef X
    add<classify, T>(v, "classify", "", NT);
    add<addr_data, T>(v, "data", "", NT);
    add<rev_ptr, T>(v, "reverse_pointer", "", AL);
}
template <class T, class C> void add_scope_ops(std::vector<Op>& v) {
    const char* n = TextOf<C>::name();
    add<scope_ec<C>, T>(v, "set_scope_id(code)", n, NT);
    add<scope_th<C>, T>(v, "set_scope_id", n, AL | NTX);
    add<scope_arr_th<C>, T>(v, "set_scope_id(array)", n, AL | NTX);
}
template <class T> void add_six(std::vector<Op>& v) {
#define X(C) add_scope_ops<T, C>(v);
    SIM_EACH_CHAR(X)
#undef X
    add<site_local, T>(v, "is_site_local", "", NT);
    add<six_conv, T>(v, "embedded addresses", "", NT);
    add<scope_get, T>(v, "scope", "", NT);
    add<scope_str, T>(v, "scope string", "", AL);
}
template <class T> void add_net(std::vector<Op>& v) {
    add_common<T>(v);
#define X(C) add_text_ops<T, C>(v);
    SIM_EACH_CHAR(X)
#undef X
    add<classify, T>(v, "classify", "", NT);
    add<net_query, T>(v, "queries", "", NT);
    add<net_relate, T>(v, "relations", "", NT);
    add<from_addr_ec, T>(v, "from_address(code)", "", NT);
    add<from_addr, T>(v, "from_address", "", AL | NTX);
    add<supernet_ec, T>(v, "supernet(code)", "", NT);
    add<supernet_th, T>(v, "supernet", "", AL | NTX);
    add<hosts, T>(v, "hosts", "", NT);
    add<subnets_ec, T>(v, "subnets(code)", "", NT);
    add<subnets_th, T>(v, "subnets", "", AL | NTX);
    add<exclude_ec, T>(v, "address_exclude(code)", "", NT);
    add<exclude_th, T>(v, "address_exclude", "", AL | NTX);
}
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct literal : Const {
    template <class T> static void go(Cx<T>& x, Out& o) { o.obj("value", Lit<T, C>::go(TextOf<C>::get(x.in.text))); }
};
template <class T> void add_lit(std::vector<Op>& v) {
    add<literal<char>, T>(v, "literal", "char", AL | NTX);
    add<literal<wchar_t>, T>(v, "literal", "wchar_t", AL | NTX);
    add<literal<char16_t>, T>(v, "literal", "char16_t", AL | NTX);
    add<literal<char32_t>, T>(v, "literal", "char32_t", AL | NTX);
}
#else
template <class T> void add_lit(std::vector<Op>&) {}
#endif
} // namespace ops
} // namespace sim
#endif
