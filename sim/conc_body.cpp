// Compiled with -fsanitize=thread: every memory access is seen by tsan_rt.cpp.
#include "conc.hpp"

namespace sim {
namespace conc {
using ops::Out;

struct Shared {
    ip::ipv4_address a4;
    ip::ipv6_address a6;
    ip::ip_address a;
    ip::ipv4_network n4;
    ip::ipv6_network n6;
    ip::ip_network n;
    ip::uint128_t u;
    explicit Shared(const Val* v)
        : a4(Tr<ip::ipv4_address>::make(v[V4])), a6(Tr<ip::ipv6_address>::make(v[V6])), a(Tr<ip::ip_address>::make(v[IP])), n4(Tr<ip::ipv4_network>::make(v[N4])),
          n6(Tr<ip::ipv6_network>::make(v[N6])), n(Tr<ip::ip_network>::make(v[IPN])), u(Tr<ip::uint128_t>::make(v[U128])) {}
};
template <class T> struct Pickk;
template <> struct Pickk<ip::ipv4_address> { static const ip::ipv4_address& go(const Shared& s) { return s.a4; } };
template <> struct Pickk<ip::ipv6_address> { static const ip::ipv6_address& go(const Shared& s) { return s.a6; } };
template <> struct Pickk<ip::ip_address> { static const ip::ip_address& go(const Shared& s) { return s.a; } };
template <> struct Pickk<ip::ipv4_network> { static const ip::ipv4_network& go(const Shared& s) { return s.n4; } };
template <> struct Pickk<ip::ipv6_network> { static const ip::ipv6_network& go(const Shared& s) { return s.n6; } };
template <> struct Pickk<ip::ip_network> { static const ip::ip_network& go(const Shared& s) { return s.n; } };
template <> struct Pickk<ip::uint128_t> { static const ip::uint128_t& go(const Shared& s) { return s.u; } };
Shared* make_shared_objects(const Val* v) { return new Shared(v); }
void free_shared(Shared* s) { delete s; }
void check_shared(const Shared* s, const Val* v) {
    if (!same(read_val(s->a4), v[V4]) || !same(read_val(s->a6), v[V6]) || !same(read_val(s->a), v[IP]) || !same(read_val(s->n4), v[N4]) || !same(read_val(s->n6), v[N6]) || !same(read_val(s->n), v[IPN]) || !same(read_val(s->u), v[U128]))
        fail("argument-changed", "shared", "a shared object was changed by reading it");
}

template <class C> struct Player {
    std::basic_ostringstream<C> os;
    std::basic_istringstream<C> is;
    const Shared& sh;
    Out& out;
    const SStep* st;
    Player(const Shared& s, Out& o) : sh(s), out(o), st(nullptr) {}
    template <class T> void go() {
        if (st->what == 2) {
            os.setf(st->base == HEX ? std::ios_base::hex : st->base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
            if (st->shared) os << Pickk<T>::go(sh);
            else { T t = Tr<T>::make(st->v); os << t; }
            os << C(' ');
        } else {
            is.clear();
            is.str(widen<C>(st->text));
            is.setf(st->base == HEX ? std::ios_base::hex : st->base == OCT ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
            T t{};
            is >> t;
            out.num("state", uint64_t(is.rdstate()));
            if (!is.fail()) out.obj("extracted", t);
        }
    }
    void play(const Script& s) {
        for (size_t i = 0; i < s.steps.size(); ++i) {
            st = &s.steps[i];
            switch (st->what) {
                case 0: if (st->arg == 0) os << ip::full; else if (st->arg == 1) os << ip::compact; else os << ip::compressed; break;
                case 1: if (st->arg) is >> ip::non_strict; else is >> ip::strict; break;
                case 4: os << 12345 << C(' '); break;
                case 5: out.str("text", os.str()); os.str(std::basic_string<C>()); break;
                default: dispatch(st->kind, *this);
            }
            out.num("good", os.good());
        }
        out.str("text", os.str());
    }
};
template <class C> static void play(const Script& s, const Shared& sh, Out& out) {
    Player<C> p(sh, out);
    p.play(s);
}
struct ScriptArg { const Script* s; const Shared* sh; };
static void script_body(void* p, Out& out) {
    ScriptArg* a = static_cast<ScriptArg*>(p);
    if (a->s->wide) play<wchar_t>(*a->s, *a->sh, out); else play<char>(*a->s, *a->sh, out);
}
void run_script(const Script& s, const Shared* sh, Out& out) {
    ScriptArg a = { &s, sh };
    ops::guard(&script_body, &a, out);
}

template <class N> struct RangesOf {
    typedef decltype(std::declval<const N&>().hosts()) Hosts;
    typedef decltype(std::declval<const N&>().subnets(std::declval<ip::error_code&>(), size_t(1), ip::optional<size_t>())) Subs;
    typedef decltype(std::declval<const Hosts&>().begin()) HIt;
    typedef decltype(std::declval<const Subs&>().begin()) SIt;
    N net;
    ip::error_code code;
    Hosts hosts;
    Subs subs;
    HIt hit;
    SIt sit;
    RangesOf(const N& n, size_t diff) : net(n), code(ip::error_code::no_error), hosts(n.hosts()), subs(n.subnets(code, diff, ip::optional<size_t>())), hit(hosts.begin()), sit(subs.begin()) {}
};
struct Ranges {
    RangesOf<ip::ipv4_network> r4;
    RangesOf<ip::ipv6_network> r6;
    RangesOf<ip::ip_network> r;
    Ranges(const ip::ipv4_network& a, const ip::ipv6_network& b, const ip::ip_network& c, size_t d) : r4(a, d), r6(b, d), r(c, d) {}
};
Ranges* make_ranges(const Val& n4, const Val& n6, const Val& na, size_t diff) {
    return new Ranges(Tr<ip::ipv4_network>::make(n4), Tr<ip::ipv6_network>::make(n6), Tr<ip::ip_network>::make(na), diff);
}
void free_ranges(Ranges* r) { delete r; }
template <class Seq> static void look(const Seq& s, unsigned some, unsigned jump, Out& o) {
    o.num("empty", s.empty());
    unsigned n = 0;
    auto e = s.end();
    for (auto it = s.begin(); it != e && n < some; ++it, ++n) o.obj("i", *it);
    n = 0;
    auto re = s.rend();
    for (auto it = s.rbegin(); it != re && n < some; ++it, ++n) o.obj("r", *it);
    if (s.empty()) return;
    o.obj("front", s.front());
    o.obj("back", s.back());
    (void)jump;
}
template <class It> static void follow(const It& from, unsigned some, Out& o) {
    o.obj("*", *from);
    It it = from;
    unsigned n = 0;
    for (; n < some; ++n) { o.obj("i", *it); ++it; }
    o.num("-", uint64_t(it - from));
    o.num("order", (from < it) | (it != from) << 1);
    while (n--) --it;
    o.num("same", it == from);
}
template <class R> static void use(const R& r, int w, unsigned some, unsigned jump, Out& o) {
    o.num("code", uint64_t(r.code));
    switch (w) {
        case 0: look(r.hosts, some, jump, o); break;
        case 1: look(r.subs, some, jump, o); break;
        case 2: if (!r.hosts.empty()) follow(r.hit, 1, o); break;
        default: if (!r.subs.empty()) follow(r.sit, 1, o); break;
    }
}
struct RangeArg { const Ranges* r; int w; unsigned some, jump; };
static void range_body(void* p, Out& o) {
    RangeArg* a = static_cast<RangeArg*>(p);
    switch (a->w / 4) {
        case 0: use(a->r->r4, a->w % 4, a->some, a->jump, o); break;
        case 1: use(a->r->r6, a->w % 4, a->some, a->jump, o); break;
        default: use(a->r->r, a->w % 4, a->some, a->jump, o); break;
    }
}
void run_range(const Ranges* r, int which, unsigned some, unsigned jump, Out& out) {
    RangeArg a = { r, which, some, jump };
    ops::guard(&range_body, &a, out);
}

template <class T> static void classify(const T& t, Out& o) {
    o.num("private", t.is_private());
    o.num("global", t.is_global());
    o.num("reserved", t.is_reserved());
    o.num("multicast", t.is_multicast());
    o.num("loopback", t.is_loopback());
    o.num("link_local", t.is_link_local());
    o.num("unspecified", t.is_unspecified());
}
struct ClassArg { const Val* v; Out* o; template <class T> void go() { classify(Tr<T>::make(*v), *o); } };
template <> inline void ClassArg::go<ip::uint128_t>() {}
static void class_body(void* p, Out& o) {
    ClassArg* a = static_cast<ClassArg*>(p);
    a->o = &o;
    dispatch(a->v->kind, *a);
}
void run_classify(const Val& v, Out& out) {
    ClassArg a = { &v, &out };
    ops::guard(&class_body, &a, out);
}
} // namespace conc
} // namespace sim
