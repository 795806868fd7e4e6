// C16: iterators over host and subnet ranges and over exclusions, used by several parties in any order, against
// a model that knows only positions. The ranges and networks they came from vanish at any moment.
#ifndef SIM_WALK_HPP
#define SIM_WALK_HPP
#include "vals.hpp"
#include <new>
#include <unistd.h>

namespace sim {
namespace {
typedef unsigned __int128 u128;
const u128 U128_MAX = ~u128(0);

template <class U> struct Big;
template <> struct Big<uint32_t> {
    static uint32_t to(u128 v) { return uint32_t(v); }
    static u128 from(uint32_t v) { return v; }
    static bool fits(u128 v) { return v <= 0xffffffffu; }
};
template <> struct Big<ip::uint128_t> {
    static ip::uint128_t to(u128 v) { return ip::uint128_t(uint64_t(v >> 64), uint64_t(v)); }
    static u128 from(const ip::uint128_t& v) { return u128(v.upper()) << 64 | v.lower(); }
    static bool fits(u128) { return true; }
};
// the range: n members, base + i * step, all with the prefix length plen (-1: addresses)
struct Model {
    bool six;
    u128 base, step, n;
    int plen;
    u128 at(u128 i) const { return base + i * step; }
};
u128 value_of(const Val& v) {
    u128 r = 0;
    for (int i = 0; i < (v.six ? 16 : 4); ++i) r = r << 8 | v.b[i];
    return r;
}
Text num(u128 v) {
    Text t;
    if (v >> 64) snprintf(t.s, sizeof t.s, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else snprintf(t.s, sizeof t.s, "%llu", (unsigned long long)v);
    return t;
}
template <class T> void expect(const Model& m, u128 i, const T& got, const char* key, const char* what) {
    count(C_CHECKS);
    Val v = read_val(got);
    bool six = v.kind == V6 || v.kind == N6 || ((v.kind == IP || v.kind == IPN) && v.six);
    if (six != m.six || value_of(v) != m.at(i) || v.slen != 0 || (m.plen >= 0 && v.plen != m.plen))
        fail("walk", key, "%s at position %s of %s is %s", what, num(i).s, num(m.n).s, desc(v).s);
}
// a raw place for an object, filled with garbage before and after its life
template <class T> struct Place {
    alignas(16) unsigned char raw[sizeof(T)];
    T* p;
    Place() : p(nullptr) {}
    ~Place() { kill(); }
    T* get() { return p; }
    template <class A> T* make(const A& a) {
        kill();
        memset(raw, int(pick(256)), sizeof raw);
        return p = ::new (raw) T(a);
    }
    void kill() {
        if (!p) return;
        p->~T();
        p = nullptr;
        memset(raw, int(pick(256)), sizeof raw);
    }
};
enum { SLOTS = 5 };
template <class R> struct Walk {
    typedef typename R::const_iterator It;
    typedef typename R::const_reverse_iterator Rit;
    typedef typename It::uint_type U;
    typedef typename It::value_type V;
    const char* key;
    Model m;
    Place<R> range, foreign;     // foreign: of another network, perhaps of the other version
    Place<It> f[SLOTS];
    Place<Rit> r[SLOTS];
    u128 fp[SLOTS], rp[SLOTS];

    void member(const It& it, u128 p, const char* what) const { if (p < m.n) { expect(m, p, *it, key, what); if (it.operator->() != &*it) fail("walk", key, "%s: -> and * disagree", what); } }
    void member(const Rit& it, u128 p, const char* what) const { if (p < m.n) { expect(m, m.n - 1 - p, *it, key, what); if (it.operator->() != &*it) fail("walk", key, "%s: -> and * disagree", what); } }
    // a position somewhere in [0, n]
    u128 spot() {
        switch (pick(5)) {
            case 0: return std::min<u128>(m.n, pick(4));
            case 1: return m.n - std::min<u128>(m.n, pick(4));
            case 2: { u128 v = u128(1) << pick(127); return std::min<u128>(m.n, v - 1 + pick(3)); }
            case 3: return std::min<u128>(m.n, pick(300));
            default: { u128 v = u128(pick64()) << 64; v |= pick64(); return m.n == U128_MAX ? v : v % (m.n + 1); }
        }
    }
    template <class I> void order(const I& a, u128 pa, const I& b, u128 pb, const char* what) {
        count(C_CHECKS);
        bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
        if (eq != (pa == pb) || ne != (pa != pb) || lt != (pa < pb) || le != (pa <= pb) || gt != (pa > pb) || ge != (pa >= pb))
            fail("walk", key, "%s: comparison of positions %s and %s of %s gives == %d != %d < %d <= %d > %d >= %d", what, num(pa).s, num(pb).s, num(m.n).s, eq, ne, lt, le, gt, ge);
#if defined(__cpp_impl_three_way_comparison) && defined(IPADDRESS_HAS_SPACESHIP_OPERATOR)
        auto o = a <=> b;
        if ((o < 0) != (pa < pb) || (o > 0) != (pa > pb)) fail("walk", key, "%s: <=> of positions %s and %s", what, num(pa).s, num(pb).s);
#endif
        u128 d = pa > pb ? pa - pb : pb - pa;
        if (!(d >> 63)) {
            int64_t want = pa >= pb ? int64_t(d) : -int64_t(d), got = a - b;
            if (got != want) fail("walk", key, "%s: the difference of positions %s and %s of %s is %lld", what, num(pa).s, num(pb).s, num(m.n).s, (long long)got);
        }
        if (pa >= pb && Big<U>::fits(d)) {
            u128 got = Big<U>::from(a.uint_diff(b));
            if (got != d) fail("walk", key, "%s: uint_diff of positions %s and %s of %s is %s", what, num(pa).s, num(pb).s, num(m.n).s, num(got).s);
        }
    }
    static It alien(const R& r, bool e, const It&) { return e ? r.end() : r.begin(); }
    static Rit alien(const R& r, bool e, const Rit&) { return e ? r.rend() : r.rbegin(); }
    // one step of one walker
    template <class I> void go(Place<I>* s, u128* pos, uint32_t i, const char* name) {
        static const uint32_t w[16] = { 4, 3, 4, 3, 4, 3, 3, 3, 4, 2, 2, 3, 2, 2, 2, 2 };
        I& it = *s[i].get();
        u128& p = pos[i];
        const u128 old = p;
        uint32_t op = pickw(w, 16);
        uint32_t j = pick(SLOTS);
        u128 to = pick(3) ? spot() : p;
        bool up = to >= p;
        u128 d = up ? to - p : p - to;
        bool small = !(d >> 63);
        ev("  %s %u at %s of %s: op %u to %s, other %u", name, i, num(p).s, num(m.n).s, op, num(to).s, j);
        sig(mix(mix(hash_bytes(key, strlen(key)), op * 4u + (p == 0) + 2u * (p == m.n)), uint64_t(to == 0) + 2 * (to == m.n) + 4 * up + 8 * (range.get() != nullptr)));
        switch (op) {
            case 0: if (p < m.n) { I& x = ++it; ++p; if (&x != &it) fail("walk", key, "pre-increment returns another iterator"); } break;
            case 1: if (p < m.n) { I x = it++; ++p; member(x, old, "result of post-increment"); order(x, old, it, p, "post-increment"); } break;
            case 2: if (p > 0) { I& x = --it; --p; if (&x != &it) fail("walk", key, "pre-decrement returns another iterator"); } break;
            case 3: if (p > 0) { I x = it--; --p; member(x, old, "result of post-decrement"); order(x, old, it, p, "post-decrement"); } break;
            case 4: if (small) { I& x = it += (up ? int64_t(d) : -int64_t(d)); p = to; if (&x != &it) fail("walk", key, "+= returns another iterator"); } break;
            case 5: if (small) { I& x = it -= (up ? -int64_t(d) : int64_t(d)); p = to; if (&x != &it) fail("walk", key, "-= returns another iterator"); } break;
            case 6: if (Big<U>::fits(d)) { if (up) it += Big<U>::to(d); else it -= Big<U>::to(d); p = to; } break;
            case 7: {
                I x = it;
                if (Big<U>::fits(d) && (!small || pick(2))) x = up ? (pick(2) ? it + Big<U>::to(d) : Big<U>::to(d) + it) : it - Big<U>::to(d);
                else if (small) x = pick(2) ? (pick(2) ? it + (up ? int64_t(d) : -int64_t(d)) : (up ? int64_t(d) : -int64_t(d)) + it) : it - (up ? -int64_t(d) : int64_t(d));
                else break;
                member(x, to, "result of + or -");
                order(x, to, it, p, "+ or -");
                if (s[j].get()) { *s[j].get() = x; pos[j] = to; }
                else { s[j].make(x); pos[j] = to; }
                break;
            }
            case 8:
                if (to < m.n) {
                    V v = Big<U>::fits(d) && up && (!small || pick(2)) ? it[Big<U>::to(d)] : small ? it[up ? int64_t(d) : -int64_t(d)] : *it;
                    if (small || (up && Big<U>::fits(d))) indexed(it, to, v);
                }
                break;
            case 9: if (s[j].get()) {
                if (pick(2)) {   // a former iterator of another range
                    I x = alien(*foreign.get(), pick(2) != 0, it);
                    x = it;
                    it = x;
                    if (i != j && pick(2)) { s[j].make(alien(*foreign.get(), pick(2) != 0, it)); *s[j].get() = it; pos[j] = p; }
                    break;
                } I keep = *s[j].get(); *s[j].get() = it; s[j].get()->operator=(*s[j].get()); it = keep; std::swap(p, pos[j]); } break;
            case 10: if (s[j].get()) { using std::swap; swap(*s[j].get(), it); std::swap(p, pos[j]); } break;
            case 11: if (i != j) { s[j].make(it); pos[j] = p; } break;
            case 12: if (i != j) { I x(std::move(it)); s[j].make(std::move(x)); pos[j] = p; } break;
            case 13: if (!(d >> 62)) { std::advance(it, up ? int64_t(d) : -int64_t(d)); p = to; } break;
            case 14: if (!(d >> 62)) {
                I x = up ? std::next(it, int64_t(d)) : std::prev(it, int64_t(d));
                member(x, to, "std::next or std::prev");
                int64_t n = std::distance(it, x);
                if (n != (up ? int64_t(d) : -int64_t(d))) fail("walk", key, "std::distance from %s to %s is %lld", num(p).s, num(to).s, (long long)n);
                it = x;
                p = to;
                break;
            }
            break;
            default: {
                uint32_t k = pick(40);
                for (; k > 0 && p < m.n; --k, ++it, ++p) member(it, p, "walking on");
                break;
            }
        }
        member(*s[i].get(), p, "the member after a step");
        for (uint32_t k = 0; k < SLOTS; ++k) if (s[k].get()) order(*s[i].get(), p, *s[k].get(), pos[k], "after a step");
    }
    void indexed(const It&, u128 to, const V& v) { expect(m, to, v, key, "indexed member"); }
    void indexed(const Rit&, u128 to, const V& v) { expect(m, m.n - 1 - to, v, key, "indexed member"); }
    void look() {
        R& c = *range.get();
        typedef typename R::difference_type D;
        if (c.empty() != (m.n == 0)) fail("walk", key, "empty() of a range of %s", num(m.n).s);
        if (Big<D>::fits(m.n) && Big<D>::from(c.size()) != m.n) fail("walk", key, "size() is %s, not %s", num(Big<D>::from(c.size())).s, num(m.n).s);
        order(c.end(), m.n, c.begin(), 0, "end and begin");
        order(c.rend(), m.n, c.rbegin(), 0, "rend and rbegin");
        if (m.n) {
            u128 k = spot();
            expect(m, 0, c.front(), key, "front()");
            expect(m, m.n - 1, c.back(), key, "back()");
            if (k < m.n && Big<D>::fits(k)) { expect(m, k, c[Big<D>::to(k)], key, "[]"); expect(m, k, c.at(Big<D>::to(k)), key, "at()"); }
            if (k < m.n && !(m.n >> 62)) {
                V v = *(c.begin() + Big<U>::to(k));
                It x = std::lower_bound(c.begin(), c.end(), v);
                if (x != c.begin() + Big<U>::to(k)) fail("walk", key, "lower_bound does not find position %s of %s", num(k).s, num(m.n).s);
            }
        }
    }
    void run(uint32_t steps) {
        int mode = int(pick(3)) == 2 ? 2 : 0;      // these operations need no memory
        for (uint32_t i = 0; i < steps; ++i) {
            alloc_begin(mode, 0);
            {
                Window w;
                uint32_t a = pick(12), i1 = pick(SLOTS);
                if (a == 0 && range.get()) {
                    Place<R> other;
                    other.make(*range.get());
                    range.make(*other.get());
                    look();
                } else if (a == 1 && range.get() && pick(4) == 0) {
                    ev("  the range is gone");
                    range.kill();
                } else if (a == 2 && range.get()) {
                    bool e = pick(2) != 0;
                    f[i1].make(e ? range.get()->end() : range.get()->begin());
                    fp[i1] = e ? m.n : 0;
                } else if (a == 3 && range.get()) {
                    bool e = pick(2) != 0;
                    r[i1].make(e ? range.get()->rend() : range.get()->rbegin());
                    rp[i1] = e ? m.n : 0;
                } else if (a == 4 && f[i1].get()) {
                    uint32_t k = pick(SLOTS);
                    r[k].make(*f[i1].get());
                    rp[k] = m.n - fp[i1];
                    ev("  reverse %u from forward %u at %s", k, i1, num(fp[i1]).s);
                } else if (a == 5 && r[i1].get()) {
                    uint32_t k = pick(SLOTS);
                    f[k].make(r[i1].get()->base());
                    fp[k] = m.n - rp[i1];
                    ev("  forward %u from reverse %u at %s", k, i1, num(rp[i1]).s);
                } else if (a < 10) {
                    if (f[i1].get()) go(f, fp, i1, "forward");
                } else if (r[i1].get()) {
                    go(r, rp, i1, "reverse");
                }
                count(C_OPS);
            }
            alloc_end();
        }
        for (uint32_t i = 0; i < SLOTS; ++i) {
            if (f[i].get()) member(*f[i].get(), fp[i], "the member in the end");
            if (r[i].get()) member(*r[i].get(), rp[i], "the member in the end");
        }
        // every walker gets to the end when it is near
        for (uint32_t i = 0; i < SLOTS; ++i)
            if (f[i].get() && m.n - fp[i] < 300) {
                It& it = *f[i].get();
                for (; fp[i] < m.n; ++fp[i], ++it) member(it, fp[i], "walking to the end");
                for (uint32_t k = 0; k < SLOTS; ++k) if (f[k].get()) order(it, fp[i], *f[k].get(), fp[k], "in the end");
            }
    }
};
template <class R> void walk(const R& range, const R& foreign, const Model& m, const char* key, uint32_t steps) {
    Walk<R> here, *w = &here;
    w->foreign.make(foreign);
    w->key = key;
    w->m = m;
    w->range.make(range);
    w->look();
    w->run(steps);
}
Val gen_plain(int kind) {
    Val v = gen_val(kind);
    v.slen = 0;
    v.scope[0] = 0;
    if (pick(4) == 0) {   // at the ends of the address space
        memset(v.b, pick(2) ? 0xff : 0, 16);
        mask_host(v);
    }
    if (pick(6) == 0) { v.plen = int(pick(4)); mask_host(v); }
    return v;
}
} // namespace
template <class Net> void hosts_of(const Val& v, uint32_t steps, const char* key) {
    Model m;
    int bits = v.six ? 128 : 32, h = bits - v.plen;
    u128 all = h == 128 ? U128_MAX : (u128(1) << h) - 1;     // the last host's number
    m.six = v.six;
    m.step = 1;
    m.plen = -1;
    m.base = value_of(v) + (h >= 2 ? 1 : 0);
    m.n = h >= 2 ? (v.six ? all : all - 1) : all + 1;
    Place<Net> net;
    net.make(Tr<Net>::make(v));
    auto range = net.get()->hosts();
    auto foreign = Tr<Net>::make(gen_plain(Tr<Net>::kind)).hosts();
    if (pick(2)) net.kill();
    walk(range, foreign, m, key, steps);
}
template <class Net> void subnets_of(const Val& v, uint32_t steps, const char* key) {
    Model m;
    int bits = v.six ? 128 : 32;
    if (bits == v.plen) return;
    int np = v.plen + 1 + int(pick(pick(2) ? uint32_t(bits - v.plen) : std::min(uint32_t(bits - v.plen), 8u)));
    if (pick(8) == 0) np = v.plen;
    if (np - v.plen == bits) np = bits - 1;                  // as many as the type of the size can tell
    m.six = v.six;
    m.plen = np;
    m.base = value_of(v);
    m.step = np == 0 ? 0 : u128(1) << (bits - np);
    m.n = u128(1) << (np - v.plen);
    Place<Net> net;
    net.make(Tr<Net>::make(v));
    ip::error_code c = ip::error_code::no_error;
    bool by = pick(2) != 0;
    auto range = by ? net.get()->subnets(c, 1, ip::optional<size_t>(size_t(np))) : net.get()->subnets(c, size_t(np - v.plen));
    if (c != ip::error_code::no_error) fail("walk", key, "subnets of %s with prefix length %d fail with %d", desc(v).s, np, int(c));
    auto foreign = Tr<Net>::make(gen_plain(Tr<Net>::kind)).subnets(c, 1);
    ev("subnets %s to %d", desc(v).s, np);
    if (pick(2)) net.kill();
    walk(range, foreign, m, key, steps);
}
// several walkers over one exclusion
template <class Net> void exclusion_of(const Val& v, uint32_t steps, const char* key) {
    typedef ip::exclude_network_sequence<Net> R;
    typedef typename R::const_iterator It;
    Val o = v;
    int bits = v.six ? 128 : 32;
    o.plen = v.plen + int(pick(uint32_t(bits - v.plen) + 1));
    for (int i = v.plen; i < o.plen; ++i) set_bit(o, i, pick(2) != 0);
    mask_host(o);
    static Val list[130];
    int n = 0;
    for (int p = v.plen + 1; p <= o.plen; ++p) {             // the other half at each level
        Val s = o;
        s.plen = p;
        set_bit(s, p - 1, !get_bit(o, p - 1));
        mask_host(s);
        list[n++] = s;
    }
    Place<Net> net, other;
    Place<R> range;
    net.make(Tr<Net>::make(v));
    other.make(Tr<Net>::make(o));
    ip::error_code c = ip::error_code::no_error;
    range.make(net.get()->address_exclude(*other.get(), c));
    if (c != ip::error_code::no_error) fail("walk", key, "exclusion of %s from %s fails with %d", desc(o).s, desc(v).s, int(c));
    ev("exclusion of %s from %s", desc(o).s, desc(v).s);
    if (pick(2)) net.kill();
    if (pick(2)) other.kill();
    if (range.get()->empty() != (n == 0)) fail("walk", key, "empty() of an exclusion of %d", n);
    Place<It> it[SLOTS], end;
    Val fv = gen_plain(Tr<Net>::kind), fo = fv;
    if (fo.plen < fo.maxp()) ++fo.plen;
    Place<R> foreign;
    foreign.make(Tr<Net>::make(fv).address_exclude(Tr<Net>::make(fo), c));
    int pos[SLOTS];
    end.make(range.get()->end());
    it[0].make(range.get()->begin());
    pos[0] = 0;
    int mode = int(pick(3)) == 2 ? 2 : 0;
    for (uint32_t s = 0; s < steps; ++s) {
        alloc_begin(mode, 0);
        {
            Window w;
            uint32_t i = pick(SLOTS), j = pick(SLOTS), op = pick(8);
            count(C_OPS);
            sig(mix(mix(hash_bytes(key, strlen(key)), op), uint64_t(n) * 8 + uint64_t(range.get() != nullptr)));
            if (!it[i].get()) {
                if (range.get()) { it[i].make(range.get()->begin()); pos[i] = 0; }
                else i = 0;
            }
            if (!it[i].get()) { alloc_end(); continue; }
            It& x = *it[i].get();
            ev("  walker %u at %d of %d: op %u, other %u", i, pos[i], n, op, j);
            switch (op) {
                case 0: case 1: if (pos[i] < n) { if (&++x != &x) fail("walk", key, "pre-increment returns another iterator"); ++pos[i]; } break;
                case 2: if (pos[i] < n) { It y = x++; if (!same(read_val(*y), list[pos[i]])) fail("walk", key, "result of post-increment at %d of %d is %s", pos[i], n, desc(read_val(*y)).s); ++pos[i]; } break;
                case 3: if (i != j) { it[j].make(x); pos[j] = pos[i]; } break;
                case 4: if (it[j].get()) { if (i != j && pick(2)) it[j].make(foreign.get()->begin()); *it[j].get() = x; pos[j] = pos[i]; } break;
                case 5: if (it[j].get()) { std::swap(*it[j].get(), x); std::swap(pos[i], pos[j]); } break;
                case 6: if (range.get() && pick(4) == 0) { Place<R> t; t.make(*range.get()); range.kill(); if (pick(2)) range.make(*t.get()); } break;
                default: if (pos[i] < n) { for (; pos[i] < n; ++pos[i], ++x) if (!same(read_val(*x), list[pos[i]])) fail("walk", key, "member %d of %d is %s", pos[i], n, desc(read_val(*x)).s); } break;
            }
            It& z = *it[i].get();
            count(C_CHECKS);
            if (pos[i] < n) {
                Val got = read_val(*z);
                if (!same(got, list[pos[i]])) fail("walk", key, "member %d of %d is %s, not %s", pos[i], n, desc(got).s, desc(list[pos[i]]).s);
                if (z.operator->() != &*z) fail("walk", key, "-> and * disagree");
            }
            if ((z == *end.get()) != (pos[i] == n) || (z != *end.get()) != (pos[i] != n)) fail("walk", key, "the end is at %d, not at %d", pos[i], n);
            for (uint32_t k = 0; k < SLOTS; ++k)
                if (it[k].get() && (z == *it[k].get()) != (pos[i] == pos[k])) fail("walk", key, "positions %d and %d compare %sequal", pos[i], pos[k], pos[i] == pos[k] ? "un" : "");
        }
        alloc_end();
    }
}
} // namespace sim
#endif
