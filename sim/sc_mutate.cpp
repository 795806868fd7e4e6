// C12: one object per task of mutations, most of which are rejected or run out of memory, against a
// model that changes only when the mutation reports success.
#include "ops.hpp"
#include <new>

namespace sim {
using namespace ops;

template <class T> struct Obj {
    alignas(16) unsigned char raw[sizeof(T) + 8];
    T* p;
    Val model;
    const char* step;
    char what[160];
};
// what the library must say about an object equal to the model
template <class T> static void verify(Obj<T>& o, const char* after) {
    Pause pause;
    count(C_CHECKS);
    Val now = read_val(*o.p);
    char key[120];
    snprintf(key, sizeof key, "%s.%s", kind_names[o.model.kind], o.step);
    if (!same(now, o.model)) fail("changed", key, "%s: the object is %s, expected %s (%s)", after, desc(now).s, desc(o.model).s, o.what);
    T fresh = Tr<T>::make(o.model);
    if (!(*o.p == fresh) || *o.p != fresh || *o.p < fresh || fresh < *o.p) fail("changed", key, "%s: the object does not compare equal to %s (%s)", after, desc(o.model).s, o.what);
    if (o.p->hash() != fresh.hash()) fail("changed", key, "%s: the object's hash is not that of %s (%s)", after, desc(o.model).s, o.what);
    std::string a = Str2<T>::go(*o.p, ip::format::compressed, DEC), b = Str2<T>::go(fresh, ip::format::compressed, DEC);
    if (a != b) fail("changed", key, "%s: the object's text is '%s', expected '%s' (%s)", after, a.c_str(), b.c_str(), o.what);
}
enum Res { RES_OK, RES_REJECT, RES_NOMEM };
static const char* const res_names[] = { "ok", "rejected", "bad_alloc" };

// f.run() is the mutation; the outcome is what it reports
template <class F> static Res attempt(F& f) {
    try {
        Window w;
        return f.run();
    } catch (const ip::error&) {
        count(C_EXC);
        return RES_REJECT;
    } catch (const std::bad_alloc&) {
        count(C_EXC);
        return RES_NOMEM;
    }
}
template <class T, class C> struct SetEc {
    T& t;
    const std::basic_string<C>& s;
    ip::error_code code;
    Res run() {
        t.set_scope_id(s, code);
        return code == ip::error_code::no_error ? RES_OK : RES_REJECT;
    }
};
template <class T, class C> struct SetTh {
    T& t;
    const std::basic_string<C>& s;
    Res run() {
        t.set_scope_id(s);
        return RES_OK;
    }
};
template <class T, class C, size_t N> struct SetArr {
    T& t;
    C d[N];
    Res run() {
        t.set_scope_id(d);
        return RES_OK;
    }
};
template <class T, class C, size_t N> struct SetArrEc {
    T& t;
    C d[N];
    ip::error_code code;
    Res run() {
        t.set_scope_id(d, code);
        return code == ip::error_code::no_error ? RES_OK : RES_REJECT;
    }
};
template <class T, class C, bool Net> struct ParseTo {
    T& t;
    const std::basic_string<C>& s;
    bool strict;
    Res run() {
        t = T::parse(s);
        return RES_OK;
    }
};
template <class T, class C> struct ParseTo<T, C, true> {
    T& t;
    const std::basic_string<C>& s;
    bool strict;
    Res run() {
        t = T::parse(s, strict);
        return RES_OK;
    }
};
template <class T, class C, bool Net> struct ParseArrTo {
    T& t;
    C d[48];
    bool strict;
    Res run() {
        t = T::parse(d);
        return RES_OK;
    }
};
template <class T, class C> struct ParseArrTo<T, C, true> {
    T& t;
    C d[48];
    bool strict;
    Res run() {
        t = T::parse(d, strict);
        return RES_OK;
    }
};

static bool plain(const std::string& s) {
    for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] >= 0x80 || s[i] == 0) return false;
    return true;
}
template <class C> static bool narrow_to(const std::basic_string<C>& s, std::string& out) {
    out.clear();
    for (size_t i = 0; i < s.size(); ++i) {
        uint64_t c = uint64_t(s[i]) & (sizeof(C) == 1 ? 0xff : sizeof(C) == 2 ? 0xffff : 0xffffffffu);
        if (c >= 0x80) return false;
        out.push_back(char(c));
    }
    return true;
}
template <class T> static void set_model_scope(Obj<T>& o, const std::string& s) {
    o.model.slen = int(s.size() > SCOPE_MAX ? SCOPE_MAX : s.size());
    memset(o.model.scope, 0, sizeof o.model.scope);
    memcpy(o.model.scope, s.data(), size_t(o.model.slen));
}
static void arm() {
    static const uint32_t w[4] = { 5, 4, 2, 1 };
    uint32_t m = pickw(w, 4);
    alloc_begin(m == 0 ? 4 : int(m), pick(m == 3 ? 2 : 4));
}

template <class T, class C> struct Steps {
    // scope ids: V6 and IP
    static void scope(Obj<T>& o, const In& in) {
        const std::basic_string<C>& text = TextOf<C>::get(in.scope);
        uint32_t form = pick(3);
        Res r;
        std::string plain_text;
        bool ascii = narrow_to(text, plain_text);
        ip::error_code stale = in.stale;
        static const char* const names[] = { "set_scope_id(code)", "set_scope_id", "set_scope_id(array)" };
        o.step = names[form];
        snprintf(o.what, sizeof o.what, "%s of '%.60s' (%s) over %.60s", o.step, narrow(text).c_str(), TextOf<C>::name(), desc(o.model).s);
        set_where("%s %s", o.step, o.what);
        arm();
        if (form == 0) {
            SetEc<T, C> f = { *o.p, text, stale };
            r = attempt(f);
        } else if (form == 1) {
            SetTh<T, C> f = { *o.p, text };
            r = attempt(f);
        } else {
            SetArr<T, C, SCOPE_MAX + 1> f = { *o.p, {} };
            for (size_t i = 0; i < SCOPE_MAX; ++i) f.d[i] = i < text.size() ? text[i] : C(0);
            if (plain_text.size() > SCOPE_MAX) plain_text.resize(SCOPE_MAX);
            size_t nul = plain_text.find('\0');
            if (nul != std::string::npos) plain_text.resize(nul);
            r = attempt(f);
        }
        alloc_end();
        ev("%s %s: %s", o.step, o.what, res_names[r]);
        count(r == RES_OK ? C_SUCCESS : C_FAILREP);
        sig(mix(hash_texts(in.scope), mix(uint64_t(form) * 8 + uint64_t(r), sizeof(C) + hash_val(o.model))));
        if (r == RES_OK && o.model.six && SCOPE_MAX) {   // on a version 4 address, or built without scope ids, the call does nothing
            char key[120];
            snprintf(key, sizeof key, "%s.%s", kind_names[o.model.kind], o.step);
            if (!ascii) {   // what such a text means is not the subject here
                Val now = read_val(*o.p);
                set_model_scope(o, std::string(now.scope, size_t(now.slen)));
            } else {
                if (plain_text.size() > SCOPE_MAX) fail("accepted", key, "reported success (%s)", o.what);
                set_model_scope(o, plain_text);
            }
        }
        verify(o, res_names[r]);
    }
    static void parse(Obj<T>& o, const In& in) {
        const bool net = Tr<T>::kind == N4 || Tr<T>::kind == N6 || Tr<T>::kind == IPN;
        const std::basic_string<C>& text = TextOf<C>::get(in.text);
        Val v;
        bool arr = text.size() < 48 && pick(3) == 0;
        bool ok = parse_ref<T>(text, in.strict, DEC, v);
        Res r;
        o.step = arr ? "parse(array)" : "parse";
        snprintf(o.what, sizeof o.what, "%s of '%.60s' (%s) over %.60s", o.step, narrow(text).c_str(), TextOf<C>::name(), desc(o.model).s);
        set_where("%s %s", o.step, o.what);
        arm();
        if (arr) {
            ParseArrTo<T, C, net> f = { *o.p, {}, in.strict };
            for (size_t i = 0; i < 48; ++i) f.d[i] = i < text.size() ? text[i] : C(0);
            r = attempt(f);
        } else {
            ParseTo<T, C, net> f = { *o.p, text, in.strict };
            r = attempt(f);
        }
        alloc_end();
        ev("%s %s: %s", o.step, o.what, res_names[r]);
        count(r == RES_OK ? C_SUCCESS : C_FAILREP);
        sig(mix(hash_texts(in.text), mix(16 + (arr ? 8 : 0) + uint64_t(r), sizeof(C) + hash_val(o.model))));
        if (r == RES_OK) {
            char key[120];
            snprintf(key, sizeof key, "%s.%s", kind_names[o.model.kind], o.step);
            if (!ok) fail("accepted", key, "reported success, the error-code form an error (%s)", o.what);
            o.model = v;
        }
        verify(o, res_names[r]);
    }
};
template <class T> struct FromAddr {
    T& t;
    typename std::remove_reference<decltype(std::declval<T>().network_address())>::type const a;
    size_t plen;
    bool strict;
    Res run() {
        t = T::from_address(a, plen, strict);
        return RES_OK;
    }
};
template <class T> struct Supernet {
    T& t;
    size_t diff;
    Res run() {
        t = t.supernet(diff);
        return RES_OK;
    }
};
template <class T> struct Subnet {
    T& t;
    size_t diff;
    Res run() {
        auto s = t.subnets(diff);
        t = s.empty() ? t : *s.begin();
        return RES_OK;
    }
};
template <class T> struct SupernetEc {
    T& t;
    size_t diff;
    ip::error_code code;
    Res run() {
        T n = t.supernet(code, diff);
        if (code != ip::error_code::no_error) return RES_REJECT;
        t = n;
        return RES_OK;
    }
};
template <class T> static void net_step(Obj<T>& o, const In& in) {
    Res r;
    Val expect = o.model;
    uint32_t form = pick(4);
    static const char* const names[] = { "from_address", "supernet", "subnets", "supernet(code)" };
    o.step = names[form];
    snprintf(o.what, sizeof o.what, "%s of %.50s diff %zu plen %zu over %.60s", o.step, desc(in.c).s, in.diff, in.plen, desc(o.model).s);
    set_where("%s %s", o.step, o.what);
    bool ok = true;
    arm();
    if (form == 0) {
        size_t plen = in.plen;
        alloc_plan().paused++;
        Val masked = in.c;
        masked.kind = o.model.kind;
        masked.plen = int(plen > 128 ? 128 : plen);
        ok = plen <= size_t(in.c.six ? 128 : 32);
        if (ok) { mask_host(masked); if (in.strict) { for (int i = 0; i < masked.size(); ++i) ok = ok && masked.b[i] == in.c.b[i]; } }
        FromAddr<T> f = { *o.p, Tr<typename std::remove_cv<typename std::remove_reference<decltype(std::declval<T>().network_address())>::type>::type>::make(in.c), plen, in.strict };
        alloc_plan().paused--;
        r = attempt(f);
        expect = masked;
    } else if (form == 1 || form == 3) {
        ok = o.model.plen == 0 || in.diff <= size_t(o.model.plen);   // /0 is its own supernet
        if (ok && o.model.plen > 0) { expect.plen -= int(in.diff); mask_host(expect); }
        if (form == 1) {
            Supernet<T> f = { *o.p, in.diff };
            r = attempt(f);
        } else {
            SupernetEc<T> f = { *o.p, in.diff, in.stale };
            r = attempt(f);
        }
    } else {
        int max = o.model.maxp();
        ok = in.diff <= size_t(max - o.model.plen);
        bool full = o.model.plen == max;
        if (ok && !full) expect.plen += int(in.diff);
        if (full) ok = true;   // the network itself, whatever the difference
        Subnet<T> f = { *o.p, in.diff };
        r = attempt(f);
    }
    alloc_end();
    ev("%s %s: %s", o.step, o.what, res_names[r]);
    count(r == RES_OK ? C_SUCCESS : C_FAILREP);
    sig(mix(hash_val(o.model), mix(in.diff * 64 + in.plen, 64 + form * 4 + uint64_t(r))));
    if (r == RES_OK) {
        Val got = read_val(*o.p);
        // scope ids of the operands are not the subject here
        if (!ok) {
            char key[120];
            snprintf(key, sizeof key, "%s.%s", kind_names[o.model.kind], o.step);
            fail("accepted", key, "an impossible request succeeded, the object is now %s (%s)", desc(got).s, o.what);
        }
        expect.slen = got.slen;
        memcpy(expect.scope, got.scope, sizeof got.scope);
        o.model = expect;
    }
    verify(o, res_names[r]);
}
template <class T, bool Net> struct NetStep { static void go(Obj<T>& o, const In& in) { net_step(o, in); } };
template <class T> struct NetStep<T, false> { static void go(Obj<T>&, const In&) {} };
template <class T, bool Six> struct ScopeStep {
    static void go(Obj<T>& o, const In& in) {
        switch (pick(4)) {
            case 0: Steps<T, char>::scope(o, in); break;
            case 1: Steps<T, wchar_t>::scope(o, in); break;
            case 2: Steps<T, char16_t>::scope(o, in); break;
            default: Steps<T, char32_t>::scope(o, in); break;
        }
    }
};
template <class T> struct ScopeStep<T, false> { static void go(Obj<T>&, const In&) {} };
template <class T> static void parse_step(Obj<T>& o, const In& in) {
    switch (pick(4)) {
        case 0: Steps<T, char>::parse(o, in); break;
        case 1: Steps<T, wchar_t>::parse(o, in); break;
        case 2: Steps<T, char16_t>::parse(o, in); break;
        default: Steps<T, char32_t>::parse(o, in); break;
    }
}
template <class T> static void play() {
    const int kind = Tr<T>::kind;
    const bool net = kind == N4 || kind == N6 || kind == IPN, six = kind == V6 || kind == IP;
    Obj<T> o;
    static const int fills[] = { 0, 0xff, 0x41 };
    memset(o.raw, fills[pick(3)], sizeof o.raw);
    o.model = gen_val(kind);
    o.p = new (o.raw) T(Tr<T>::make(o.model));
    o.step = "construction";
    o.what[0] = 0;
    verify(o, "start");
    uint32_t steps = 4 + pick(16);
    for (uint32_t i = 0; i < steps; ++i) {
        In in = gen_in(kind);
        if (in.stale != ip::error_code::no_error) count(F_STALE_CODE);
        uint32_t w[4] = { six ? 6u : 0u, net ? 5u : 0u, 4u, 1u };
        switch (pickw(w, 4)) {
            case 0: ScopeStep<T, six>::go(o, in); break;
            case 1: NetStep<T, net>::go(o, in); break;
            case 2: parse_step(o, in); break;
            default: {   // another value altogether
                o.model = pick(2) ? in.a : near(o.model);
                T t = Tr<T>::make(o.model);
                o.step = "assignment";
                if (pick(2)) *o.p = t; else std::swap(*o.p, t);
                ev("assign %s", desc(o.model).s);
                verify(o, "ok");
            }
        }
    }
}
SIM_SCENARIO(C12) {
    switch (pick(8)) {
        case 0: play<ip::ipv4_address>(); break;
        case 1: case 2: play<ip::ipv6_address>(); break;
        case 3: case 4: play<ip::ip_address>(); break;
        case 5: play<ip::ipv4_network>(); break;
        case 6: play<ip::ipv6_network>(); break;
        default: play<ip::ip_network>(); break;
    }
}
} // namespace sim
