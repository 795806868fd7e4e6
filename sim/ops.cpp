#include "ops.hpp"
#include <cerrno>

namespace sim {
namespace ops {

const char* const exc_names[] = { "none", "bad_alloc", "parse_error", "logic_error", "error", "std::exception", "other" };
std::locale* g_imbue = nullptr;
void (*g_on_stream)() = nullptr;

// ---- arguments ----
template <class C> static void put_units(std::basic_string<C>& d, const std::vector<uint32_t>& units) {
    for (size_t i = 0; i < units.size(); ++i) d.push_back(C(units[i]));
}
Texts make_texts(const std::string& s, bool odd) {
    Texts t;
    size_t at = odd ? pick(uint32_t(s.size() + 1)) : 0;
    uint32_t which = odd ? pick(10) : 0;
    bool instead = odd && at < s.size() && pick(2);
    static const std::vector<uint32_t> b[10] = { { 0xff }, { 0xc0, 0xaf }, { 0xe2, 0x82 }, { 0xef, 0xbc, 0x91 }, { 0xf0, 0x9f, 0x98, 0x80 }, { 0x80 }, { 0xd9, 0xa1 }, { 0x7f }, { 0xf8, 0x88, 0x80, 0x80 }, { 0x1 } };
    static const std::vector<uint32_t> u[10] = { { 0xd800 }, { 0xdc00 }, { 0xd800, 0x31 }, { 0xff11 }, { 0xd83d, 0xde00 }, { 0xffff }, { 0x661 }, { 0x131 }, { 0x130 }, { 0xfffd } };
    static const std::vector<uint32_t> l[10] = { { 0xd800 }, { 0x110000 }, { 0xffffffffu }, { 0xff11 }, { 0x1f600 }, { 0x10000 + '1' }, { 0x661 }, { 0x131 }, { 0x100 + '2' }, { 0x10ffff } };
    for (size_t i = 0; i <= s.size(); ++i) {
        if (odd && i == at) {
            put_units(t.c, b[which]);
            put_units(t.w, l[which]);
            put_units(t.u, u[which]);
            put_units(t.l, l[which]);
#ifdef SIM_CHAR8
            put_units(t.e, b[which]);
#endif
            if (instead) continue;
        }
        if (i == s.size()) break;
        unsigned char c = (unsigned char)s[i];
        t.c.push_back(char(c));
        t.w.push_back(wchar_t(c));
        t.u.push_back(char16_t(c));
        t.l.push_back(char32_t(c));
#ifdef SIM_CHAR8
        t.e.push_back(char8_t(c));
#endif
    }
    return t;
}
template <class C> static uint64_t hs(const std::basic_string<C>& s, uint64_t h) { return hash_bytes(s.data(), s.size() * sizeof(C), mix(h, s.size())); }
uint64_t hash_texts(const Texts& t) {
    uint64_t h = hs(t.c, 1);
    h = hs(t.w, h);
    h = hs(t.u, h);
    h = hs(t.l, h);
#ifdef SIM_CHAR8
    h = hs(t.e, h);
#endif
    return h;
}
static Val related(const Val& v) {
    switch (pick(5)) {
        case 0: return v;
        case 1: return near(v);
        case 2: {   // inside v
            Val r = v;
            if (!is_net(v.kind)) return near(v);
            int max = v.maxp();
            r.plen = v.plen + int(pick(uint32_t(max - v.plen < 12 ? max - v.plen + 1 : 12)));
            for (int i = v.plen; i < r.plen; ++i) set_bit(r, i, pick(2) != 0);
            return r;
        }
        case 3: {   // around v
            Val r = v;
            if (!is_net(v.kind)) return near(v);
            r.plen = v.plen - int(pick(uint32_t(v.plen < 12 ? v.plen + 1 : 12)));
            mask_host(r);
            return r;
        }
        default: return gen_val(v.kind);
    }
}
In gen_in(int kind) {
    In in;
    in.kind = kind;
    in.a = gen_val(kind);
    in.b = related(in.a);
    in.u = gen_val(U128);
    in.u2 = pick(2) ? near(in.u) : gen_val(U128);
    if (kind == U128) in.c = in.u2;
    else {
        int ak = kind == V4 || kind == N4 ? V4 : kind == V6 || kind == N6 ? V6 : IP;
        if (pick(3)) {
            in.c = addr_of(in.a);
            in.c.kind = ak;
            if (pick(2)) in.c = near(in.c);
        } else in.c = gen_val(ak);
    }
    static const uint32_t dw[8] = { 6, 3, 4, 3, 2, 1, 1, 1 };
    static const size_t dv[8] = { 1, 0, 2, 3, 8, 40, 200, size_t(-1) };
    in.diff = dv[pickw(dw, 8)];
    in.has_np = chance(1, 3);
    int max = in.a.maxp();
    if (in.has_np) {
        if (pick(3)) in.diff = 1;
        int p = in.a.plen + int(pick(9)) - 4;
        in.np = p < 0 ? 0 : size_t(p);
        if (pick(12) == 0) in.np = pick(2) ? size_t(max + 1 + int(pick(5))) : size_t(-1);
    }
    in.plen = is_net(kind) && pick(2) ? size_t(in.a.plen) : pick(uint32_t(max + 1));
    if (in.c.six != in.a.six) in.plen = in.plen % (in.c.six ? 129 : 33);
    in.strict = !chance(1, 3);
    in.fmt = int(pick(3));
    in.base = Base(pick(3));
    bool inv = chance(2, 5), hb = !in.strict || chance(1, 4);   // in sequence: the order of arguments is the compiler's
    Token t = gen_token(kind, in.base, inv, hb);
    in.conforming = t.valid && (in.strict ? !t.needs_non_strict : true);
    bool odd = chance(1, 6);
    if (odd) in.conforming = false;
    if (pick(14) == 0) {   // texts longer than anything valid (messages quote the first 100 characters)
        in.conforming = false;
        size_t n = pick(3) == 0 ? 96 + pick(10) : 60 + pick(200);
        std::string more;
        while (t.text.size() + more.size() < n) {
            if (pick(3)) { more += t.text; continue; }
            const size_t k = 1 + pick(9);
            more += std::string(k, "0f9:.%x"[pick(7)]);
        }
        t.text += more;
        if (pick(2)) t.text.resize(n);
    }
    in.text = make_texts(t.text, odd);
    Val sv = in.c;
    sv.slen = 0;
    std::string sc;
    static const char sym[] = "ab01.:-_xYZ9\x7f";
    uint32_t sk = pick(6);
    size_t n = sk == 0 ? SCOPE_MAX + 1 + pick(20) : pick(2) ? pick(SCOPE_MAX + 1) : 1 + pick(4);
    for (size_t i = 0; i < n; ++i) sc.push_back(sk == 4 ? char('0' + pick(10)) : sym[pick(sizeof sym - 1)]);
    if (sk == 1 && n) {
        uint32_t at = pick(uint32_t(n));
        sc[at] = "%/ \t\r\n\v\f"[pick(8)];
    }
    in.scope = make_texts(sc, sk == 2);
    in.stale = chance(1, 2) ? ip::error_code(1 + pick(30)) : ip::error_code::no_error;
    if (in.stale != ip::error_code::no_error) count(F_STALE_CODE);
    in.width = pick(4) ? 0 : int(pick(60));
    in.fill = "* 0x"[pick(4)];
    in.flags = pick(32);
    in.arr = pick(3);
    in.shift = int(pick(128));
    return in;
}
uint64_t hash_in(const In& in) {
    uint64_t h = mix(uint64_t(in.kind), hash_val(in.a));
    h = mix(h, hash_val(in.b));
    h = mix(h, hash_val(in.c));
    h = mix(h, hash_val(in.u));
    h = mix(h, hash_val(in.u2));
    h = mix(h, in.diff * 7 + in.np + (in.has_np ? 1000 : 0) + (in.strict ? 2000 : 0) + in.plen * 4096);
    h = mix(h, hash_texts(in.text));
    return mix(h, hash_texts(in.scope));
}
Text desc_in(const In& in) {
    Pause p;
    Text t;
    char b[120];
    snprintf(b, sizeof b, "%s", desc(in.b).s);
    snprintf(t.s, sizeof t.s, "%s, b=%.60s '%.70s'%s scope '%.40s' diff %zd np %zd", desc(in.a).s, b, narrow(in.text.c).c_str(), in.strict ? "" : " non-strict", narrow(in.scope.c).c_str(), ssize_t(in.diff), in.has_np ? ssize_t(in.np) : -1);
    return t;
}

// ---- outcomes ----
void Out::num_text(const char* tag, const char* shown, uint64_t x) {
    h = mix(mix(h, hash_bytes(tag, strlen(tag))), x);
    ++items;
    if (tn + 160 < sizeof text) {
        int n = snprintf(text + tn, sizeof text - tn, "%s%s=%s", tn ? " " : "", tag, shown);
        if (n > 0) tn += size_t(n) < sizeof text - tn ? size_t(n) : sizeof text - tn - 1;
    }
}
void Out::num(const char* tag, uint64_t v) {
    Pause p;
    char b[24];
    snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    num_text(tag, b, v);
}
void Out::bytes(const char* tag, const void* p, size_t n) {
    Pause pause;
    num_text(tag, "(bytes)", hash_bytes(p, n));
}
void Out::val(const char* tag, const Val& v) { num_text(tag, desc(v).s, hash_val(v)); }

bool same(const Out& a, const Out& b) {
    if (a.h != b.h || a.items != b.items || a.exc != b.exc || a.code != b.code || a.what_h != b.what_h || a.stream != b.stream || a.state != b.state || a.an != b.an || a.val_h != b.val_h) return false;
    return memcmp(a.acc, b.acc, a.an * sizeof a.acc[0]) == 0;
}
static void show(const Out& o, char* buf, size_t n) {
    char acc[100];
    size_t k = 0;
    for (size_t i = 0; i < o.an && k + 1 < sizeof acc; ++i) acc[k++] = o.acc[i] >= 0x20 && o.acc[i] < 0x7f ? char(o.acc[i]) : '?';
    acc[k] = 0;
    if (o.stream) snprintf(buf, n, "[%s code %d '%.200s' state %s sink '%s' %s | %.400s]", exc_names[o.exc], o.code, o.what, state_str(std::ios_base::iostate(o.state)), acc, o.touched ? "object changed" : "", o.text);
    else snprintf(buf, n, "[%s code %d '%.200s' | %.600s]", exc_names[o.exc], o.code, o.what, o.text);
}
void diff(const Out& a, const Out& b, char* buf, size_t n) {
    char x[900], y[900];
    show(a, x, sizeof x);
    show(b, y, sizeof y);
    snprintf(buf, n, "%s against %s", x, y);
}
uint64_t hash_out(const Out& o) {
    uint64_t h = mix(mix(o.h, uint64_t(o.exc)), mix(uint64_t(o.code + 1), o.what_h));
    h = mix(h, hash_bytes(o.acc, o.an * sizeof o.acc[0]));
    return mix(h, mix(uint64_t(o.state), o.val_h));
}

static void set_what(Out& o, const char* w) {
    snprintf(o.what, sizeof o.what, "%s", w);
    o.what_h = hash_bytes(w, strlen(w));
    o.wn = strlen(w);
}
void guard(void (*f)(void*, Out&), void* p, Out& out) {
#ifdef IPADDRESS_NO_EXCEPTIONS
    // the standard library still throws
#endif
    try {
        Window w;
        f(p, out);
    } catch (const ip::parse_error& e) {
        Pause pause;
        out.exc = X_PARSE;
        out.code = int(e.code());
        set_what(out, e.what());
        count(C_EXC);
    } catch (const ip::logic_error& e) {
        Pause pause;
        out.exc = X_LOGIC;
        out.code = int(e.code());
        set_what(out, e.what());
        count(C_EXC);
    } catch (const ip::error& e) {
        Pause pause;
        out.exc = X_ERROR;
        out.code = int(e.code());
        set_what(out, e.what());
        count(C_EXC);
    } catch (const std::bad_alloc&) {
        out.exc = X_BAD_ALLOC;
        count(C_EXC);
    } catch (const std::exception& e) {
        Pause pause;
        out.exc = X_STD;
        set_what(out, e.what());
        count(C_EXC);
    } catch (...) {
        out.exc = X_OTHER;
        count(C_EXC);
    }
}
} // namespace ops
} // namespace sim
