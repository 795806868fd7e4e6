#include "vals.hpp"
#include <cstdlib>

namespace sim {
const char* const kind_names[NKINDS] = { "ipv4_address", "ipv6_address", "ip_address", "ipv4_network", "ipv6_network", "ip_network", "uint128_t" };

bool same(const Val& a, const Val& b) {
    if (a.kind != b.kind) return false;
    if (a.kind == U128) return memcmp(a.b, b.b, 16) == 0;
    if (a.six != b.six || memcmp(a.b, b.b, a.size()) != 0) return false;
    if (a.slen != b.slen || memcmp(a.scope, b.scope, size_t(a.slen)) != 0) return false;
    return !is_net(a.kind) || a.plen == b.plen;
}
Text desc(const Val& v) {
    Text t;
    int o = snprintf(t.s, sizeof t.s, "%s:%d:", kind_names[v.kind], v.six ? 6 : 4);
    for (int i = 0; i < v.size(); ++i) o += snprintf(t.s + o, sizeof t.s - o, "%02x", v.b[i]);
    if (v.slen) {
        t.s[o++] = '%';
        for (int i = 0; i < v.slen; ++i) t.s[o++] = v.scope[i];
        t.s[o] = 0;
    }
    if (is_net(v.kind)) o += snprintf(t.s + o, sizeof t.s - o, "/%d", v.plen);
    return t;
}
uint64_t hash_val(const Val& v) {
    uint64_t h = hash_bytes(v.b, size_t(v.size()));
    h = hash_bytes(v.scope, size_t(v.slen), h);
    return mix(h, uint64_t(v.plen * 16 + v.kind));
}
bool get_bit(const Val& v, int bit) { return v.b[bit >> 3] >> (7 - (bit & 7)) & 1; }
void set_bit(Val& v, int bit, bool on) {
    unsigned char m = (unsigned char)(0x80 >> (bit & 7));
    if (on) v.b[bit >> 3] |= m; else v.b[bit >> 3] &= (unsigned char)~m;
}
void mask_host(Val& v) {
    for (int i = v.plen; i < v.maxp(); ++i) set_bit(v, i, false);
}
Val addr_of(const Val& v) {
    Val a = v;
    a.kind = v.six ? V6 : V4;
    a.plen = 0;
    return a;
}

static const unsigned char v4_edges[][4] = {
    {0,0,0,0}, {127,0,0,1}, {10,0,0,0}, {192,168,0,1}, {255,255,255,255}, {224,0,0,1}, {169,254,1,2}, {100,64,0,1}, {172,16,0,0},
    {192,0,0,8}, {192,0,0,170}, {198,18,0,1}, {203,0,113,9}, {240,0,0,0}, {9,10,99,100}, {199,200,249,250}, {1,0,0,255}, {191,255,255,255},
    {192,88,99,1}, {0,255,0,255}, {192,0,2,1}, {198,51,100,200}, {128,0,0,0}, {100,127,255,255}, {11,0,0,0}, {172,32,0,0}
};
static void gen4(unsigned char* b) {
    static const uint32_t w[] = { 6, 6, 4 };
    switch (pickw(w, 3)) {
        case 0: memcpy(b, v4_edges[pick(sizeof v4_edges / 4)], 4); break;
        case 1: for (int i = 0; i < 4; ++i) b[i] = (unsigned char)pick(256); break;
        default: {
            static const unsigned char oct[] = { 0, 1, 9, 10, 19, 20, 99, 100, 101, 127, 128, 199, 200, 249, 250, 254, 255 };
            for (int i = 0; i < 4; ++i) b[i] = oct[pick(sizeof oct)];
        }
    }
}
static const char* const v6_edges[] = {
    "00000000000000000000000000000000", "00000000000000000000000000000001", "ffffffffffffffffffffffffffffffff",
    "00000000000000000000ffff0a000001", "00000000000000000000ffffc0a80102", "20010000417690ff0000ec2f3f57fed4", "20010000000000000000000000000000",
    "2002c0a8010200000000000000000001", "fe80000000000000021122fffe334455", "fe80000000000000000000000000abcd", "ff020000000000000000000000000001",
    "fc000000000000000000000000000001", "fec00000000000000000000000000001", "20010db8000000000001000000000001", "20010db8000000010000000000000001",
    "00010000000000000001000000000000", "00000000000000010000000000000000", "20010db885a308d313198a2e03707334", "0064ff9b000000000000000001020304",
    "01000000000000000000000000000000", "00000001000000010000000100000001", "20010002000000000000000000000000", "febfffffffffffffffffffffffffffff",
    "3fff0000000000000000000000000000", "5f000000000000000000000000000000", "00000000000000000000000001020304", "20010001000000000000000000000001",
    "200100040112000000000000000000ff", "20010020000000000000000000000000", "2001003f000000000000000000000000"
};
static void gen6(unsigned char* b) {
    memset(b, 0, 16);
    static const uint32_t w[] = { 6, 4, 6, 4, 3, 3, 3 };
    switch (pickw(w, 7)) {
        case 0: {
            const char* h = v6_edges[pick(sizeof v6_edges / sizeof *v6_edges)];
            for (int i = 0; i < 16; ++i) { char t[3] = { h[2 * i], h[2 * i + 1], 0 }; b[i] = (unsigned char)strtoul(t, nullptr, 16); }
            break;
        }
        case 1: for (int i = 0; i < 16; ++i) b[i] = (unsigned char)pick(256); break;
        case 2: {   // hextets with a given zero pattern: every choice of runs
            uint32_t zero = pick(256);
            for (int i = 0; i < 8; ++i) if (!(zero >> i & 1)) {
                static const unsigned v[] = { 1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xabcd, 0xa, 0x9f, 0xa0, 0xdef };
                unsigned x = pick(3) ? v[pick(sizeof v / sizeof *v)] : 1 + pick(65535);
                b[2 * i] = (unsigned char)(x >> 8);
                b[2 * i + 1] = (unsigned char)x;
            }
            break;
        }
        case 3: {   // one run of zeros
            int s = int(pick(8)), n = 1 + int(pick(uint32_t(8 - s)));
            for (int i = 0; i < 16; ++i) b[i] = (unsigned char)(1 + pick(255));
            for (int i = s; i < s + n; ++i) b[2 * i] = b[2 * i + 1] = 0;
            break;
        }
        case 4: {   // mapped, 6to4, teredo, compatible
            unsigned char a[4];
            gen4(a);
            switch (pick(4)) {
                case 0: b[10] = b[11] = 0xff; memcpy(b + 12, a, 4); break;
                case 1: b[0] = 0x20; b[1] = 0x02; memcpy(b + 2, a, 4); b[15] = (unsigned char)pick(256); break;
                case 2: b[0] = 0x20; b[1] = 0x01; memcpy(b + 4, a, 4); b[9] = (unsigned char)pick(256); gen4(b + 12); break;
                default: memcpy(b + 12, a, 4);
            }
            break;
        }
        case 5: {   // fe80 / ff0x / fc00 with a short tail
            static const unsigned char p[][2] = { {0xfe, 0x80}, {0xff, 0x02}, {0xff, 0x01}, {0xfc, 0}, {0xfd, 0x12}, {0xfe, 0xc0}, {0x20, 0x01} };
            memcpy(b, p[pick(7)], 2);
            int n = 1 + int(pick(8));
            for (int i = 16 - n; i < 16; ++i) b[i] = (unsigned char)pick(256);
            break;
        }
        default: {  // all ones with a hole
            memset(b, 0xff, 16);
            { uint32_t at = pick(16); b[at] = (unsigned char)pick(256); }
        }
    }
}
static const char scope_chars[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-.@:!#$&+,;<=>?~";
void gen_scope(Val& v, int len) {
    memset(v.scope, 0, sizeof v.scope);
    v.slen = 0;
    if (SCOPE_MAX == 0) return;            // built without scope ids
    v.slen = len;
    uint32_t mode = pick(3);
    if (mode == 2 && len <= 9) {          // numeric
        for (int i = 0; i < len; ++i) v.scope[i] = char('0' + pick(10));
    } else if (mode == 1) {               // interface name
        static const char* const names[] = { "eth0", "lo", "wlan0", "enp0s31f6", "abcdefghijklmnop", "WLAN", "Ethernet1" };
        const char* n = names[pick(7)];
        int l = int(strlen(n));
        for (int i = 0; i < len; ++i) v.scope[i] = n[i % l];
    } else {
        for (int i = 0; i < len; ++i) v.scope[i] = scope_chars[pick(sizeof scope_chars - 1)];
    }
}
static void maybe_scope(Val& v) {
    if (!v.six || SCOPE_MAX == 0) return;
    static const uint32_t w[] = { 11, 4, 2, 3 };
    switch (pickw(w, 4)) {
        case 0: break;
        case 1: gen_scope(v, 1 + int(pick(SCOPE_MAX < 4 ? SCOPE_MAX : 4))); break;
        case 2: gen_scope(v, SCOPE_MAX); break;
        default: gen_scope(v, SCOPE_MAX > 5 ? 5 + int(pick(SCOPE_MAX - 5)) : 1 + int(pick(SCOPE_MAX)));
    }
}
Val gen_val(int kind) {
    Val v;
    v.kind = kind;
    v.six = kind == V6 || kind == N6 || ((kind == IP || kind == IPN) && pick(2));
    if (kind == U128) {
        switch (pick(6)) {
            case 0: v.b[15] = (unsigned char)pick(256); break;
            case 1: for (int i = 8; i < 16; ++i) v.b[i] = (unsigned char)pick(256); break;
            case 2: for (int i = 0; i < 16; ++i) v.b[i] = (unsigned char)pick(256); break;
            case 3: {   // powers of two and neighbours
                int bit = int(pick(128));
                set_bit(v, 127 - bit, true);
                if (pick(2)) {   // minus one
                    v = Val(); v.kind = U128;
                    for (int i = 0; i < bit; ++i) set_bit(v, 127 - i, true);
                }
                break;
            }
            case 4: {   // a power of ten, or one less
                unsigned __int128 x = 1;
                for (uint32_t n = pick(39); n > 0; --n) x *= 10;
                x -= pick(2);
                for (int i = 15; i >= 0; --i) { v.b[i] = (unsigned char)x; x >>= 8; }
                break;
            }
            default: { memset(v.b, 0xff, 16); uint32_t at = pick(16); v.b[at] = (unsigned char)(255 - pick(3)); }
        }
        return v;
    }
    if (v.six) gen6(v.b); else gen4(v.b);
    if (is_net(kind)) {
        static const int p6[] = { 0, 1, 7, 8, 10, 16, 23, 32, 47, 48, 56, 63, 64, 65, 96, 112, 120, 126, 127, 128 };
        static const int p4[] = { 0, 1, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 28, 30, 31, 32 };
        if (pick(3) == 0) v.plen = int(pick(uint32_t(v.maxp() + 1)));
        else v.plen = v.six ? p6[pick(sizeof p6 / sizeof *p6)] : p4[pick(sizeof p4 / sizeof *p4)];
        mask_host(v);
    }
    maybe_scope(v);
    return v;
}
Val gen_any() { return gen_val(int(pick(NKINDS))); }
Val near(const Val& v) {
    Val r = v;
    uint32_t m = pick(4);
    if (m == 1 && r.six && SCOPE_MAX > 0 && !(is_net(r.kind) && r.plen == 0)) {
        if (r.slen == 0) gen_scope(r, 1 + int(pick(SCOPE_MAX)));
        else if (pick(2)) { r.slen = 0; memset(r.scope, 0, sizeof r.scope); }
        else { int i = int(pick(uint32_t(r.slen))); r.scope[i] = r.scope[i] == 'x' ? 'y' : 'x'; }
        return r;
    }
    if (m == 2 && is_net(r.kind)) {
        r.plen = int(pick(uint32_t(r.maxp() + 1)));
        mask_host(r);
        return r;
    }
    int bits = r.kind == U128 ? 128 : is_net(r.kind) ? r.plen : r.maxp();
    if (bits == 0) return r;
    int bit = pick(2) ? bits - 1 - int(pick(uint32_t(bits > 8 ? 8 : bits))) : int(pick(uint32_t(bits)));
    set_bit(r, bit, !get_bit(r, bit));
    return r;
}

// ---- objects ----
ip::ipv4_address mk4(const Val& v) { return ip::ipv4_address::from_bytes(v.b, 4); }
ip::ipv6_address mk6(const Val& v) {
    ip::ipv6_address a = ip::ipv6_address::from_bytes(v.b, 16);
    if (v.slen) {
        Pause p;
        ip::error_code c = ip::error_code::no_error;
        a.set_scope_id(std::string(v.scope, size_t(v.slen)), c);
        if (c != ip::error_code::no_error) fail("construct", "set_scope_id", "valid scope id %.*s rejected with %d", v.slen, v.scope, int(c));
    }
    return a;
}
template <class N, class A> static N mknet(const A& a, const Val& v) {
    ip::error_code c = ip::error_code::no_error;
    N n = N::from_address(a, c, size_t(v.plen), true);
    if (c != ip::error_code::no_error) fail("construct", "from_address", "%s rejected with %d", desc(v).s, int(c));
    return n;
}
ip::ipv4_network mkn4(const Val& v) { return mknet<ip::ipv4_network>(mk4(v), v); }
ip::ipv6_network mkn6(const Val& v) { return mknet<ip::ipv6_network>(mk6(v), v); }

void rd(const ip::ipv4_address& a, Val& v) {
    v = Val();
    v.kind = V4;
    const uint8_t* d = a.data();
    memcpy(v.b, d, 4);
}
void rd(const ip::ipv6_address& a, Val& v) {
    Pause p;
    v = Val();
    v.kind = V6;
    v.six = true;
    memcpy(v.b, a.data(), 16);
    std::string s = a.get_scope_id().get_string();
    if (s.size() > SCOPE_MAX) fail("scope", "get_scope_id", "scope id of %zu characters", s.size());
    v.slen = int(s.size());
    memcpy(v.scope, s.data(), s.size());
}
void rd(const ip::ip_address& a, Val& v) {
    if (a.is_v4() == a.is_v6()) fail("version", "ip_address", "is_v4 == is_v6");
    if (a.is_v4()) rd(a.v4().value(), v); else rd(a.v6().value(), v);
    v.kind = IP;
}
static void check_mask(const Val& mask, const Val& v) {
    for (int i = 0; i < v.maxp(); ++i)
        if (get_bit(mask, i) != (i < v.plen)) fail("netmask", kind_names[v.kind], "%s has a netmask that does not match the prefix length", desc(v).s);
}
void rd(const ip::ipv4_network& n, Val& v) {
    rd(n.network_address(), v);
    v.kind = N4;
    v.plen = int(n.prefixlen());
    Val m;
    rd(n.netmask(), m);
    check_mask(m, v);
}
void rd(const ip::ipv6_network& n, Val& v) {
    rd(n.network_address(), v);
    v.kind = N6;
    v.plen = int(n.prefixlen());
    Val m;
    rd(n.netmask(), m);
    check_mask(m, v);
}
void rd(const ip::ip_network& n, Val& v) {
    if (n.is_v4() == n.is_v6()) fail("version", "ip_network", "is_v4 == is_v6");
    if (n.is_v4()) rd(n.v4().value(), v); else rd(n.v6().value(), v);
    v.kind = IPN;
}
void rd(const ip::uint128_t& u, Val& v) {
    v = Val();
    v.kind = U128;
    for (int i = 0; i < 8; ++i) {
        v.b[i] = (unsigned char)(u.upper() >> (56 - 8 * i));
        v.b[8 + i] = (unsigned char)(u.lower() >> (56 - 8 * i));
    }
}

// ---- text ----
std::string render_v4(const unsigned char* b) {
    char t[20];
    snprintf(t, sizeof t, "%d.%d.%d.%d", b[0], b[1], b[2], b[3]);
    return t;
}
static std::string hex4(unsigned x, int width, bool upper) {
    char t[8];
    snprintf(t, sizeof t, upper ? "%0*X" : "%0*x", width, x);
    return t;
}
static std::string digits(const Val& v, Base base, bool upper) {
    unsigned __int128 x = 0;
    for (int i = 0; i < 16; ++i) x = x << 8 | v.b[i];
    unsigned r = base == HEX ? 16 : base == OCT ? 8 : 10;
    std::string s;
    do { s.insert(s.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[unsigned(x % r)]); x /= r; } while (x);
    return s;
}
std::string render_canonical(const Val& v, ip::format f, Base base, bool upper) {
    std::string s;
    if (v.kind == U128) return digits(v, base, upper);
    if (!v.six) s = render_v4(v.b);
    else {
        int best = -1, bl = 1;
        if (f == ip::format::compressed)
            for (int i = 0; i < 8; ++i) {
                int n = 0;
                while (i + n < 8 && v.b[2 * (i + n)] == 0 && v.b[2 * (i + n) + 1] == 0) ++n;
                if (n > bl) { bl = n; best = i; }
            }
        for (int i = 0; i < 8; ++i) {
            if (i == best) { s += "::"; i += bl - 1; continue; }
            if (!s.empty() && s[s.size() - 1] != ':') s += ':';
            s += hex4(unsigned(v.b[2 * i]) << 8 | v.b[2 * i + 1], f == ip::format::full ? 4 : 1, upper);
        }
        if (v.slen) { s += '%'; s.append(v.scope, size_t(v.slen)); }
    }
    if (is_net(v.kind)) s += "/" + std::to_string(v.plen);
    return s;
}
// any accepted spelling of the address
std::string render_v6(const Val& v, int style) {
    std::string s;
    bool quad = style & 1, compress = style & 2, lead = style & 4, upper = style & 8;
    int groups = quad ? 6 : 8;
    int zs = -1, zn = 0;
    if (compress) {   // any run of zero groups, not only the longest
        int starts[40], lens[40], n = 0;
        for (int i = 0; i < groups; ++i)
            for (int l = 1; i + l <= groups; ++l) {
                bool z = true;
                for (int k = i; k < i + l; ++k) z = z && v.b[2 * k] == 0 && v.b[2 * k + 1] == 0;
                if (z && n < 40 && !(quad && l == 1)) { starts[n] = i; lens[n] = l; ++n; }
            }
        if (n) { uint32_t k = pick(uint32_t(n)); zs = starts[k]; zn = lens[k]; }
    }
    for (int i = 0; i < groups; ++i) {
        if (i == zs) { s += "::"; i += zn - 1; continue; }
        if (!s.empty() && s[s.size() - 1] != ':') s += ':';
        unsigned x = unsigned(v.b[2 * i]) << 8 | v.b[2 * i + 1];
        int width = lead ? 1 + int(pick(4)) : 1;   // one draw per statement: argument order differs between compilers
        bool up = upper && (style & 16 ? true : pick(2));
        s += hex4(x, width, up);
    }
    if (quad) {
        if (!s.empty() && s[s.size() - 1] != ':') s += ':';
        s += render_v4(v.b + 12);
    }
    if (v.slen) { s += '%'; s.append(v.scope, size_t(v.slen)); }
    return s;
}
std::string gen_garbage(int kind) {
    static const char* const bad[] = {
        "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.1000", "01.2.3.4", "1..2.3", ".1.2.3", "1.2.3.", "1.2.3.4/33", "1.2.3.4/", "1.2.3.0/24/1", "1.2.3.4/-1",
        ":", ":::", "1:2", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1::2", "12345::", "g::", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", "::1%", "::1%a%b",
        "::1%abcdefghijklmnopq", "::/129", "::1/64", "::ffff:1.2.3", "::1.2.3.4:5", "fe80::%/64", "1.2.3.4%1", "1.2.3.4/255.0.255.0", "10.0.0.1/8",
        "-1", "+5", "0x1g", "99z", "1e5", "--", "/", "%", "/8", "%eth0", "12 34",
        "0x1f", "0X1F", "0x", "+12", "017", "1.2.3.4/99999999999999999999", "1.2.3.4/4294967320", "::/18446744073709551680", "::/4294967360", "1.2.3.4/0000000000000000000024", "::1/00064", "1.2.3.4/ 8",
        "4294967297.2.3.4", "1.2.3.18446744073709551620", "340282366920938463463374607431768211456", "3402823669209384634633746074317682114550", "100000000000000000000000000000000", "4000000000000000000000000000000000000000000",
        "::10000", "0:0:0:0:0:0:0:00001", "1.2.3.4/255.255.255.256", "1.2.3.4/0.0.0.256", "1.2.3.4/::", "::/1.2.3.4", "::/ffff::", "::ffff:1.2.3.256", "::1.2.3.4.5", "1.2.3.4.", "::1%%", "::1%a/b", "::1%a/64%b", "1.2.3.4%eth0/24"
    };
    (void)kind;
    std::string s = bad[pick(sizeof bad / sizeof *bad)];
    size_t p = s.find(' ');
    if (p != std::string::npos) s.erase(p);
    if (pick(8) == 0) {   // longer than anything valid
        size_t n = 90 + pick(200);
        while (s.size() < n) {
            if (pick(2)) { s += s; continue; }
            const size_t k = 1 + pick(20);
            s += std::string(k, "0f9:.%x"[pick(7)]);
        }
        s.resize(n);
    }
    return s;
}
Token gen_token(int kind, Base base, bool allow_invalid, bool allow_host_bits) {
    Token t;
    if (allow_invalid && chance(1, 6)) {
        t.valid = false;
        t.v.kind = kind;
        count(F_BAD_TOKEN);
        if (pick(3) == 0) { t.text = gen_garbage(kind); return t; }
        // a valid token of some kind with one character changed, removed or added (it may still be valid: unknown)
        Token u = gen_token(pick(3) ? kind : int(pick(NKINDS)), base, false, false);
        std::string s = u.text;
        uint32_t at = pick(uint32_t(s.size()));
        static const char cs[] = "0159af:./%xG-_\x01\x7f\x80\xc3\xe2\xff";
        switch (pick(3)) {
            case 0: s[at] = cs[pick(sizeof cs - 1)]; break;
            case 1: s.erase(at, 1); break;
            default: s.insert(at, 1, cs[pick(sizeof cs - 1)]);
        }
        if (s.empty()) s = "?";
        t.text = s;
        return t;
    }
    Val v = gen_val(kind);
    if (kind == U128) {
        t.v = v;
        t.text = digits(v, base, base == HEX && pick(2));
        if (pick(8) == 0) t.text = std::string(pick(6) ? 1 + pick(3) : 1 + pick(150), '0') + t.text;
        return t;
    }
    Val shown = v;
    if (is_net(kind) && allow_host_bits && v.plen < v.maxp() && chance(1, 3)) {
        // host bits set: only accepted with non_strict, and then the address is masked (a scope is not kept)
        v.slen = 0; memset(v.scope, 0, sizeof v.scope);
        shown = v;
        int bit = v.plen + int(pick(uint32_t(v.maxp() - v.plen)));
        set_bit(shown, bit, true);
        if (pick(2)) set_bit(shown, v.maxp() - 1, true);
        t.needs_non_strict = true;
    }
    t.v = v;
    std::string s;
    if (v.six) {
        Val a = shown;
        switch (pick(4)) {
            case 0: a.kind = V6; s = render_canonical(a, ip::format::compressed, DEC, false); break;
            case 1: a.kind = V6; s = render_canonical(a, pick(2) ? ip::format::full : ip::format::compact, DEC, false); break;
            default: s = render_v6(a, int(pick(32)));
        }
    } else s = render_v4(shown.b);
    if (is_net(kind)) {
        if (v.plen == v.maxp() && pick(2)) {
            // no mask at all means the full prefix
        } else if (!v.six && pick(3) == 0) {
            Val m = v;
            bool host = v.plen > 0 && v.plen < 32 && pick(2);
            for (int i = 0; i < 32; ++i) set_bit(m, i, (i < v.plen) != host);
            s += "/" + render_v4(m.b);
        } else s += "/" + std::to_string(v.plen);
    }
    t.text = s;
    return t;
}
} // namespace sim
