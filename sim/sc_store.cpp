// C17: containers of the standard library keyed by the library's values, changed in any order while memory fails,
// against a model that knows only the places of the keys in the documented order.
#include "vals.hpp"
#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>

namespace sim {
namespace {
enum { MAXK = 48 };
// the documented order: version, address as a number, scope id as a text, prefix length
int before(const Val& a, const Val& b) {
    bool net = is_net(a.kind);
    if (a.kind != U128 && a.six != b.six) return a.six ? 1 : -1;
    if (int c = memcmp(a.b, b.b, size_t(a.size()))) return c;
    for (int i = 0; i < a.slen && i < b.slen; ++i)
        if (a.scope[i] != b.scope[i]) return a.scope[i] < b.scope[i] ? -1 : 1;
    if (a.slen != b.slen) return a.slen - b.slen;
    return net ? a.plen - b.plen : 0;
}
bool less_val(const Val& a, const Val& b) { return before(a, b) < 0; }

template <class T> struct Store {
    typedef std::set<T> Set;
    typedef std::unordered_map<T, int> Hash;
    typedef std::map<T, int> Map;
    typedef std::vector<T> Vec;
    Val keys[MAXK];
    int n;
    const char* kind;
    char key[80];
    int at;                                     // the key of the step
    bool in[2][MAXK];
    int val[2][MAXK], num[MAXK], heaped[MAXK];  // -1: absent
    Set* s[2];
    Hash* h[2];
    Map* m;
    Vec* heap;

    // an object equal to key k, come to by one of several ways
    T obj(int k) {
        Pause p;
        const Val& v = keys[k];
        switch (pick(4)) {
            case 0: return Tr<T>::make(v);
            case 1: { T t = Tr<T>::make(keys[pick(uint32_t(n))]); t = Tr<T>::make(v); return t; }
            case 2: { T t = Tr<T>::make(v); T o = Tr<T>::make(keys[pick(uint32_t(n))]); using std::swap; swap(t, o); return o; }
            default: { T t = Tr<T>::make(v), o(std::move(t)); return o; }
        }
    }
    void where(const char* c) { snprintf(key, sizeof key, "%s.%s", kind, c); }
    void is(const T& t, int k, const char* what) {
        count(C_CHECKS);
        Val v = read_val(t);
        if (!same(v, keys[k])) fail("store", key, "%s is %s, not %s", what, desc(v).s, desc(keys[k]).s);
    }
    // the key that t is equal to
    int which(const T& t, const char* what) {
        Val v = read_val(t);
        for (int i = 0; i < n; ++i) if (same(v, keys[i])) return i;
        fail("store", key, "%s is %s, which was never put in", what, desc(v).s);
    }
    void look_set(int i) {
        where("set");
        int size = 0, k = 0;
        for (k = 0; k < n; ++k) size += in[i][k];
        if (int(s[i]->size()) != size) fail("store", key, "the set has %d members, not %d, after %s", int(s[i]->size()), size, desc(keys[at]).s);
        k = 0;
        for (typename Set::const_iterator it = s[i]->begin(); it != s[i]->end(); ++it, ++k) {
            while (k < n && !in[i][k]) ++k;
            if (k == n) fail("store", key, "a member too many");
            is(*it, k, "a member of the set, in order,");
        }
    }
    void look_hash(int i) {
        where("unordered_map");
        int size = 0;
        for (int k = 0; k < n; ++k) size += val[i][k] >= 0;
        if (int(h[i]->size()) != size) fail("store", key, "the map has %d members, not %d, after %s", int(h[i]->size()), size, desc(keys[at]).s);
        for (typename Hash::const_iterator it = h[i]->begin(); it != h[i]->end(); ++it) {
            int k = which(it->first, "a member");
            if (val[i][k] != it->second) fail("store", key, "%s has the value %d, not %d", desc(keys[k]).s, it->second, val[i][k]);
        }
    }
    void look_map() {
        where("map");
        int k = 0;
        for (typename Map::const_iterator it = m->begin(); it != m->end(); ++it, ++k) {
            while (k < n && num[k] < 0) ++k;
            if (k == n) fail("store", key, "a member too many");
            is(it->first, k, "a key of the map, in order,");
            if (it->second != num[k]) fail("store", key, "%s has the value %d, not %d", desc(keys[k]).s, it->second, num[k]);
        }
        while (k < n && num[k] < 0) ++k;
        if (k != n) fail("store", key, "%s is missing", desc(keys[k]).s);
    }
    void compare() {
        where("order");
        for (int x = 0; x < 12; ++x) {
            int a = int(pick(uint32_t(n))), b = pick(3) ? int(pick(uint32_t(n))) : a;
            const T p = obj(a), q = obj(b);
            count(C_CHECKS);
            if ((p == q) != (a == b) || (p != q) != (a != b) || (p < q) != (a < b) || (p <= q) != (a <= b) || (p > q) != (a > b) || (p >= q) != (a >= b) || std::less<T>()(p, q) != (a < b))
                fail("store", key, "%s and %s: == %d != %d < %d <= %d > %d >= %d", desc(keys[a]).s, desc(keys[b]).s, p == q, p != q, p < q, p <= q, p > q, p >= q);
            if (a == b && (std::hash<T>()(p) != std::hash<T>()(q) || p.hash() != q.hash())) fail("store", key, "equal values %s with unequal hashes", desc(keys[a]).s);
#if defined(IPADDRESS_HAS_SPACESHIP_OPERATOR)
            if (((p <=> q) < 0) != (a < b) || ((p <=> q) == 0) != (a == b)) fail("store", key, "%s <=> %s is wrong", desc(keys[a]).s, desc(keys[b]).s);
#endif
        }
    }
    void order_of(int i) {     // the searches of an ordered container
        where("set");
        const T t = obj(at);
        int lo = at, up = at + 1;
        while (lo < n && !in[i][lo]) ++lo;
        while (up < n && !in[i][up]) ++up;
        typename Set::const_iterator f = s[i]->find(t), l = s[i]->lower_bound(t), u = s[i]->upper_bound(t);
        if ((f != s[i]->end()) != in[i][at] || s[i]->count(t) != size_t(in[i][at])) fail("store", key, "%s is %sfound", desc(keys[at]).s, in[i][at] ? "not " : "");
        if (f != s[i]->end()) is(*f, at, "what find gives");
        if ((l == s[i]->end()) != (lo == n) || (u == s[i]->end()) != (up == n)) fail("store", key, "bounds of %s", desc(keys[at]).s);
        if (lo < n) is(*l, lo, "lower_bound");
        if (up < n) is(*u, up, "upper_bound");
    }
    void sorting() {
        where("sort");
        int have[MAXK] = {}, size = int(pick(80));
        Vec v;
        {
            Pause p;
            for (int i = 0; i < size; ++i) { int k = int(pick(uint32_t(n))); v.push_back(obj(k)); ++have[k]; }
        }
        switch (pick(4)) {
            case 0: std::sort(v.begin(), v.end()); break;
            case 1: std::stable_sort(v.begin(), v.end()); break;
            case 2: std::make_heap(v.begin(), v.end()); std::sort_heap(v.begin(), v.end()); break;
            default:
                if (size) { size_t k = pick(uint32_t(size)); std::nth_element(v.begin(), v.begin() + long(k), v.end()); std::partial_sort(v.begin(), v.begin() + long(k), v.end()); }
                std::sort(v.begin(), v.end());
        }
        int k = 0, left = 0;
        for (int i = 0; i < size; ++i) {
            if (i == 0) left = have[0];
            while (left == 0) left = have[++k];
            is(v[size_t(i)], k, "a sorted element");
            --left;
        }
        int distinct = 0;
        for (k = 0; k < n; ++k) distinct += have[k] > 0;
        if (std::unique(v.begin(), v.end()) - v.begin() != distinct) fail("store", key, "unique leaves another number than %d", distinct);
        if (std::binary_search(v.begin(), v.begin() + distinct, obj(at)) != (have[at] > 0)) fail("store", key, "binary_search of %s", desc(keys[at]).s);
    }
    void unite() {
        where("set_union");
        Vec v;
        { Pause p; v.reserve(2 * MAXK); }
        uint32_t w = pick(3);
        if (w == 0) std::set_union(s[0]->begin(), s[0]->end(), s[1]->begin(), s[1]->end(), std::back_inserter(v));
        else if (w == 1) std::set_intersection(s[0]->begin(), s[0]->end(), s[1]->begin(), s[1]->end(), std::back_inserter(v));
        else std::set_difference(s[0]->begin(), s[0]->end(), s[1]->begin(), s[1]->end(), std::back_inserter(v));
        size_t i = 0;
        for (int k = 0; k < n; ++k) {
            bool a = in[0][k], b = in[1][k];
            if (w == 0 ? a || b : w == 1 ? a && b : a && !b) {
                if (i == v.size()) fail("store", key, "%s is missing", desc(keys[k]).s);
                is(v[i++], k, "a member of the result");
            }
        }
        if (i != v.size()) fail("store", key, "a member too many");
        if (std::includes(s[0]->begin(), s[0]->end(), v.begin(), v.end()) != (w != 0 || std::includes(s[0]->begin(), s[0]->end(), s[1]->begin(), s[1]->end()))) fail("store", key, "includes");
    }
    // one step; what throws leaves the model as it was
    void step(uint32_t op, int i) {
        int k = at;
        T t = obj(k);
        switch (op) {
            case 0: case 1: {
                where("set");
                std::pair<typename Set::iterator, bool> r;
                if (op == 0) { Window w; r = s[i]->insert(t); }
                else { Window w; r = s[i]->emplace(std::move(t)); }
                if (r.second == in[i][k]) fail("store", key, "insertion of %s reports %d", desc(keys[k]).s, r.second);
                in[i][k] = true;
                is(*r.first, k, "the inserted member");
                break;
            }
            case 2: {
                where("set");
                size_t r = s[i]->erase(t);
                if (r != size_t(in[i][k])) fail("store", key, "erasing %s removes %d", desc(keys[k]).s, int(r));
                in[i][k] = false;
                break;
            }
            case 3: order_of(i); break;
            case 4: case 5: {
                where("unordered_map");
                std::pair<typename Hash::iterator, bool> r;
                { Window w; r = h[i]->insert(std::make_pair(t, int(op))); }
                if (r.second == (val[i][k] >= 0)) fail("store", key, "insertion of %s reports %d", desc(keys[k]).s, r.second);
                if (r.second) val[i][k] = int(op);
                is(r.first->first, k, "the inserted member");
                break;
            }
            case 6: {
                where("unordered_map");
                { Window w; (*h[i])[t] += 3; }
                val[i][k] = (val[i][k] < 0 ? 0 : val[i][k]) + 3;
                break;
            }
            case 7: {
                where("unordered_map");
                if (pick(2)) {
                    size_t r = h[i]->erase(t);
                    if (r != size_t(val[i][k] >= 0)) fail("store", key, "erasing %s removes %d", desc(keys[k]).s, int(r));
                    val[i][k] = -1;
                } else {
                    typename Hash::const_iterator f = h[i]->find(t);
                    if ((f != h[i]->end()) != (val[i][k] >= 0) || h[i]->count(t) != size_t(val[i][k] >= 0)) fail("store", key, "%s is %sfound", desc(keys[k]).s, val[i][k] >= 0 ? "not " : "");
                    if (f != h[i]->end()) is(f->first, k, "what find gives");
                }
                break;
            }
            case 8: {
                where("unordered_map");
                Window w;
                if (pick(2)) h[i]->rehash(pick(90)); else h[i]->max_load_factor(pick(2) ? 0.5f : 4.f);
                break;
            }
            case 9: {
                if (pick(2)) {
                    Set c;
                    { Window w; Set d(*s[i]); c.swap(d); }
                    where("set");
                    if (c != *s[i]) fail("store", key, "a copy is unequal");
                    std::swap(*s[1 - i], c);
                    memcpy(in[1 - i], in[i], sizeof in[i]);
                } else {
                    Hash c;
                    { Window w; Hash d(*h[i]); c.swap(d); }
                    where("unordered_map");
                    if (c != *h[i]) fail("store", key, "a copy is unequal");
                    *h[1 - i] = std::move(c);
                    memcpy(val[1 - i], val[i], sizeof val[i]);
                }
                break;
            }
            case 10: {
                where("map");
                if (pick(3)) {
                    { Window w; ++(*m)[t]; }
                    num[k] = (num[k] < 0 ? 0 : num[k]) + 1;
                } else {
                    typename Map::iterator f = m->find(t);
                    if ((f != m->end()) != (num[k] >= 0)) fail("store", key, "%s is %sfound", desc(keys[k]).s, num[k] >= 0 ? "not " : "");
                    if (f != m->end()) { m->erase(f); num[k] = -1; }
                }
                look_map();
                break;
            }
            case 11: sorting(); break;
            case 12: unite(); break;
            default: {
                where("heap");
                if (heap->empty() || pick(3)) {
                    { Window w; heap->push_back(t); }
                    ++heaped[k];
                    std::push_heap(heap->begin(), heap->end());
                } else {
                    int top = n - 1;
                    while (top >= 0 && !heaped[top]) --top;
                    std::pop_heap(heap->begin(), heap->end());
                    is(heap->back(), top, "the greatest element");
                    heap->pop_back();
                    --heaped[top];
                }
            }
        }
    }
    void run() {
        Set sets[2];
        Hash hashes[2];
        Map mp;
        Vec hp;
        m = &mp; heap = &hp;
        for (int i = 0; i < 2; ++i) {
            s[i] = &sets[i]; h[i] = &hashes[i];
            for (int k = 0; k < MAXK; ++k) { in[i][k] = false; val[i][k] = -1; }
        }
        for (int k = 0; k < MAXK; ++k) { num[k] = -1; heaped[k] = 0; }
        compare();
        uint32_t steps = 4 + pick(120);
        for (uint32_t x = 0; x < steps; ++x) {
            uint32_t op = pick(14);
            int i = int(pick(2));
            at = int(pick(uint32_t(n)));
            ev("  step %u with %s (%d of %d), container %d", op, desc(keys[at]).s, at, n, i);
            count(C_OPS);
            alloc_begin(pick(4) == 0 ? 1 + int(pick(2)) : 0, pick(4));
            uint32_t fired = 0;
            try {
                step(op, i);
            } catch (const std::bad_alloc&) {
                count(C_EXC);
                if (!(fired = alloc_plan().fired)) fail("store", key, "bad_alloc, though memory was there");
            }
            alloc_end();
            sig(mix(mix(hash_bytes(kind, strlen(kind)), op * 2 + fired), uint64_t(keys[at].slen) << 32 | uint64_t(sets[i].size() * 64 + hashes[i].size())));
            if (op <= 3 || op == 9) look_set(i);
            if ((op >= 4 && op <= 7) || op == 8 || op == 9) look_hash(i);
            if (op == 9) { look_set(1 - i); look_hash(1 - i); }
            if (op == 10) look_map();
        }
        compare();
        for (int i = 0; i < 2; ++i) { look_set(i); look_hash(i); }
        look_map();
        // every member is found in the end
        where("unordered_map");
        for (int k = 0; k < n; ++k) if (hashes[0].count(obj(k)) != size_t(val[0][k] >= 0)) fail("store", key, "%s is %sfound in the end", desc(keys[k]).s, val[0][k] >= 0 ? "not " : "");
    }
};
struct Go {
    template <class T> void go() {
        Store<T>* st = new Store<T>;
        st->kind = kind_names[Tr<T>::kind];
        Val all[MAXK];
        int n = 0, want = 2 + int(pick(MAXK - 2));
        // families of related keys: most are a small step from one that is there
        for (int i = 0; i < want; ++i) {
            Val v = n && pick(6) ? near(all[pick(uint32_t(n))]) : gen_val(Tr<T>::kind);
            if (n && v.slen == 0 && pick(6) == 0 && Tr<T>::kind != U128 && Tr<T>::kind != V4 && Tr<T>::kind != N4) {   // the scope id of another key
                const Val& o = all[pick(uint32_t(n))];
                if (v.six && o.slen && !(is_net(v.kind) && v.plen == 0)) { v.slen = o.slen; memcpy(v.scope, o.scope, sizeof v.scope); }
            }
            if (n && (v.kind == IP || v.kind == IPN) && pick(6) == 0) {            // the other version of another key
                Val o = all[pick(uint32_t(n))];
                if (!o.six) {
                    Val m = o;
                    m.six = true;
                    memset(m.b, 0, 12);
                    if (pick(2)) m.b[10] = m.b[11] = 0xff;
                    memcpy(m.b + 12, o.b, 4);
                    m.plen = o.plen + (is_net(m.kind) ? 96 : 0);
                    v = m;
                } else {
                    bool low = pick(2) != 0;
                    v = o;
                    v.six = false; v.slen = 0;
                    memset(v.scope, 0, sizeof v.scope);
                    memset(v.b, 0, sizeof v.b);
                    memcpy(v.b, o.b + (low ? 12 : 0), 4);
                    if (is_net(v.kind)) { v.plen = low ? std::max(0, o.plen - 96) : std::min(32, o.plen); mask_host(v); }
                }
            }
            v = read_val(Tr<T>::make(v));
            bool dup = false;
            for (int k = 0; k < n; ++k) dup = dup || same(all[k], v);
            if (!dup) all[n++] = v;
        }
        std::sort(all, all + n, less_val);
        for (int i = 0; i < n; ++i) st->keys[i] = all[i];
        st->n = n;
        st->at = 0;
        ev("%d keys of %s", n, st->kind);
        st->run();
        delete st;
    }
};
} // namespace

SIM_SCENARIO(C17) {
    alarm(40);
    uint32_t n = 1 + pick(2);
    for (uint32_t i = 0; i < n; ++i) {
        Go g;
        dispatch(int(pick(NKINDS)), g);
    }
}

} // namespace sim
