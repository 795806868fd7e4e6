#include "ops.hpp"

namespace sim {
namespace ops {
const std::vector<Op>& table(int kind) {
    static std::vector<Op>* const t = new std::vector<Op>[NKINDS];   // for ever: runs may go on while static objects are destroyed
    if (t[0].empty()) {
        Pause p;
        add_v4(t[V4]);
        add_v6(t[V6]);
        add_ip(t[IP]);
        add_n4(t[N4]);
        add_n6(t[N6]);
        add_ipn(t[IPN]);
        add_u128(t[U128]);
    }
    return t[kind];
}
bool is_nt(const Op& op) {
#ifdef IPADDRESS_NO_EXCEPTIONS
    return (op.flags & (NT | NTX)) != 0;
#else
    return (op.flags & NT) != 0;
#endif
}
const Op& pick_op(int kind, int flags) {
    const std::vector<Op>& t = table(kind);
    uint32_t n = 0;
    for (size_t i = 0; i < t.size(); ++i) n += (t[i].flags & flags) != 0;
    if (!n) harness_error("no such operation");
    uint32_t k = pick(n);
    for (size_t i = 0; i < t.size(); ++i)
        if (t[i].flags & flags) { if (!k) return t[i]; --k; }
    harness_error("no such operation");
}
void run(const Op& op, const In& in, Out& out, int fill) {
    out.clear();
    char where[120];
    snprintf(where, sizeof where, "%s.%s%s%s", kind_names[in.kind], op.name, *op.sub ? "." : "", op.sub);
    for (char* c = where; *c; ++c) if (*c == ' ') *c = '_';
    set_where("%s of %s", where, desc_in(in).s);
    uint64_t h = hash_in(in);
    op.run(in, out, fill);
    count(C_OPS);
    if (hash_in(in) != h) fail("argument-changed", where, "a text argument was changed: %s", desc_in(in).s);
}
} // namespace ops
} // namespace sim
