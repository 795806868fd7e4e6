#include "ops_impl.hpp"

namespace sim {
namespace ops {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct Lit<ip::ipv4_address, C> {
    static ip::ipv4_address go(const std::basic_string<C>& s) { return ip::operator""_ipv4(s.data(), s.size()); }
};
#endif
void add_v4(std::vector<Op>& v) {
    typedef ip::ipv4_address T;
    add_addr<T>(v);
    add<from_bytes, T>(v, "from_bytes", "", NT);
    add<to_uint, T>(v, "to_uint", "", NT);
    add_lit<T>(v);
}
} // namespace ops
} // namespace sim
