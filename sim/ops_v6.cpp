#include "ops_impl.hpp"

namespace sim {
namespace ops {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct Lit<ip::ipv6_address, C> {
    static ip::ipv6_address go(const std::basic_string<C>& s) { return ip::operator""_ipv6(s.data(), s.size()); }
};
#endif
void add_v6(std::vector<Op>& v) {
    typedef ip::ipv6_address T;
    add_addr<T>(v);
    add<from_bytes, T>(v, "from_bytes", "", NT);
    add<to_uint, T>(v, "to_uint", "", NT);
    add_six<T>(v);
#define X(C) add<scope_arr_ec<C>, T>(v, "set_scope_id(array,code)", TextOf<C>::name(), NT);
    SIM_EACH_CHAR(X)
#undef X
    add_lit<T>(v);
}
} // namespace ops
} // namespace sim
