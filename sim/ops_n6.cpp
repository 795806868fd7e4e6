#include "ops_impl.hpp"

namespace sim {
namespace ops {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct Lit<ip::ipv6_network, C> {
    static ip::ipv6_network go(const std::basic_string<C>& s) { return ip::operator""_ipv6_net(s.data(), s.size()); }
};
#endif
void add_n6(std::vector<Op>& v) {
    typedef ip::ipv6_network T;
    add_net<T>(v);
    add<site_local, T>(v, "is_site_local", "", NT);
    add_lit<T>(v);
}
} // namespace ops
} // namespace sim
