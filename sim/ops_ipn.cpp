#include "ops_impl.hpp"

namespace sim {
namespace ops {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct Lit<ip::ip_network, C> {
    static ip::ip_network go(const std::basic_string<C>& s) { return ip::operator""_net(s.data(), s.size()); }
};
#endif
void add_ipn(std::vector<Op>& v) {
    typedef ip::ip_network T;
    add_net<T>(v);
    add<site_local, T>(v, "is_site_local", "", NT);
    add<net_any, T>(v, "conversions", "", NT);
    add_lit<T>(v);
}
} // namespace ops
} // namespace sim
