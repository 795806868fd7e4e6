#include "ops_impl.hpp"

namespace sim {
namespace ops {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct Lit<ip::ipv4_network, C> {
    static ip::ipv4_network go(const std::basic_string<C>& s) { return ip::operator""_ipv4_net(s.data(), s.size()); }
};
#endif
void add_n4(std::vector<Op>& v) {
    typedef ip::ipv4_network T;
    add_net<T>(v);
    add_lit<T>(v);
}
} // namespace ops
} // namespace sim
