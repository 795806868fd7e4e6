#include "ops_impl.hpp"

namespace sim {
namespace ops {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class C> struct Lit<ip::ip_address, C> {
    static ip::ip_address go(const std::basic_string<C>& s) { return ip::operator""_ip(s.data(), s.size()); }
};
#endif
void add_ip(std::vector<Op>& v) {
    typedef ip::ip_address T;
    add_addr<T>(v);
    add<any_conv, T>(v, "conversions", "", NT);
    add_six<T>(v);
    add_lit<T>(v);
}
} // namespace ops
} // namespace sim
