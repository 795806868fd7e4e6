#include "ops_impl.hpp"

namespace sim {
namespace ops {
void add_u128(std::vector<Op>& v) {
    typedef ip::uint128_t T;
    add_common<T>(v);
    add<u_arith, T>(v, "arithmetic", "", NT);
    add<u_shift, T>(v, "shift", "", NT);
    add<u_inplace, T>(v, "in place", "", NT);
    add<u_conv, T>(v, "conversions", "", NT);
#define X(C) add<u_parse<C>, T>(v, "from_string", TextOf<C>::name(), NT); add<u_parse_arr<C>, T>(v, "from_string(array)", TextOf<C>::name(), NT); add<to_text<C>, T>(v, "to_string", TextOf<C>::name(), AL);
    SIM_EACH_CHAR(X)
#undef X
}
} // namespace ops
} // namespace sim
