#include "sc_walk.hpp"
namespace sim {
template void subnets_of<ip::ipv6_network>(const Val&, uint32_t, const char*);
template void exclusion_of<ip::ipv6_network>(const Val&, uint32_t, const char*);
} // namespace sim
