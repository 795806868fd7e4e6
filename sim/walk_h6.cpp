#include "sc_walk.hpp"
namespace sim {
template void hosts_of<ip::ipv6_network>(const Val&, uint32_t, const char*);
} // namespace sim
