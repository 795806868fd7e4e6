#include "sc_walk.hpp"
namespace sim {
template void hosts_of<ip::ipv4_network>(const Val&, uint32_t, const char*);
Val gen_plain_walk(int kind) { return gen_plain(kind); }
} // namespace sim
