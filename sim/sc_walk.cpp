// C16: the scenario; the walks are in sc_walk.hpp, compiled in several parts
#include "vals.hpp"
#include <unistd.h>

namespace sim {
template <class Net> void hosts_of(const Val& v, uint32_t steps, const char* key);
template <class Net> void subnets_of(const Val& v, uint32_t steps, const char* key);
template <class Net> void exclusion_of(const Val& v, uint32_t steps, const char* key);
Val gen_plain_walk(int kind);

SIM_SCENARIO(C16) {
    alarm(40);
    uint32_t n = 1 + pick(3);
    for (uint32_t i = 0; i < n; ++i) {
        static const int kinds[3] = { N4, N6, IPN };
        int kind = kinds[pick(3)];
        Val v = gen_plain_walk(kind);
        uint32_t steps = 4 + pick(60), what = pick(5);
        ev("%s %s %s", what < 2 ? "hosts" : what < 4 ? "subnets" : "exclusion", kind_names[kind], desc(v).s);
        if (what < 2) kind == N4 ? hosts_of<ip::ipv4_network>(v, steps, "ipv4_network.hosts") : kind == N6 ? hosts_of<ip::ipv6_network>(v, steps, "ipv6_network.hosts") : hosts_of<ip::ip_network>(v, steps, "ip_network.hosts");
        else if (what < 4) kind == N4 ? subnets_of<ip::ipv4_network>(v, steps, "ipv4_network.subnets") : kind == N6 ? subnets_of<ip::ipv6_network>(v, steps, "ipv6_network.subnets") : subnets_of<ip::ip_network>(v, steps, "ip_network.subnets");
        else kind == N4 ? exclusion_of<ip::ipv4_network>(v, steps, "ipv4_network.address_exclude") : kind == N6 ? exclusion_of<ip::ipv6_network>(v, steps, "ipv6_network.address_exclude") : exclusion_of<ip::ip_network>(v, steps, "ip_network.address_exclude");
    }
}

} // namespace sim
