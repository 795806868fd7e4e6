#include "streams.hpp"

namespace sim {

std::string gen_ws(bool need) {
    static const char ws[] = " \n\t\r\v\f";
    std::string s;
    uint32_t n = need ? 1 + (pick(3) ? 0 : pick(3)) : pick(3) ? 0 : pick(3);
    for (uint32_t i = 0; i < n; ++i) s += pick(3) ? ' ' : ws[pick(6)];
    return s;
}

namespace {
struct Reenter {
    const std::string& text;
    const Val& v;
    template <class T> void go() {
        std::istringstream in(text + " rest");
        std::ostringstream out;
        T t{};
        in >> t;
        out << ip::full << t;
        out.str("");
        out << t;
        if (in.fail() || !same(read_val(t), v) || out.str() != text)
            fail("reentrant", kind_names[Tr<T>::kind], "use inside a refill: %s became %s", text.c_str(), out.str().c_str());
    }
};
}
// library use in the middle of another extraction or insertion
void reenter_library(void*) {
    int kind = int(pick(NKINDS));
    Val v = gen_val(kind);
    std::string text = render_canonical(v, ip::format::compressed, DEC, false);
    Reenter r = { text, v };
    dispatch(kind, r);
}

} // namespace sim
