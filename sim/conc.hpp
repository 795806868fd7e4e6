// Work for several threads that is not one operation of the table.
#ifndef SIM_CONC_HPP
#define SIM_CONC_HPP
#include "ops.hpp"

namespace sim {
namespace conc {
// one thread's use of a stream of its own
struct SStep {
    int what;            // 0 manipulator (form), 1 manipulator (rule), 2 insert, 3 extract, 4 std output, 5 new stream
    int arg, kind;
    Val v;
    Base base;
    bool shared;         // insert the shared object
    std::string text;
    SStep() : what(0), arg(0), kind(V4), base(DEC), shared(false) {}
};
struct Script {
    bool wide;
    std::vector<SStep> steps;
};
Script gen_script(bool first_use);
// objects that all threads use
struct Shared;
Shared* make_shared_objects(const Val* v);           // one value per kind
void check_shared(const Shared* s, const Val* v);
void free_shared(Shared* s);
void run_script(const Script& s, const Shared* sh, ops::Out& out);
// ranges over shared networks that several threads walk at once
struct Ranges;
Ranges* make_ranges(const Val& n4, const Val& n6, const Val& na, size_t diff);
void free_ranges(Ranges* r);
enum { NRANGE = 12 };
void run_range(const Ranges* r, int which, unsigned some, unsigned jump, ops::Out& out);
// first use of the predefined tables and the like, on values of its own
void run_classify(const Val& v, ops::Out& out);
const char* script_name(const Script& s, char* buf, size_t n);
void warm_standard_library();
}
} // namespace sim
#endif
