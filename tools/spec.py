"""What each check runs."""
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
CONFIGS = {
    "gcc20": {"cxx": "g++", "flags": ["-std=c++20", "-O1", "-g1"]},
    "gcc11": {"cxx": "g++", "flags": ["-std=c++11", "-O0", "-g1"]},
    "clang17": {"cxx": "clang++", "flags": ["-std=c++17", "-O2"]},
    "clang20": {"cxx": "clang++", "flags": ["-std=c++20", "-O0", "-g1"]},
    "conc20": {"cxx": "clang++", "flags": ["-std=c++20", "-O1", "-g1"], "tsan_flags": TSAN, "ldflags": ["-no-pie", "-ldl"], "base": ["rt", "sched", "vals", "streams", "tsan_rt"]},
    "conc11": {"cxx": "clang++", "flags": ["-std=c++11", "-O1", "-g1"], "tsan_flags": TSAN, "ldflags": ["-no-pie", "-ldl"], "base": ["rt", "sched", "vals", "streams", "tsan_rt"]},
    "noscope": {"cxx": "g++", "flags": ["-std=c++14", "-O2", "-DIPADDRESS_NO_IPV6_SCOPE"]},
    "scope3": {"cxx": "g++", "flags": ["-std=c++23", "-O1", "-g1", "-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=3"]},
    "long8": {"cxx": "clang++", "flags": ["-std=c++14", "-O1", "-g1", "-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=40", "-DIPADDRESS_CHAR_IS_UTF8"]},
    "noexc": {"cxx": "g++", "flags": ["-std=c++23", "-O1", "-g1", "-DIPADDRESS_NO_EXCEPTIONS"]},
}
TSAN_SOURCES = {"ops_v4", "ops_v6", "ops_ip", "ops_n4", "ops_n6", "ops_ipn", "ops_u128", "conc_body"}   # instrumented where the configuration has tsan_flags
REAL = ["the whole of ipaddress (all headers, compiled unchanged from /repo/include)", "libstdc++ strings, streams, locales and exception handling"]
ASSUME = ["the compilers and the C++ standard library behave as specified", "the simulator's own reference models are right (cross-checked by the 'selftest' scenario)"]


def jobs(scen, cfgs, **kw):
    return [dict(cfg=c, scenario=scen, share=s, **kw) for c, s in cfgs]


OPS = ["ops_ipn", "ops_n6", "ops_n4", "sc_ops", "ops_ip", "ops_v6", "ops_v4", "ops_u128", "ops", "ops_table"]
LIFE = [x if x != "sc_ops" else "sc_life" for x in OPS]
NEST = [x if x != "sc_ops" else "sc_nest" for x in OPS]
CONC = ["ops_ipn", "ops_n6", "ops_n4", "conc_body", "ops_ip", "ops_v6", "ops_v4", "ops_u128", "conc", "ops", "ops_table"]
STD3 = [("gcc20", 2), ("gcc11", 1), ("clang17", 1)]
OTHER = [("long8", 1), ("scope3", 1), ("noscope", 1)]   # the documented build options
PROPS = {
    "C01": dict(
        level="exploration", sources=["sc_read"], jobs=jobs("C01", STD3), jobs_thorough=jobs("C01", OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: 1-4 readers under a seeded scheduler extract generated token sequences (all types, all syntactic forms, malformed ones, narrow and wide) from sources whose refill sizes, stalls, re-entrant library use and interleaving the simulator decides.",
        measure="hash of (type, stream state, token, chunk size, buffering, strictness) at each extraction",
        real=REAL, stub=["the byte source (a std::basic_streambuf)", "thread scheduling and clock (one task runs at a time, switches drawn from the seed)"], assumptions=ASSUME),
    "C02": dict(
        level="exploration", sources=["sc_read"], jobs=jobs("C02", STD3), jobs_thorough=jobs("C02", OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: readers extract generated tokens from sources that end early, throw one of five exception kinds or meet failing allocations at seeded byte positions, under all exception masks, then recover and go on.",
        measure="hash of (type, state, mask, token, fault offset in token, chunk size, failed allocations, exception)",
        real=REAL, stub=["the byte source with its faults", "memory allocation (counts and fails)", "thread scheduling and clock"], assumptions=ASSUME),
    "C03": dict(
        level="exploration", sources=["sc_write"], jobs=jobs("C03", STD3), jobs_thorough=jobs("C03", OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: 1-3 writers under a seeded scheduler insert generated values (all types, forms, bases, widths, fills, adjustments) into streams whose sink accepts a seeded number of characters and then is full or throws, fails to flush, writes short, or meets failing allocations, under several exception masks, then recovers.",
        measure="hash of (text, characters accepted, state, mask, exception, failed allocations, width) at each insertion",
        real=REAL, stub=["the byte sink with its faults", "memory allocation (counts and fails)", "thread scheduling and clock"], assumptions=ASSUME),
    "C04": dict(
        level="exploration", sources=["sc_manip"], jobs=jobs("C04", STD3), jobs_thorough=jobs("C04", OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search over histories of 8-57 steps on up to 9 narrow and wide streams: manipulators, insertions, extractions, standard I/O, failures of sink, source and memory, clear, exception masks, copyfmt, move, swap, replacement, and the program's own stream attributes, against a model of one pending form and one pending rule per stream.",
        measure="hash of (type, pending form, pending rule, state before and after, fault kinds) at each operation",
        real=REAL, stub=["the stream's buffer with its faults", "memory allocation (counts and fails)", "thread scheduling"], assumptions=ASSUME),
    "C05": dict(
        level="fault-injection", sources=OPS, jobs=jobs("C05", [("gcc20", 1), ("gcc11", 1)]), jobs_thorough=jobs("C05", [("clang17", 1), ("clang20", 1)] + OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: every operation of the public interface that may allocate (all types, all character types) runs on generated arguments with the k-th, every, or every other memory allocation failing, warm and as the first use of the library in the process, and again with memory.",
        measure="hash of (operation, type, fault mode, failing allocation, outcome)",
        real=REAL, stub=["memory allocation (operator new counts and fails)", "the sink and source of stream operations"], assumptions=ASSUME),
    "C06": dict(
        level="fault-injection", sources=OPS, jobs=jobs("C06", [("gcc20", 1), ("noexc", 1)]), jobs_thorough=jobs("C06", [("clang17", 1), ("gcc11", 1)] + OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: every operation declared not to throw runs on generated arguments while all (or every other) memory allocations fail, warm and as the first use of the library, and must end within its number of members and give the outcome it gives with memory; also in a build without exceptions, where the throwing forms are declared not to throw.",
        measure="hash of (operation, type, kind of outcome, number of members)",
        real=REAL, stub=["memory allocation (operator new fails)"], assumptions=ASSUME),
    "C09": dict(
        level="exploration", sources=OPS, jobs=jobs("C09", [("gcc20", 1), ("clang17", 1)]), jobs_thorough=jobs("C09", [("gcc11", 1), ("clang20", 1)] + OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: 1-3 probe operations run each in a process of its own where nothing of the library was used before; then a history of 3-16 operations, failures, exceptions and memory faults runs in one process with the probes in between, with stale error codes, in exception handlers, during unwinding, with errno set and on other threads, and every probe must give its fresh outcome.",
        measure="hash of (operation, type, circumstances, stale code, outcome)",
        real=REAL, stub=["memory allocation (counts and fails)", "the sink and source of stream operations"], assumptions=ASSUME),
    "C10": dict(
        level="exploration", sources=OPS, jobs=jobs("C10", [("gcc20", 1), ("gcc11", 1)]), jobs_thorough=jobs("C10", [("clang17", 1), ("clang20", 1)] + OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: operations run under the classic locale and under global locales, C locales and stream locales with other grouping, digits, case conversion, widening and number formatting, and with the global locale replaced at seeded allocations in the middle of the call.",
        measure="hash of (operation, type, global locale, stream locale, replacement rate, outcome)",
        real=REAL, stub=["locale facets (deliberately strange ones)", "memory allocation (the point at which another part of the program replaces the locale)"], assumptions=ASSUME + ["only the locales C, POSIX and C.utf8 are installed; C++ facets stand for the rest"]),
    "C11": dict(
        level="exploration", sources=OPS, jobs=jobs("C11", [("gcc20", 1), ("clang20", 1)]), jobs_thorough=jobs("C11", [("clang17", 1), ("gcc11", 1)] + OTHER), quick_s=26, thorough_s=1500,
        nondet_is_violation=True,
        compare=dict(groups=[["gcc20", "clang20"]], scenario="C11", count_quick=8000, count_thorough=200000),
        rule="Seeded random search: operations run with seeded patterns in the unused stack, in fresh heap blocks and in the storage of the objects, at several stack depths, and must give the same outcome; equal values made by 5-8 routes must compare, hash and print equally; the same seeds must give the same traces in the builds of two compilers.",
        measure="hash of (operation, type, patterns, outcome)",
        real=REAL, stub=["contents of fresh memory (stack, heap, object storage)"], assumptions=ASSUME),
    "C12": dict(
        level="fault-injection", sources=["ops", "sc_mutate"], jobs=jobs("C12", [("gcc20", 1), ("clang17", 1), ("long8", 1)]), jobs_thorough=jobs("C12", [("gcc11", 1), ("clang20", 1), ("scope3", 1), ("noscope", 1)]), quick_s=30, thorough_s=1500,
        rule="Seeded random search over histories of 4-19 mutations of one object (scope ids in all character types, forms and lengths, assignments from throwing parses, constructions, supernets and subnets), most of them rejected or hit by failing allocations, against a model that changes only on success.",
        measure="hash of (type, mutation, argument, outcome, object before)",
        real=REAL, stub=["memory allocation (counts and fails)"], assumptions=ASSUME),
    "C13": dict(
        level="exploration", sources=["sc_chan"], jobs=jobs("C13", STD3), jobs_thorough=jobs("C13", OTHER), quick_s=40, thorough_s=1500,
        rule="Seeded random search: 1-2 independent links (a breaking pipe with resume, an append-only log with crash recovery and tailing readers, a request/reply connection over one iostream), each with 2-11 generated values written and read back through the library in generated forms, under seeded latency, chunking, back pressure, disconnection, crash of either program at any byte, power loss with torn tails, failing allocations, then fault-free until done; every complete value must be the one written, in order, once, and all must arrive within a bounded number of scheduling steps.",
        measure="hash of (value, form, type written and read, way of writing and reading, stream state, completeness)",
        real=REAL, stub=["the channel, file and connection (std::basic_streambuf)", "processes (tasks that lose their volatile state)", "thread scheduling and clock", "memory allocation (counts and fails)"], assumptions=ASSUME),
    "C07": dict(
        level="exploration", sources=CONC, jobs=jobs("C07", [("conc20", 1), ("conc11", 1)]), quick_s=45, thorough_s=2400,
        rule="Seeded random search: 2-4 threads, 1-4 steps each (every const operation on shared objects, every operation on own objects, walks over shared ranges, histories on own streams, classification), run one at a time under a seeded scheduler that may switch at every memory access, atomic operation, lock and static initialisation of the instrumented library; every access is checked for races by happens-before (vector clocks), every outcome against the sequential run in a process of its own; some threads meet failing allocations.",
        measure="hash of (step, outcome, failing allocations)",
        real=REAL + ["static initialisation, atomics and locks as used by the compiled code"], stub=["thread scheduling (one thread runs at a time, switches drawn from the seed)", "pthread mutexes, once and guards of function-local statics (modelled)", "memory allocation (counts and fails)"],
        assumptions=ASSUME + ["code inside libstdc++.so and libc.so is free of races", "sequentially consistent interleavings; weaker orders are covered by the race check only"]),
    "C08": dict(
        level="exploration", sources=CONC, jobs=jobs("C08", [("conc20", 1), ("conc11", 1)]), quick_s=45, thorough_s=2400,
        rule="Seeded random search: as C07, but each run is a process in which nothing of the library was used before, and the threads begin with (often the same) first uses: manipulators, insertion and extraction on narrow and wide streams, classification of all kinds, text conversion, with failing allocations on some threads during the first use.",
        measure="hash of (step, outcome, failing allocations)",
        real=REAL + ["static initialisation, atomics and locks as used by the compiled code"], stub=["thread scheduling (one thread runs at a time, switches drawn from the seed)", "pthread mutexes, once and guards of function-local statics (modelled)", "memory allocation (counts and fails)"],
        assumptions=ASSUME + ["code inside libstdc++.so and libc.so is free of races", "sequentially consistent interleavings; weaker orders are covered by the race check only"]),
    "C14": dict(
        level="exploration", sources=LIFE, jobs=jobs("C14", [("gcc20", 2), ("gcc11", 1), ("clang17", 1)]), jobs_thorough=jobs("C14", [("clang20", 1), ("noexc", 1)] + OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search: a run is a process whose plan is made before any static object of the program is initialised; 1-3 probe operations and up to 2 long-lived objects (streams with pending forms and rules, arguments of an operation) each give their reference outcome in the main() of a forked copy; then the process lives through 13 times of its life - before and during the initialisation of static objects, main, a thread, the end of the thread, after a fork, thread_local and static destruction, early and late exit handlers, the last destructor function, with four ways to end - and at each the probes, histories with memory faults and uses of the long-lived objects run, on the thread itself, on a new or an old thread or in a fork.",
        measure="hash of (operation, time of life, manner, outcome)",
        real=REAL + ["the C++ runtime's initialisation and termination of the program, fork, threads"], stub=["memory allocation (counts and fails; freed memory is kept, filled and checked)", "the sink and source of the operations"], assumptions=ASSUME + ["the initialisation order is the linker's; the simulator adds the earliest and later positions"]),
    "C15": dict(
        level="exploration", sources=NEST, jobs=jobs("C15", [("conc20", 2), ("conc11", 2), ("gcc20", 1), ("gcc11", 1)]), jobs_thorough=jobs("C15", [("clang17", 1), ("long8", 1)]), quick_s=60, thorough_s=1500,
        rule="Seeded random search: an operation is interrupted on its own thread, at allocations, in its stream's buffer, in the facets of its stream's locale, or (operations that need no memory, as in a signal handler) at any memory access of the instrumented code, by 1-3 other operations, up to 18 times and two levels deep, on objects of their own or on those of the outer operation, some with failing allocations, warm or as first uses; every outcome must be the one the operation gives alone in a process of its own.",
        measure="hash of (inner operation, outer operation, types, where, depth)",
        real=REAL, stub=["memory allocation (the point of interruption; counts and fails)", "the sink, source and facets of the operations", "signal delivery (a call at a drawn memory access)"], assumptions=ASSUME + ["in C++11 a signal handler's first classification is not its program's first (the predefined networks are no constants there)"]),
    "C16": dict(
        level="exploration", sources=["walk_hn", "walk_sn", "walk_h6", "walk_s6", "walk_h4", "walk_s4", "sc_walk"], jobs=jobs("C16", STD3), jobs_thorough=jobs("C16", OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search over histories of steps, jumps (signed, unsigned, 128-bit, subscripts, standard algorithms), copies, assignments (also over iterators of other ranges), moves, swaps and reversals of up to 10 iterators over one range of hosts or subnets or one exclusion, the ranges weighted to the edges of the address space; the network and the range are destroyed, copied and rebuilt in between and memory fails; a model that knows only positions is compared after each step.",
        measure="hash of (type of range, operation, where in the range, direction, range alive)",
        real=REAL, stub=["memory allocation (counts and fails)", "the parties (the order of their steps is drawn from the seed)"], assumptions=ASSUME),
    "C17": dict(
        level="exploration", sources=["sc_store"], jobs=jobs("C17", STD3), jobs_thorough=jobs("C17", OTHER), quick_s=30, thorough_s=1500,
        rule="Seeded random search over histories of 4-123 steps on sets, maps, hash maps, heaps and sorted sequences of each type, keyed by families of 2-48 closely related values (one bit, scope id or prefix length apart, the other version of each other), the values come to in several ways, with allocations failing inside the containers; a model of the documented order is compared after each step.",
        measure="hash of (type, operation, memory failed, scope id length, sizes of the containers)",
        real=REAL + ["libstdc++ containers and algorithms"], stub=["memory allocation (counts and fails)", "the parties (the order of their steps is drawn from the seed)"], assumptions=ASSUME),
}
