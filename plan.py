"""What each check runs, and what its evidence counts."""

MODEL = "runtime monitoring: executions of the real code, each judged by an independent reference model (online oracle)"
RACE = ("runtime monitoring: recorded histories of concurrent calls, judged offline by a trace checker; "
        "native stress with injected delays and Miri's randomised scheduler")
STAT = "runtime monitoring: statistical oracle over recorded random choices, plus a reference model of the distribution"

NOTE_INPUT = ("Held on every execution observed. The oracle is exact, the inputs are sampled (with exhaustive sweeps of "
              "the smallest ones), so it says nothing about inputs the workload did not produce.")
NOTE_SCHED = ("Held on every interleaving observed. The schedules are sampled, natively and by Miri's seeded scheduler, "
              "not enumerated.")

RATES = [0.0005, 0.001, 0.003, 0.01]


def miri(scen, quick, thorough, rates=RATES, **kw):
    return ("miri", {"scen": scen, "rates": rates, "quick": {"seeds": quick, "wall": 400, **kw},
                     "thorough": {"seeds": thorough, "wall": 700, **kw}})


# Property, cases in the quick and in the thorough tier.
TSAN = [("C05", 160, 2000), ("C06", 300, 4000), ("C07", 300, 4000), ("C08", 400, 6000), ("C17", 240, 4000), ("C18", 400, 6000),
        ("C19", 900, 12000), ("C20", 600, 6000), ("C21", 320, 3000)]
ASAN = [("C01", 400, 8000), ("C02", 400, 4000), ("C03", 400, 8000), ("C09", 600, 8000), ("C10", 800, 12000),
        ("C11", 560, 8000), ("C12", 600, 8000), ("C13", 600, 8000), ("C14", 160, 3000), ("C16", 800, 10000),
        ("C19", 400, 8000), ("C20", 800, 10000), ("C21", 800, 10000), ("C22", 400, 6000), ("C23", 800, 8000),
        ("C24", 1600, 16000), ("C26", 1600, 16000)]

# Uninitialised memory: where there is much of it.
MSAN = [("C01", 240, 6000), ("C02", 160, 3000), ("C03", 160, 6000), ("C06", 120, 2000), ("C08", 160, 3000),
        ("C09", 160, 4000), ("C10", 240, 6000), ("C11", 160, 4000), ("C12", 240, 6000), ("C13", 320, 8000),
        ("C14", 160, 3000), ("C16", 800, 10000), ("C17", 80, 2000), ("C18", 160, 4000), ("C19", 240, 6000),
        ("C20", 320, 8000), ("C21", 240, 6000), ("C22", 320, 6000), ("C23", 160, 4000), ("C24", 800, 12000),
        ("C26", 800, 12000), ("C28", 320, 8000)]

PLAN = {
    "C01": {
        "rule": "A case is a history of rule additions and single derivation steps on one to four systems (or an "
                "exhaustive sweep of all short strings, a long string, many rules, large bodies, a long-lived system); "
                "it counts as distinct by its rules and strings.",
        "stages": [("native", {})],
    },
    "C02": {
        "rule": "A case asks one rule about every position in and outside a string (or sweeps all short strings and "
                "contexts); it counts as distinct by rule and string.",
        "stages": [("native", {})],
    },
    "C03": {
        "rule": "A case derives one deterministic system in several splits, repetitions and interfaces; it counts as "
                "distinct by its rules, string and number of iterations.",
        "stages": [("native", {})],
    },
    "C04": {
        "rule": "A case records the choices made for one or more rules with alternatives (or checks which totals are "
                "accepted); it counts as distinct by the chances and the way of applying them.",
        "technique": STAT,
        "level_note": "Every statistical decision errs with probability below 1e-13, so that deviations are only seen when "
                      "large enough for the number of choices recorded.",
        "stages": [("native", {})],
    },
    "C05": {
        "rule": "A case is a history of lookups of names, in sequence or by up to twelve threads at once; it counts as "
                "distinct by the names looked up, or by the order in which the threads were given their codes.",
        "technique": RACE, "level_note": NOTE_SCHED,
        "stages": [("native", {}), miri("C05", 40, 400)],
    },
    "C06": {
        "rule": "A round has up to twelve threads add rules to one system; it counts as distinct by the final order of "
                "the alternatives or rules.",
        "technique": RACE, "level_note": NOTE_SCHED,
        "stages": [("native", {}), miri("C06", 32, 300)],
    },
    "C07": {
        "rule": "A round has threads derive and count while others add rules; it counts as distinct by the number of "
                "rules in force in each derivation.",
        "technique": RACE, "level_note": NOTE_SCHED,
        "stages": [("native", {}), miri("C07", 32, 300)],
    },
    "C08": {
        "rule": "A round has threads register, look up and initialise families under the same names, or builds one family "
                "from a description; it counts as distinct by who won which name, or by the description.",
        "technique": RACE, "level_note": NOTE_SCHED,
        "stages": [("native", {}), miri("C08", 40, 400)],
    },
    "C09": {
        "rule": "A case reads one production string in many layouts and through every interface (or sweeps all short "
                "texts over an alphabet of the characters that matter); it counts as distinct by the text.",
        "stages": [("native", {})],
    },
    "C10": {
        "rule": "A case reads one rule from text in several layouts through every interface, or a malformed one; it "
                "counts as distinct by the text.",
        "stages": [("native", {})],
    },
    "C11": {
        "rule": "A case gives one hostile text to every parser, and displays, derives and draws whatever is accepted; it "
                "counts as distinct by the text.",
        "stages": [("native", {}), miri("C11", 12, 120, rates=[0.01])],
    },
    "C12": {
        "rule": "A case reads one plant file, well formed or with one fault, from memory and from disk; it counts as "
                "distinct by the text.",
        "stages": [("native", {})],
    },
    "C13": {
        "rule": "A case draws one string, on systems that know all, some or none of the turtle's symbols; it counts as "
                "distinct by the string and angle.",
        "stages": [("native", {})],
    },
    "C14": {
        "rule": "A case fits one drawing to a canvas and reads the SVG back; it counts as distinct by drawing and canvas.",
        "stages": [("native", {})],
    },
    "C15": {
        "rule": "A case runs the lsystem tool on one plant file and command line, with or without faults of its "
                "surroundings (failing, short or interrupted reads and writes, size limits, unusable outputs), and "
                "judges exit status, messages and files; it counts as distinct by all of these.",
        "technique": "runtime monitoring with fault injection: runs of the real tool, each judged from the outside by an "
                     "independent model of the whole pipeline",
        "level_note": NOTE_INPUT,
        "stages": [("native", {"cli": True})],
    },
    "C16": {
        "rule": "A case checks the laws on one set of vectors, angles and paths; it counts as distinct by these.",
        "stages": [("native", {})],
    },
    "C17": {
        "rule": "A round has up to twelve threads (some rounds up to 260) mix all shared operations, with conversions that use the library "
                "themselves, fail or panic; it counts as distinct by who added which rules.",
        "technique": RACE + "; faults injected by conversions that fail, panic, wait and re-enter",
        "level_note": NOTE_SCHED,
        "stages": [("native", {}), miri("C17", 40, 400)],
    },
    "C18": {
        "rule": "A case is one execution under a sanitizer: a concurrent or hostile workload of another monitor, run by Miri "
                "(one per seed), ThreadSanitizer, MemorySanitizer or AddressSanitizer; it counts as distinct as that monitor counts it.",
        "technique": "runtime monitoring: Miri, ThreadSanitizer and MemorySanitizer (standard library instrumented too) and AddressSanitizer "
                     "over the workloads of the other monitors",
        "level_note": "Held on every execution observed; a fault on a path or interleaving not executed would not be seen.",
        "stages": [
            ("tsan", {"props": [(p, n) for p, n, _ in TSAN], "budget": 40,
                      "thorough": {"props": [(p, m) for p, _, m in TSAN], "budget": 300}}),
            ("asan", {"props": [(p, 3 * n) for p, n, _ in ASAN], "budget": 40,
                      "thorough": {"props": [(p, m) for p, _, m in ASAN], "budget": 300}}),
            ("msan", {"props": [(p, 3 * n) for p, n, _ in MSAN], "budget": 40,
                      "thorough": {"props": [(p, m) for p, _, m in MSAN], "budget": 200}}),
            miri("C18", 40, 400, rates=[0.01], ub_only=True),
            miri("C11", 10, 80, rates=[0.01], ub_only=True),
        ] + [miri(s, 10, 60, rates=[0.003, 0.02], ub_only=True) for s in ("C05", "C06", "C07", "C08", "C17", "C19")],
    },
    "C19": {
        "rule": "A case is a history of additions and questions on up to three systems, or rounds of threads that add and "
                "ask at once; it counts as distinct by the symbols and requests, or by the answers in order.",
        "technique": "runtime monitoring: an online model of the set of symbols, and an offline checker of recorded "
                     "concurrent histories of a grow-only set; native stress with injected delays and Miri",
        "level_note": NOTE_SCHED,
        "stages": [("native", {}), miri("C19", 24, 300)],
    },
    "C20": {
        "rule": "A case gives the same requests to two worlds, one of which is spared those that the other refused, and "
                "compares all they answer; it counts as distinct by the requests.",
        "technique": "runtime monitoring: differential oracle (two systems, stores and family registries, with and without "
                     "the refused requests), with failing and panicking conversions injected",
        "level_note": NOTE_INPUT,
        "stages": [("native", {})],
    },
    "C21": {
        "rule": "A case displays strings and symbols and reads them back, and gives one text to every way of reading it; it "
                "counts as distinct by the text.",
        "technique": "runtime monitoring: round-trip oracle and differential comparison of all entry points",
        "stages": [("native", {})],
    },
    "C22": {
        "rule": "A case is a history of rules parsed into recording stores or the standard cells, or of listings of rules; it "
                "counts as distinct by the rules.",
        "technique": "runtime monitoring: recording stores whose log is compared with a reference model; refusals injected",
        "stages": [("native", {})],
    },
    "C23": {
        "rule": "A case provokes errors of one kind (conversions, numbers, files, hostile text, everything else) and looks "
                "at message, source and clones; it counts as distinct by what provoked them.",
        "technique": "runtime monitoring: every error observed is judged against its known cause; faulty files and failing "
                     "conversions injected",
        "stages": [("native", {})],
    },
    "C24": {
        "rule": "A case makes symbols, strings, heads, rules, bodies or paths in all the ways there are, copies, changes "
                "and compares them, and puts them into sets, maps and lists; it counts as distinct by what they hold.",
        "technique": "runtime monitoring: executions of the real code, each judged by an online model of the values made",
        "stages": [("native", {})],
    },
    "C25": {
        "rule": "A case measures one kind of request at up to six sizes (CPU time of the thread, peak memory and calls for "
                "memory), or repeats one kind some 760 times and compares the memory in use and the files open; it counts "
                "as distinct by the kind, its parameters and the sizes reached.",
        "technique": "runtime monitoring: heap monitor (counting allocator), thread CPU clock and open-file count around "
                     "executions of the real code, with refused, failing and panicking requests among them",
        "level_note": "Growth is judged between sizes 16 times apart: more than 5.6 times linear for time (confirmed by "
                      "repeated minimum-of-several measurements), more than 4 times linear for memory. Slighter growth, or "
                      "growth that shows only beyond the largest sizes, would not be seen.",
        "stages": [("native", {})],
    },
    "C26": {
        "rule": "A case renders one element (path, circle, decorations, empty document or group) with numbers of every "
                "magnitude and texts that mean something in XML, and reads it back; it counts as distinct by its values.",
        "technique": "runtime monitoring: executions of the real code, read back by an independent strict XML reader and "
                     "compared with the values put in",
        "stages": [("native", {})],
    },
    "C27": {
        "rule": "A case runs the tool's describe command (or asks for help) with a standard output that works, is full or "
                "closed, or whose writes fail, stop short or are interrupted as planned; it counts as distinct by command line "
                "and faults met.",
        "technique": "runtime monitoring with fault injection: runs of the real tool, whose output, status and files are judged "
                     "from the outside",
        "level_note": NOTE_INPUT,
        "stages": [("native", {"cli": True})],
    },
    "C28": {
        "rule": "A case displays values of one kind (strings, symbols and tokens; errors; points and vectors) into writers that "
                "work, fail after any number of bytes, fall short, are interrupted, or use the library themselves; it counts "
                "as distinct by the text.",
        "technique": "runtime monitoring with fault injection: recording writers, whose log is compared with the text and "
                     "whose failures with what displaying reports",
        "level_note": NOTE_INPUT,
        "stages": [("native", {})],
    },
}
