"""Which generated-input campaigns decide which property. (spec, quick cases, thorough cases)"""

ASSUMPTIONS = [
    "x86-64 Linux, the installed stable toolchain; both a build with debug assertions and an optimised one are run",
    "the auditing allocators refuse single requests above 16 MiB, as a finite machine would",
]
M = 1_000_000
K = 1_000


def c(features, *specs, **kw):
    return dict(features=features, specs=list(specs), **kw)


CHECKS = {
    "C01": c("seq", ("C01", 2400 * K, 60 * M)),
    "C02": c("seq", ("C02", 2400 * K, 60 * M)),
    "C03": c("seq", ("C03", 2400 * K, 60 * M)),
    "C04": c("seq", ("C04", 2400 * K, 60 * M)),
    "C05": c("seq", ("C05", 2400 * K, 60 * M)),
    "C06": c("seq,str,ptr", ("C06.seq", 1000 * K, 30 * M), ("C06.str", 500 * K, 10 * M), ("C06.ptr", 800 * K, 20 * M), ("C06.box", 500 * K, 10 * M)),
    "C07": c("seq,str", ("C07.seq", 1800 * K, 40 * M), ("C07.str", 800 * K, 20 * M)),
    "C08": c("seq,str", ("C08", 2000 * K, 40 * M), ("C08.str", 800 * K, 20 * M)),
    "C09": c("seq,str,ptr", ("C09.seq", 1000 * K, 30 * M), ("C09.str", 500 * K, 10 * M), ("C09.ptr", 800 * K, 20 * M), ("C09.box", 500 * K, 10 * M)),
    "C10": c("seq,str,ptr", ("C10.seq", 1000 * K, 30 * M), ("C10.str", 500 * K, 10 * M), ("C10.ptr", 800 * K, 20 * M), ("C10.box", 500 * K, 10 * M)),
    "C11": c("str", ("C11", 3200 * K, 40 * M)),
    "C12": c("str", ("C12", 3200 * K, 40 * M)),
    "C13": c("ptr", ("C13", 2400 * K, 60 * M)),
    "C14": c("ptr", ("C14", 2400 * K, 60 * M)),
    "C15": c("ptr", ("C15", 2400 * K, 60 * M)),
    "C19": c("misc", ("C19", 2400 * K, 60 * M)),
    "C20": c("seq,str,ptr,misc", ("C20.seq", 1000 * K, 30 * M), ("C20.str", 500 * K, 10 * M), ("C20.ptr", 500 * K, 10 * M), ("C20.box", 500 * K, 10 * M), ("C20.eq", 300 * K, 2 * M)),
    "C21": c("misc", ("C21", 800 * K, 20 * M)),
    "C22": c("misc", ("C22", 2400 * K, 60 * M)),
    "C23": c("seq,str,ptr,misc",
             san=[("C23." + x, q * K, t * M) for x, q, t in (("seq", 160, 10), ("panic", 60, 5), ("str", 100, 6), ("text", 60, 4), ("ptr", 100, 6),
                                                            ("box", 60, 4), ("cmp", 40, 2), ("conv", 60, 4), ("scope", 40, 2))],
             miri=[("C23m." + x, "seq,str,ptr,misc", q, t * K, 1) for x, q, t in (("seq", 240, 20), ("panic", 80, 8), ("str", 120, 10), ("text", 80, 8),
                                                            ("ptr", 80, 8), ("box", 80, 8), ("cmp", 40, 3), ("conv", 80, 8), ("scope", 40, 3))]),
    "C16": c("thr", ("C16", 400 * K, 10 * M), miri=[("C16", "thr", 3200, 100 * K, 40)]),
    "C18": c("thr", ("C18", 400 * K, 10 * M), miri=[("C18", "thr", 3200, 100 * K, 40)]),
    "C17": c("ptr", ("C17", 2400 * K, 60 * M)),
}
HOOKS = None
_T = "stateful model-based property testing: generated operation histories against a reference model, shrunk to a minimal history"
TECHNIQUE = {
    "*": _T,
    "C06": "stateful property testing: generated histories over auditing allocators (guards, quarantine, owner and layout of every block), shrunk to a minimal history",
    "C09": "stateful property testing with injected allocation failures (every failure position over a generated history), shrunk to a minimal history",
    "C10": "stateful property testing with panics injected into generated user callbacks and destructors, shrunk to a minimal history",
    "C16": "generated multi-threaded programs run under randomised schedules: natively under stress, and under Miri's random scheduler and weak-memory model with its race detector, against an ownership model; shrunk",
    "C18": "generated multi-threaded programs run under randomised schedules: natively under stress, and under Miri's random scheduler and weak-memory model with its race detector, against an ownership model; shrunk",
    "C20": "stateful property testing: generated histories with a recording allocator, every selector compared with the model's expectation; shrunk",
    "C21": "property testing with metamorphic and differential relations: generated pairs compared with the same trait on slices, texts and values; shrunk",
    "C22": "property testing of generated conversion chains: round-trip and element-identity oracle against plain sequences; shrunk",
    "C23": "generated operation histories executed under AddressSanitizer, MemorySanitizer and Miri as memory oracles; shrunk",
}
NOTE = {
    "*": "random search over histories; finds violations, establishes no absence; trusts the harness's reference model, ledger of values and auditing allocators",
    "C16": "random search over programs and schedules; finds violations, establishes no absence; trusts Miri's memory model (C11-style weak memory, store buffering, no load buffering)",
    "C18": "random search over programs and schedules; finds violations, establishes no absence; trusts Miri's memory model (C11-style weak memory, store buffering, no load buffering); values handed between threads are assumed thread-safe",
    "C23": "random search over histories; finds violations, establishes no absence; trusts the sanitizers' and Miri's notion of invalid access",
}
