"""What decides each property: which workloads, in which builds, how many cases.

A job is one workload binary in one build variant, split over `shards` processes.
"""
B = {  # property -> workload binaries that serve it
    "C01": ["b_vec", "b_big", "b_iter"],
    "C02": ["b_vec"],
    "C03": ["b_deq", "b_big", "b_iter"],
    "C04": ["b_deq"],
    "C05": ["b_deq", "b_big", "b_iter"],
    "C06": ["b_hash", "b_big"],
    "C07": ["b_hash", "b_big"],
    "C08": ["b_hash"],
    "C09": ["b_vec", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv", "b_tree", "b_big", "b_iter"],
    "C10": ["b_vmap", "b_big"],
    "C11": ["b_str"],
    "C12": ["b_str"],
    "C13": ["b_list", "b_big", "b_iter"],
    "C14": ["b_list", "b_big", "b_iter"],
    "C17": ["b_vec", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv", "b_tree", "b_panic", "b_big", "b_iter"],
    "C18": ["b_vec", "b_str", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv", "b_tree", "b_panic", "b_big"],
    "C19": ["b_vec", "b_str", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv", "b_tree", "b_panic", "b_big", "b_iter"],
    "C24": ["b_vec", "b_str", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv", "b_tree", "b_big"],
    "C25": ["b_vec", "b_vmap", "b_deq", "b_hash", "b_list", "b_tree", "b_big"],
    "C26": ["b_vec", "b_str", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv", "b_tree", "b_big"],
    "C27": ["b_vec", "b_str", "b_vmap", "b_deq", "b_hash", "b_list", "b_fixv"],
    "C28": ["b_vec", "b_str", "b_vmap", "b_deq", "b_hash", "b_big"],
    "C29": ["b_deq", "b_hash", "b_iter"],
    "C15": ["b_fixv", "b_big"],
    "C16": ["b_tree", "b_iter"],
    "C20": ["b_panic"],
    "C21": ["b_conc"],
    "C22": ["b_base"],
    "C23": ["b_base"],
}

HIST = ("A case is one seeded random history (sizes, values, operations and arguments drawn from the seed, "
        "biased to boundaries) or one point of a fixed enumeration, run against the real container with the "
        "monitors attached; the oracle is evaluated after every operation. A case is non-trivial when at least two "
        "operations changed the container; two cases are the same when workload, operations and arguments are equal.")


class Check:
    level = "exploration"
    rule = HIST
    technique = "runtime monitoring: reference-model oracle over executed histories"
    note = ""

    def __init__(self, prop, quick=1.0, thorough=1.0, rel=0.3, extra=None, **kw):
        self.prop, self.q, self.t, self.rel, self.extra = prop, quick, thorough, rel, extra
        self.assumptions = [
            "the histories explored are a finite sample; nothing is claimed about paths they do not drive",
            "the reference models, layout decoders and monitors in /verif/harness are right",
        ]
        self.__dict__.update(kw)

    def plan(self, tier):
        th = tier == "thorough"
        bins = B[self.prop]
        jobs = []
        for b in bins:
            jobs.append(job("dbg", b, self.t if th else self.q))
        if th and self.rel:
            for b in bins:
                jobs.append(job("rel", b, self.t * self.rel))
        if self.extra:
            jobs += self.extra(th)
        total = 600.0 if th else 150.0
        for j in jobs:
            j.setdefault("budget", round(total / len(jobs), 1))
        return jobs


def job(variant, b, mult, shards=8, rig=None, **kw):
    return dict(variant=variant, bin=b, mult=mult, shards=shards, rig=rig, **kw)


def asan(bins, q, t):
    return lambda th: [job("asan", b, t if th else q) for b in bins]


def miri(bins, q, t):
    """the abstract machine's own interpreter; shards so that no case waits for another"""
    return lambda th: [job("miri", b, t if th else q) for b in bins]


def both(*fs):
    return lambda th: [j for f in fs for j in f(th)]


def quick_rel(bins, q):
    """release code (no overflow checks, no debug assertions) in the quick tier too"""
    return lambda th: [] if th else [job("rel", b, q) for b in bins]


T_MODEL = "runtime monitoring: reference-model oracle compared with the container after every operation of seeded histories"
CHECKS = {
    "C01": Check("C01", 25, technique=T_MODEL),
    "C02": Check("C02", 25, technique="runtime monitoring: capacity and allocator-event oracle after every operation of seeded histories"),
    "C03": Check("C03", 25, technique=T_MODEL),
    "C04": Check("C04", 25, technique="runtime monitoring: block and index accounting from the monitored allocator after every operation"),
    "C05": Check("C05", 25, technique=T_MODEL),
    "C06": Check("C06", 20, technique=T_MODEL),
    "C07": Check("C07", 25, technique=T_MODEL),
    "C08": Check("C08", 15, technique="runtime monitoring: raw-memory decoder of the bucket structure, checked against an independent rehash policy, after every operation"),
    "C09": Check("C09", 15, technique="runtime monitoring: online checker of every iterator driven from both ends with size hints"),
    "C10": Check("C10", 40, technique=T_MODEL),
    "C11": Check("C11", 12, technique=T_MODEL),
    "C12": Check("C12", 12, technique="runtime monitoring: the byte behind the text read from raw memory inside its live block after every operation"),
    "C13": Check("C13", 40, technique=T_MODEL + "; link walker over raw memory"),
    "C14": Check("C14", 40, technique=T_MODEL + "; pool and link walker over raw memory"),
    "C15": Check("C15", 50, technique=T_MODEL + "; inline-buffer monitor"),
    "C16": Check("C16", 25, technique="runtime monitoring: trees planted in memory from an enumeration of red-black shapes, read through the API and watched while cleared and dropped"),
    "C17": Check("C17", 8, technique="runtime monitoring: element tracker (every value created, moved and destroyed exactly once) over seeded histories"),
    "C18": Check("C18", 8, technique="runtime monitoring: allocator tracker (every block returned once, to its allocator, with its size and alignment) over seeded histories"),
    "C19": Check("C19", 3, extra=both(asan(B["C19"], 1, 2), miri(B["C19"], 0.01, 0.06)),
                 technique="runtime monitoring: AddressSanitizer, the Miri interpreter, and redzoned poisoned memory under seeded histories"),
    "C20": Check("C20", 6, level="fault_enumeration", extra=both(asan(B["C20"], 1, 3), miri(B["C20"], 0.015, 0.08)),
                 technique="fault injection: a panic at every callback of an operation, judged by element, allocator and address-sanitizer monitors"),
    "C21": Check("C21", 6, extra=both(lambda th: [job("tsan", "b_conc", 8 if th else 2)], miri(B["C21"], 0.09, 0.3)),
                 technique="runtime monitoring: ThreadSanitizer and Miri's race detector on concurrent readers, write-protected container pages, answers compared with a lone reader's"),
    "C22": Check("C22", 3, rel=1, technique="runtime monitoring: every default hash compared with EASTL's definition computed independently"),
    "C23": Check("C23", 2, rel=1, extra=quick_rel(B["C23"], 0.6),
                 technique="runtime monitoring: instrumented global allocator under every block the default allocator hands out, with refused requests injected"),
    "C24": Check("C24", 8, technique="runtime monitoring: raw-memory decoders for every container's layout after every operation, and images laid out by hand used through the API"),
    "C25": Check("C25", 8, technique="runtime monitoring: counted comparisons, hashes and allocator calls of every operation against its bound, and the CPU time of single-step operations on containers of up to eight million elements"),
    "C26": Check("C26", 8, technique="runtime monitoring: provenance of tracked elements (original or clone of which value) in copies, moves and conversions"),
    "C27": Check("C27", 8, extra=quick_rel(B["C27"], 2), technique="runtime monitoring: rejected calls with before/after comparison of the container, with and without overflow checks"),
    "C28": Check("C28", 8, technique="runtime monitoring: differential runs of one history with and without moving the container in memory"),
    "C29": Check("C29", 40, technique="runtime monitoring: an independent EASTL stepping rule driven over the raw iterator pairs"),
    # its own driver: tools/borrow.py
    "C30": Check("C30", technique="runtime monitoring: hostile safe programs, each executed under AddressSanitizer with use-after-end and aliasing monitors whenever the compiler lets it run, beside controls that must run clean",
                 note="held on the programs tried: those the compiler refuses have no execution, those it accepts are run and watched; says nothing of programs not tried"),
}
