"""What each check runs: build variants, number of cases, and the rule for non-trivial cases."""

VARIANTS = {
    # default features + stats, with debug assertions and overflow checks
    "checked": {"features": "full,stats", "args": [], "out": "debug"},
    # as users ship it: optimised, no assertions, no stats
    "release": {"features": "full", "args": ["--release"], "out": "release"},
    # no default features (std locks and hasher), optimised, with stats
    "nodefault": {"features": "stats", "args": ["--release"], "out": "release"},
    # every scheduling decision of threads, locks and atomics is generated
    "shuttle": {"features": "full,stats,shuttle", "args": [], "out": "debug"},
    # memory errors end the process
    "asan": {"features": "full,stats", "args": ["--target", "x86_64-unknown-linux-gnu"], "toolchain": ["+nightly"], "env": {"RUSTFLAGS": "-Zsanitizer=address"},
             "run_env": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"}, "out": "x86_64-unknown-linux-gnu/debug", "noas": True, "share": 0.3},
}

CONC = ["shuttle"] * 6 + ["checked", "nodefault"]
# sequential histories, and concurrent ones under generated schedules
BOTH = ["checked"] * 3 + ["release"] * 2 + ["nodefault"] + ["shuttle"] * 2
SEQ = ["checked"] * 4 + ["release"] * 2 + ["nodefault"] * 2
MIX = "a case is one tape: a random configuration (capacity incl. 0/1/2^61, allocations, hasher incl. constant ones, shards, weights 0..capacity+1, pins, before_evict behaviour) and a random operation sequence; "


PR = "; a quarter of the cases (shuttle build) is concurrent: 2-3 threads with up to 6 calls each on a cache of capacity 2-8, with a recording lifecycle, under a generated schedule; non-trivial: values were evicted and at least two threads made calls"


def both(rule, quick=640_000, thorough=10_000_000):
    return seq(rule + PR, quick, thorough, BOTH)


def seq(rule, quick=520_000, thorough=8_000_000, workers=SEQ):
    return {"workers": workers, "cases": {"quick": quick, "thorough": thorough}, "rule": MIX + rule}


CR = "a case is 2-4 threads with up to 5 calls each (blocking and async get-or-insert and guard calls with timeouts, cancellation, failing loaders; reads; inserts, replaces, removals, clears, retains) on 1-3 keys, run under a generated schedule (shuttle build: every decision is part of the case) or on real threads; "

PROPS = {
    "C01": both("non-trivial: at least one lookup hit and at least one overwrite, removal or eviction"),
    "C02": both("non-trivial: at least one eviction or refusal"),
    "C03": both("non-trivial: at least one eviction"),
    "C04": both("non-trivial: at least one eviction and another eviction, removal or in-place mutation"),
    "C05": both("non-trivial: at least one eviction or refusal, and at least one overwrite"),
    "C06": both("non-trivial: an insertion over capacity while pinned entries exist, or evictions while a zero-weight entry is stored"),
    "C07": both("non-trivial: at least one eviction or refusal"),
    "C08": seq("non-trivial: at least one in-place mutation and at least one eviction"),
    "C09": both("non-trivial: at least one entry removed"),
    "C10": both("non-trivial: at least one value replaced or overwritten"),
    "C15": seq("non-trivial: at least two guard operations and an abandoned load or displaced guard"),
    "C21": both("non-trivial: at least one eviction, removal or abandoned load"),
    "C23": seq("non-trivial: both hits and misses occurred" + PR, workers=["checked"] * 4 + ["nodefault"] * 2 + ["shuttle"] * 2),
    "C11": seq("it is run on two caches, one of which gets neutral operations in between; non-trivial: neutral operations and evictions occurred", quick=1_200_000),
    "C13": seq("it is run on an unsync cache, a single-shard sync cache and caches with other hash functions; non-trivial: evictions occurred", quick=1_500_000),
    "C14": seq("the cache is cloned at random points, diverges and continues in lockstep; non-trivial: a clone was made and evictions or refusals followed", quick=1_800_000),
    "C12": {"workers": SEQ, "cases": {"quick": 1_800_000, "thorough": 20_000_000}, "rule": "a case is a random instance of one of six scenarios (scan resistance, remembered keys, promotion of used entries, order among hot entries, complete fill-up, staying full) with a random capacity, allocations, ways of admission and reading; non-trivial: the scenario applies (its shares are not empty) and put the cache under pressure"},
    "C18": {"workers": ["checked"] * 3 + ["release"] * 2 + ["nodefault"] + ["shuttle"] * 2, "cases": {"quick": 1_500_000, "thorough": 12_000_000}, "rule": "a case is a random interleaving of creating, polling (with the same or a new waker), waking and dropping waiting futures, resolving guards and loaders, and inserts, removals and clears of the same keys; or (shuttle build) 2-4 tasks with async calls and cancellation under a generated schedule; non-trivial: a value or the loading right was passed to at least one waiting future"},
    "C16": {"workers": CONC, "cases": {"quick": 1_300_000, "thorough": 13_000_000}, "rule": CR + "non-trivial: a value or the loading right was handed to a waiting call, or calls on one key overlapped"},
    "C17": {"workers": CONC, "cases": {"quick": 1_300_000, "thorough": 13_000_000}, "rule": CR + "non-trivial: a value or the loading right was handed to a waiting call, or calls on one key overlapped"},
    "C19": {"workers": CONC, "cases": {"quick": 1_300_000, "thorough": 13_000_000}, "rule": CR + "non-trivial: a value or the loading right was handed to a waiting call, or calls on one key overlapped"},
    "C20": {"workers": ["shuttle"] * 2 + ["checked"] * 3 + ["nodefault", "release", "release"], "cases": {"quick": 64_000, "thorough": 800_000}, "secs": 90, "rule": "a case is a set of waiters with zero, short, huge or no timeouts, a holder that inserts, gives up or is displaced at a generated time, and meaningless unparks, in real time (or, in the shuttle build, under a generated schedule); non-trivial: at least one call timed out or waited"},
    "C22": {"workers": SEQ, "cases": {"quick": 900_000, "thorough": 3_000_000}, "rule": "a case is a random set of options (or constructor arguments, or invalid options) and a fill-up; non-trivial: more than one shard, or a constructor, unsync or rejection case"},
    "C24": seq("one of the eight workers runs under AddressSanitizer; non-trivial: at least one eviction, refusal, removal or mutation", workers=["checked"] * 3 + ["release"] * 2 + ["nodefault"] * 2 + ["asan"]),
    "C25": {"workers": ["shuttle"] * 8, "cases": {"quick": 700_000, "thorough": 10_000_000}, "rule": "a case is a small sync cache (default lifecycle, or one that keeps all displaced items until the request ends) and a random sequence of up to 24 calls in which loaders, begin_request, end_request and the dropping of displaced values call back into the same cache, run under a scheduler that reports a lock taken twice; non-trivial: at least two calls from within calls, one of them by a value being dropped"},
    "C26": {"workers": ["checked", "release", "release", "release", "nodefault", "nodefault", "nodefault", "checked"], "cases": {"quick": 300_000, "thorough": 4_000_000}, "rule": "a case is a random configuration and 400-2000 rounds of a random mix of 2-8 operations whose allocator calls are counted; non-trivial: the mix inserts"},
    "C27": {"workers": ["shuttle"] * 5 + ["checked", "release", "nodefault"], "cases": {"quick": 400_000, "thorough": 6_000_000}, "rule": "a case is a cache with 1-8 shards and stored keys, and either 1-3 threads stopped inside a read (in Clone or in a key comparison) while another thread makes up to 5 reads, or a load in progress (closure, guard or async; up to 2 blocked and 2 pending waiters) while another thread makes up to 6 calls, or a call stopped in a key comparison while 40 threads use other keys, perhaps with a call on the whole cache waiting; nobody goes on until the other thread is done; non-trivial: a lookup (first kind), a modifying call (second kind), always (third kind)"},
    "C28": {"workers": ["checked"] * 5 + ["release"] * 3, "cases": {"quick": 500_000, "thorough": 8_000_000}, "technique": "property testing with injected faults: generated histories in which user code panics at generated points, against a model of the contents, reservations, waiters and live objects, with shrinking", "rule": "a case is a random configuration and up to 50 calls on the sync cache (with guards and waiting futures), the unsync cache, or waiting threads, in which the n-th copy of a value, comparison or copy of a key, predicate or loader panics; non-trivial: at least two calls were interrupted by a panic (with threads: one)"},
    "C29": {"workers": SEQ, "cases": {"quick": 240_000, "thorough": 3_000_000}, "rule": "a case is a cache of 600-3000 entries (one in 400: 131072) filled to half, fully or twice, and as many rounds of a random mix of 1-4 kinds of calls, whose calls of the user's code (or processor time) are counted; non-trivial: the mix is not just size queries"},
}
