"""What each property's check runs."""
from vlib import *

RULE_FUNC = (
    "Seeded generators (all lengths, every value at every position, bad bytes, padding, trailing bits, vector-block neighbours, "
    "whitespace, large inputs, one source beyond 4 GiB per operation) drive every entry point of the operations of this property; an independent scalar oracle judges every "
    "call, canaries surround every buffer. evaluations = calls judged over all back ends and builds; distinct_nontrivial = distinct "
    "(operation, non-empty input) pairs, counted by hash in the process that saw most (the other processes repeat them on other back ends)."
)


def functional(c, weight):
    """X.. B.. C.. K I A U N: every entry point against the oracle, on every back end and in the main build configurations."""
    sc = "thorough"
    builds = [HOOK, STATIC["avx2"], STATIC["ssse3"], PLAIN, NATIVE_DBG, UNSTABLE]
    # code that only other platforms compile
    others = [(NEON, "aarch64-neon"), (BARES["i686-avx2"], "i686-avx2"), (BARES["wasm32-simd128"], "wasm32-simd128")]
    if c.thorough:
        others += [(b, lab) for lab, b in BARES.items() if (b, lab) not in others and "checked" not in lab]
        builds += [STATIC["sse4.1"], STD, HOOK_DBG]
    paths = build_all(builds + [b for b, _ in others])
    jobs = []
    seeds = [c.seed] if not c.thorough else [c.seed * 1000 + k for k in range(6)]
    per = {}
    # sources beyond 4 GiB
    if c.prop in ("U01", "U02"):
        pass
    elif c.thorough:
        for lv in range(4, -1, -1):
            jobs.append(Huge(HOOK, ["huge", "--prop", c.prop, "--isa", lv, "--scale", "quick", "--seed", c.seed + lv], "beyond-4GiB/" + LEVELS[lv], group="huge", timeout=700))
        jobs.append(Huge(HOOK, ["huge", "--prop", c.prop, "--isa", 4, "--scale", "thorough", "--all", 1, "--seed", c.seed + 9], "beyond-4GiB/every-entry-point", group="huge", timeout=700))
    elif c.prop not in ("I01", "A01"):
        jobs.append(Huge(HOOK, ["huge", "--prop", c.prop, "--isa", 4, "--scale", "quick", "--seed", c.seed], "beyond-4GiB", group="huge", timeout=500))
    for s in seeds:
        for lv in range(5):
            jobs.append(Job(HOOK, ["suite", "--prop", c.prop, "--isa", lv, "--scale", sc, "--seed", s], "hook/" + LEVELS[lv], group="s%d" % s))
    side = "quick" if not c.thorough else sc
    for b in builds:
        if b is HOOK:
            continue
        if b is HOOK_DBG:
            for lv in range(5):
                jobs.append(Job(b, ["suite", "--prop", c.prop, "--isa", lv, "--scale", "quick", "--seed", c.seed + 1], b.name + "/" + LEVELS[lv], group="side"))
        else:
            jobs.append(Job(b, ["suite", "--prop", c.prop, "--scale", "quick" if b.profile == "dev" else side, "--seed", c.seed + 1], b.name, group="side"))
    for b, lab in others:
        for s in seeds[:2]:
            jobs.append(Job(b, ["suite", "--prop", c.prop, "--scale", "quick", "--sparse", 0 if c.thorough else 1, "--seed", s + 2], lab, group=lab, timeout=850, optional=True))
    for j in run_jobs(jobs, paths):
        if j.res["status"] == "unsupported" and j.build is NEON:
            c.parts.setdefault("not_interpretable", []).append(" ".join(map(str, j.argv)))
            continue
        if c.add(j):
            r = j.res
            p = per.setdefault(j.label, {"calls": 0, "inputs": 0, "expected_ok": 0, "expected_err": 0, "short_destinations": 0})
            for k, q in (("calls", "calls"), ("inputs", "inputs"), ("expected_ok", "ok"), ("expected_err", "err"), ("short_destinations", "short_dst")):
                p[k] += r[q]
    c.parts["per_backend"] = per
    # the variety actually produced is itself part of the verdict
    for lab, p in per.items():
        if p["calls"] < 100 and not lab.startswith("beyond") or p["expected_ok"] == 0:
            c.problems.append("%s observed too little: %s" % (lab, p))
    c.cov["rule"] = RULE_FUNC
    c.assumptions = [
        "Back ends below the CPU's own are reached by hiding features from detection (hook) and by static builds without detection; other platforms: see Z01.",
        "Sampling: inputs outside the generated families were not observed.",
        "Sources beyond 4 GiB repeat one block of 960 KiB (mapped again and again); they are left out on machines without the memory for their results.",
    ]



def run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err"), workers=8):
    """Runs the jobs, folds them in, and keeps per-job counts for the evidence."""
    paths = build_all(builds)
    per = c.parts.setdefault("per_job", {})
    for j in run_jobs(jobs, paths, workers=workers):
        if j.res["status"] == "unsupported" and (j.label == "miri/avx2" or "neon" in j.label):
            # inline assembly, or an instruction that the interpreter (the emulation) lacks
            c.parts.setdefault("not_interpretable", []).append(" ".join(j.argv))
            continue
        if c.add(j):
            p = per.setdefault(j.label, {})
            for k in per_keys:
                if k in j.res:
                    p[k] = p.get(k, 0) + j.res[k]
            p["wall"] = round(p.get("wall", 0) + j.res["wall"], 1)
            if j.res.get("calls", 0) == 0:
                c.problems.append("%s observed nothing" % j.label)
    return paths


def seeds_of(c, n=4):
    return [c.seed] if not c.thorough else [c.seed * 1000 + k for k in range(n)]


def L01(c):
    jobs = []
    for s in [c.seed, c.seed + 1] if not c.thorough else seeds_of(c):
        for b in (HOOK, HOOK_DBG, PLAIN, UNSTABLE):
            jobs.append(Job(b, ["lens", "--scale", "thorough" if c.thorough else "quick", "--seed", s], b.name, group="s%d" % s))
        for lab in ("i686-sse2", "i686-sse2-checked"):
            jobs.append(Job(BARES[lab], ["lens", "--scale", "thorough" if c.thorough else "quick", "--seed", s + 7], lab, group="32"))
            jobs.append(Job(BARES[lab], ["lens", "--scale", "quick" if c.thorough else "small", "--catch", "1", "--seed", s + 8], lab + "/panics", group="32"))
    run_all(c, jobs, [HOOK, HOOK_DBG, PLAIN, UNSTABLE, BARES["i686-sse2"], BARES["i686-sse2-checked"]])
    c.cov["rule"] = "Length arguments: all small n, dense neighbourhoods of every power of two, of usize::MAX and its halves, thirds .. tenths, and random magnitudes; each through all 9 encoded_length, hex decoded_length and 8 estimated_decoded_length functions, judged in 128-bit arithmetic (panic caught where required). distinct_nontrivial = distinct n. Release and overflow-checked builds, for 64-bit and 32-bit x86 (panics there: in forked processes)."


def B04(c):
    jobs = []
    for s in ([c.seed, c.seed + 1] if not c.thorough else seeds_of(c, 8)):
        jobs.append(Job(PAR, ["par", "--scale", "thorough" if c.thorough else "quick", "--seed", s], "par/%d" % s, group="s%d" % s))
    jobs.append(Job(PAR_DBG, ["par", "--scale", "small" if not c.thorough else "quick", "--seed", c.seed], "par-debug", group="dbg"))
    jobs.append(Job(PAR_ASAN, ["par", "--scale", "small" if not c.thorough else "quick", "--seed", c.seed], "par-asan", env={"ASAN_OPTIONS": "detect_leaks=0"}, group="asan"))
    jobs.insert(0, Huge(PAR, ["huge", "--prop", "B04", "--scale", "thorough" if c.thorough else "quick", "--seed", c.seed], "beyond-4GiB", group="huge", timeout=500))
    blame = "/repo/crates/"
    jobs.append(Job(PAR_TSAN, ["par", "--scale", "quick", "--seed", c.seed + 3], "par-tsan", env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, group="tsan", blame=blame))
    for i in range(24 if c.thorough else 6):
        jobs.append(Job(MIRI_PAR, ["par", "--seed", c.seed * 100 + i], "par-miri", env={"MIRI_EXTRA": "-Zmiri-preemption-rate=0.05 -Zmiri-seed=%d" % (c.seed * 100 + i)}, group="miri%d" % i, timeout=850, blame=blame))
    run_all(c, jobs, [PAR, PAR_DBG, PAR_ASAN, PAR_TSAN, MIRI_PAR], per_keys=("calls", "inputs", "ok", "err", "split_inputs"), workers=5)
    if not c.violations and sum(p.get("split_inputs", 0) for p in c.parts["per_job"].values()) < 1000:
        c.problems.append("too few inputs were large enough to be split")
    c.cov["rule"] = "Random inputs whose lengths cover the splitting threshold of each pool size with every remainder modulo 3 and modulo the pool size, in pools of 1..16 (thorough: 32) threads, four variants, exact / roomy / short destinations (canaries inside and around), plus four concurrent callers per pool, and sources beyond 4 GiB; judged against the scalar oracle. ThreadSanitizer (instrumented std) and Miri (random preemption) watch the workers for data races. distinct_nontrivial = distinct (pool, variant, input)."


def M01(c):
    jobs, builds = [], [HOOK, ASAN, STATIC["avx2"], STATIC["ssse3"], UNSTABLE]
    for s in seeds_of(c):
        for lv in range(5):
            jobs.append(Job(ASAN, ["suite", "--prop", "ALL", "--mem", "exact", "--scale", "quick", "--sparse", 0 if c.thorough else 1, "--isa", lv, "--seed", s], "asan/" + LEVELS[lv], env={"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:handle_abort=0"}, group="asan"))
            jobs.append(Job(HOOK, ["suite", "--prop", "M01", "--mem", "guard", "--scale", "thorough" if c.thorough else "quick", "--isa", lv, "--seed", s + 1], "guard/" + LEVELS[lv], group="s%d" % s, timeout=800))
            jobs.append(Job(HOOK, ["suite", "--prop", "M01", "--mem", "guard-ro", "--scale", "quick" if c.thorough else "small", "--isa", lv, "--seed", s + 2], "readonly-source/" + LEVELS[lv], group="ro"))
        for b in builds[2:]:
            jobs.append(Job(b, ["suite", "--prop", "M01", "--mem", "guard", "--scale", "quick", "--sparse", 1, "--seed", s + 3], "guard/" + b.name, group="side"))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "short_dst"))
    c.cov["rule"] = "Every operation that works on caller memory, on buffers that end at (3 of 4 calls) or start right after an unmapped page, with canaries on the other side; sources read-only in a second pass; AddressSanitizer with exact-size heap buffers (all entry points) in a third. Same generators as the functional checks, minimal, roomy and short destinations. distinct_nontrivial = distinct (operation, non-empty input) pairs of the largest pass."


def M03(c):
    jobs = []
    for s in seeds_of(c):
        for lv in range(5):
            jobs.append(Job(HOOK, ["heap", "--scale", "quick", "--isa", lv, "--seed", s], "heap/" + LEVELS[lv], group="heap"))
            jobs.append(Job(HOOK, ["faults", "--scale", "thorough" if c.thorough else "quick", "--isa", lv, "--seed", s], "faults/" + LEVELS[lv], group="faults"))
    for b in (STATIC["avx2"], PLAIN, UNSTABLE, NATIVE_DBG):
        jobs.append(Job(b, ["heap", "--scale", "quick" if b.profile == "release" else "small", "--seed", c.seed + 1], "heap/" + b.name, group="heap"))
        jobs.append(Job(b, ["faults", "--scale", "small", "--seed", c.seed + 1], "faults/" + b.name, group="faults"))
    run_all(c, jobs, [HOOK, STATIC["avx2"], PLAIN, UNSTABLE, NATIVE_DBG], per_keys=("calls", "inputs", "ok", "err", "allocations", "releases", "calls_that_allocated"))
    c.cov["rule"] = "heap: every allocating and appending entry point on generated inputs (valid and invalid) under an allocator that checks every release (layout, once, red zones) and that the books balance after each call and the drop of its result. faults: each allocation of a call is refused in turn in a forked child, which must end on the standard allocation-error path. distinct_nontrivial = distinct (operation, input) pairs."


def P01(c):
    builds = [HOOK_DBG, HOOK, UNSTABLE]
    jobs = []
    for s in seeds_of(c):
        for lv in range(5):
            jobs.append(Job(HOOK_DBG, ["suite", "--prop", "ALL", "--lenient", 1, "--scale", "thorough" if c.thorough else "quick", "--isa", lv, "--seed", s], "debug/" + LEVELS[lv], group="s%d" % s, timeout=800))
            jobs.append(Job(HOOK, ["suite", "--prop", "ALL", "--lenient", 1, "--scale", "quick", "--isa", lv, "--seed", s + 1], "release/" + LEVELS[lv], group="side"))
        jobs.append(Job(HOOK_DBG, ["lens", "--lenient", 1, "--scale", "quick", "--seed", s], "lengths", group="len"))
        jobs.append(Job(UNSTABLE, ["suite", "--prop", "ALL", "--lenient", 1, "--scale", "quick", "--sparse", 1, "--seed", s + 1], "unstable", group="side"))
    for b in (STATIC["avx2"], STATIC["ssse3"], STATIC["sse4.1"], PLAIN):
        d = Build(b.name + "-dbg", flags=b.flags, features=b.features, profile="dev")
        builds.append(d)
        jobs.append(Job(d, ["suite", "--prop", "ALL", "--lenient", 1, "--scale", "quick", "--sparse", 1, "--seed", c.seed + 2], d.name, group="side"))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "mismatch"))
    c.cov["rule"] = "All entry points on all generated inputs in builds with debug assertions and overflow checks (every back end, static and dispatched) and in release builds; any panic, abort, trap, or call that uses 30 s of CPU time counts, except a panic of encoded_length above usize::MAX/2 and of a swap into a shorter destination (caught where they are expected). Wrong results are not judged here. distinct_nontrivial = distinct (operation, non-empty input) pairs."


def D01(c):
    names = [(HOOK, ["--isa", str(lv)], "hook/" + LEVELS[lv]) for lv in range(5)]
    names += [(b, [], b.name) for b in (NATIVE, PLAIN, STATIC["ssse3"], STATIC["sse4.1"], STATIC["avx2"], STD, NATIVE_DBG, UNSTABLE)]
    builds = [b for b, _, _ in names]
    paths = build_all(builds)
    work = os.path.join(BUILD, "trace-%d" % os.getpid())
    os.makedirs(work)
    total = 0
    try:
        for s in seeds_of(c, 3):
            sc = "quick"
            jobs = []
            for k, (b, x, lab) in enumerate(names):
                j = Job(b, ["trace", "--scale", sc, "--seed", s, "--out", "%s/%d" % (work, k)] + x, lab, group="s%d" % s)
                j.k = k
                jobs.append(j)
            done = run_jobs(jobs, paths, stop=False)
            ok = [j for j in done if c.add(j)]
            traces = {}
            for j in ok:
                traces[j.k] = open("%s/%d" % (work, j.k)).read().splitlines()
            if not traces:
                return
            ref = max(traces)  # any one would do: all must be equal
            ref = next(j.k for j in ok if j.label == "alloconly") if any(j.label == "alloconly" for j in ok) else ref
            for j in ok:
                if j.k == ref:
                    continue
                a, b = traces[ref], traces[j.k]
                total += min(len(a), len(b))
                if a == b:
                    continue
                blk = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                # the same block again, call by call
                det = []
                for q in (next(o for o in ok if o.k == ref), j):
                    dj = Job(q.build, [x for x in q.argv if x] + ["--block", blk], q.label)
                    dj.argv[dj.argv.index("--out") + 1] = work + "/d"
                    run_job(dj, paths)
                    det.append([l.split(" ", 7) for l in open(work + "/d").read().splitlines()])
                diff = next(((x, y) for x, y in zip(*det) if x != y), (["?"] * 8, ["?"] * 8))
                x, y = diff
                c.violation(
                    "%s and alloconly differ: %s source %s destination %s: %s instead of %s" % (j.label, x[2], x[5] if len(x) > 5 else "", x[6] if len(x) > 6 else "", y[7] if len(y) > 7 else y, x[7] if len(x) > 7 else x),
                    {"configurations": ["alloconly", j.label], "block": blk, "call": {"reference": x, "other": y}, "command": j.argv},
                )
    finally:
        shutil.rmtree(work, ignore_errors=True)
    c.parts["blocks_compared"] = total
    c.parts["configurations"] = [lab for _, _, lab in names]
    c.cov["rule"] = "One generated call history (all operations, entry points, valid and invalid inputs, short destinations) is recorded in each of %d configurations as digests of 256 calls each and compared offline; a difference is replayed call by call to name the first differing call. evaluations = calls recorded over all configurations; distinct_nontrivial = distinct (operation, non-empty input) pairs of one history." % len(names)


def _half(b64, b32):
    return ",".join(["B64%s(%s)" % (o, v) for o in ("Enc", "Dec", "Chk", "Len") for v in b64] + ["B32%s(%s)" % (o, v) for o in ("Enc", "Dec", "Chk", "Len") for v in b32])


MIRI_HALF_A = _half(("Std", "UrlNoPad"), ("Hex", "StdNoPad"))
MIRI_HALF_B = _half(("Url", "StdNoPad"), ("Std", "HexNoPad"))


def M02(c):
    jobs, builds = [], [MSAN] + [MIRI[k] for k in ("baseline", "ssse3", "sse4.1", "avx2")]
    for s in seeds_of(c, 2):
        for lv in range(5):
            jobs.append(Job(MSAN, ["suite", "--prop", "ALL", "--mem", "exact", "--scale", "quick", "--sparse", 0 if c.thorough else 1, "--isa", lv, "--seed", s], "msan/" + LEVELS[lv], group="msan"))
        for k in ("baseline", "ssse3", "sse4.1", "avx2"):
            skip = {"avx2": MIRI_AVX2_SKIP}.get(k, "")
            if not c.thorough:
                # the two middle levels share the alphabets between them
                skip = {"ssse3": MIRI_HALF_A, "sse4.1": MIRI_HALF_B}.get(k, skip)
            n = 12 if k == "baseline" else 8
            for i in range(n):
                jobs.append(Job(MIRI[k], ["suite", "--prop", "ALL", "--scale", "tiny" if not c.thorough else "small", "--sparse", 0 if k == "baseline" or c.thorough else 1, "--shard", i, "--of", n, "--skip", skip, "--display", 0 if skip else 1, "--seed", s], "miri/" + k, group="miri", timeout=850))
    # code that only other platforms compile
    for k, lab in (("aarch64", "miri/aarch64-neon"), ("i686", "miri/i686")):
        builds.append(MIRI[k])
        for i in range(4):
            jobs.append(Job(MIRI[k], ["suite", "--prop", "ALL", "--scale", "tiny", "--sparse", 0 if c.thorough else 1, "--shard", i, "--of", 4, "--seed", c.seed + 5], lab, group="m" + k, timeout=850))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "short_dst"))
    c.cov["rule"] = "Miri (UB, provenance, alignment as declared, uninitialised reads, leaks) executes every entry point of every operation at baseline SSE2, SSSE3, SSE4.1 and AVX2 (there without the decoders that contain inline assembly), on 64-bit ARM with NEON and on 32-bit x86, on exact-size uninitialised heap buffers, judged by the oracle; MemorySanitizer (all code instrumented, also std) does the same natively on five back ends with more inputs: an output byte that was not written is reported when the oracle reads it. distinct_nontrivial = distinct (operation, non-empty input) pairs of the largest process."


def D03(c):
    builds = [HOOK, NATIVE, TSAN, MIRI_RACE]
    jobs = []
    k = 8 if c.thorough else 1
    for s in seeds_of(c):
        for lv in range(5):
            jobs.append(Job(HOOK, ["race", "--count", 12000 * k, "--isa", lv, "--seed", s * 8 + lv], "race/" + LEVELS[lv], group="s%d" % s, timeout=850))
            jobs.append(Job(TSAN, ["race", "--count", 2000 * k, "--isa", lv, "--seed", s * 8 + lv + 100], "tsan/" + LEVELS[lv], env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, group="tsan", timeout=850))
        jobs.append(Job(NATIVE, ["race", "--count", 12000 * k, "--seed", s + 50], "race/native", group="n", timeout=850))
        # sustained use: fewer processes, many calls
        jobs.append(Job(NATIVE, ["race", "--steady", 60000, "--count", 40 * k, "--seed", s + 60], "steady/native", group="steady", timeout=850))
        for lv in range(5) if c.thorough else (0, 1):
            jobs.append(Job(HOOK, ["race", "--steady", 60000, "--count", 20 * k, "--isa", lv, "--seed", s * 8 + lv + 70], "steady/" + LEVELS[lv], group="steady", timeout=850))
        jobs.append(Job(TSAN, ["race", "--steady", 3000, "--count", 40 * k, "--isa", 4, "--seed", s + 80], "steady/tsan", env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, group="steady", timeout=850))
    for i in range(8 if not c.thorough else 48):
        # each job: one program, several schedules
        jobs.append(Job(MIRI_RACE, ["race", "--threads", 2 + i % 2, "--rounds", 2, "--seed", c.seed * 1000 + i], "miri", env={"MIRI_EXTRA": "-Zmiri-many-seeds=0..6 -Zmiri-preemption-rate=0.1"}, group="miri%d" % i, timeout=850, parse=many_seeds))
    for i in range(0 if not c.thorough else 16):
        jobs.append(Job(MIRI_RACE, ["steady", "--threads", 2 + i % 2, "--calls", 12, "--seed", c.seed * 1000 + i], "miri/steady", env={"MIRI_EXTRA": "-Zmiri-many-seeds=0..6 -Zmiri-preemption-rate=0.1"}, group="miris%d" % i, timeout=850, parse=many_seeds))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "processes", "distinct_schedules", "overlapping_calls", "contended_first_calls"), workers=4)
    pj = c.parts["per_job"]
    for lab in pj:
        if lab.startswith("steady") and not c.violations and pj[lab].get("overlapping_calls", 0) < 1000:
            c.problems.append("%s: the calls hardly ever met" % lab)
        if not lab.startswith(("miri", "steady")) and not c.violations and pj[lab].get("contended_first_calls", 0) < 20:
            c.problems.append("%s: the first calls hardly ever met" % lab)
    c.cov["distinct_nontrivial"] = sum(p.get("distinct_schedules", 0) for p in pj.values())
    c.cov["rule"] = "Each process (forked before any library call, or a fresh Miri execution) is raced by the first calls of 2..8 threads, mostly on the same operation, then by later ones; every result is judged, and the order of starts and ends is recorded. Sustained use: processes whose 2..8 threads repeat their own inputs of a few operations (variants of one, or unrelated ones) 60000 times each, every result judged, overlapping_calls counted. evaluations = judged calls; distinct_nontrivial = sum over jobs of distinct orders seen (within a job; one per process of sustained use). ThreadSanitizer with an instrumented std, and Miri with weak-memory emulation and random preemption, watch the memory accesses."


CPUS = ["sse2", "sse3", "ssse3", "ssse3-with-popcnt", "sse4.1", "sse4.2", "avx", "avx2-without-osxsave", "avx2-without-ymm-state", "avx2", "avx2-only", "native"]


def cpu_flags():
    return open("/proc/cpuinfo").read().split("flags", 1)[1].split("\n", 1)[0].split()


def D04(c):
    flags = cpu_flags()
    # build, level, model of what the features allow, CPU flag needed to run it
    rows = [(STATIC["sse2"], 1, "sse2", None), (BETWEEN["sse3"], 1, "sse3", "pni"), (STATIC["ssse3"], 2, "ssse3", "ssse3"), (STATIC["sse4.1"], 3, "sse4.1", "sse4_1"),
            (BETWEEN["sse4.2"], 3, "sse4.2", "sse4_2"), (BETWEEN["avx"], 3, "avx-only", "avx"), (STATIC["avx2"], 4, "avx2-only", "avx2"), (DETECT_AVX2, 4, "avx2-only", "avx2"), (STD, 1, "sse2", None)]
    for b, lv, cpu, f in list(rows):
        if b in (STATIC["ssse3"], STATIC["sse4.1"], STATIC["avx2"], PLAIN):
            rows.append((Build(b.name + "-dbg", flags=b.flags, features=b.features, profile="dev"), lv, cpu, f))
    for b, lv, cpu, f in list(rows):
        if b in (STATIC["ssse3"], STATIC["avx2"]):
            rows.append((Build(b.name + "-unstable", toolchain=NIGHTLY_2025, flags=b.flags, features="unstable,bins"), lv, cpu, f))
    jobs, builds = [], []
    for b, lv, cpu, f in rows:
        if f and f not in flags:
            c.parts.setdefault("builds_beyond_this_machine", []).append(b.name)
            continue
        builds.append(b)
        for s in seeds_of(c, 6):
            jobs.append(Job(b, ["dispatch", "--cpu", cpu, "--fixed", lv, "--seed", s * 100 + len(jobs), "--reps", (40 if c.thorough else 12) if b.profile == "release" else (12 if c.thorough else 3)], b.name, group=b.name + str(s), timeout=850))
    run_all(c, jobs, builds, per_keys=("calls", "steps", "cpuid", "accelerated_calls"))
    for j in jobs:
        if j.res and j.res["status"] == "ok":
            c.parts["per_job"][j.label]["executed"] = j.res["executed"]
    c.cov["rule"] = "Builds without run-time detection at each level of target features (and one with detection and AVX2), every call of every entry point single-stepped as in D02 (of inputs of 64 KiB to 9 MiB the first 20000 instructions): an executed instruction that needs an extension beyond the features, or a CPUID, is a violation; so is a long valid input that executes too few vector instructions of the best level that the operation has an implementation for. evaluations = stepped calls; distinct_nontrivial = sum over builds of distinct (operation, input) pairs; steps = instructions observed."
    c.cov["distinct_nontrivial"] = sum(v for v in c.parts.get("_d", {}).values())
    c.assumptions = ["Code outside the program's own text (the C library) is not judged. The compiler's own vectorisation of scalar code counts as vector instructions."]


def S01(c):
    jobs = []
    builds = [HOOK, NATIVE, STATIC["avx2"], PLAIN, UNSTABLE, NATIVE_DBG]
    for s in seeds_of(c, 6):
        for lv in range(5):
            jobs.append(Job(HOOK, ["story", "--scale", "thorough" if c.thorough else "quick", "--isa", lv, "--seed", s * 10 + lv], "hook/" + LEVELS[lv], group="s%d.%d" % (s, lv), timeout=850))
        for k, b in enumerate(builds[1:]):
            jobs.append(Job(b, ["story", "--scale", "quick" if b.profile == "release" else "small", "--seed", s * 10 + 5 + k], b.name, group="s%d.%s" % (s, b.name), timeout=850))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "history", "pairs", "threads", "forks", "nested", "panics"))
    c.cov["rule"] = "Processes that make one long history of calls each on one pair of buffers: each entry point tens of thousands to a million times in a row on contents that change (repeats, near duplicates, other lengths, failures), and random mixtures of all operations with long inputs, earlier inputs again, threads that come and go, forks, nested formatting and caught panics in between; every result is judged against what the same arguments must give alone. evaluations = judged calls; distinct_nontrivial = sum over processes of distinct (operation, entry point, input); pairs = distinct (previous call, call) combinations by operation, entry point and outcome."
    c.cov["distinct_nontrivial"] = sum(v for v in c.parts.get("_d", {}).values())
    for lab, p in c.parts["per_job"].items():
        if not c.violations and p.get("pairs", 0) < 1000:
            c.problems.append("%s: too little variety: %s" % (lab, p))
    c.assumptions = ["A history of 2^32 calls was not observed."]


def H01(c):
    builds = [HOOK, HOOK_DBG, STATIC["avx2"], PLAIN, UNSTABLE, ASAN, MIRI["baseline"], MIRI["ssse3"]]
    big = "thorough" if c.thorough else "quick"
    jobs = []
    for s in seeds_of(c, 6):
        for k, name in enumerate(("baseline", "ssse3")):
            for i in range(6 if c.thorough else 2):
                jobs.append(Job(MIRI[name], ["caller", "--watch", 0, "--scale", "tiny", "--seed", s * 100 + 10 * k + i], "miri/" + name, group="m%d.%d%d" % (s, k, i), timeout=850))
        for lv in range(5):
            jobs.append(Job(HOOK, ["caller", "--scale", big, "--isa", lv, "--seed", s * 100 + 20 + lv], "hook/" + LEVELS[lv], group="h%d.%d" % (s, lv), timeout=850))
            jobs.append(Job(HOOK_DBG, ["caller", "--scale", "quick", "--isa", lv, "--seed", s * 100 + 30 + lv], "debug/" + LEVELS[lv], group="d%d.%d" % (s, lv), timeout=850))
            jobs.append(Job(ASAN, ["caller", "--watch", 0, "--scale", "quick", "--isa", lv, "--seed", s * 100 + 40 + lv], "asan/" + LEVELS[lv], env={"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:handle_abort=0"}, group="a%d.%d" % (s, lv), timeout=850))
        for k, b in enumerate((STATIC["avx2"], PLAIN, UNSTABLE)):
            jobs.append(Job(b, ["caller", "--scale", big, "--seed", s * 100 + 50 + k], b.name, group="b%d.%d" % (s, k), timeout=850))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "asked", "panics", "reentrant", "user_types", "writers", "closures"))
    c.cov["rule"] = "Calls whose sources are the caller's own types: the answer changes each time the library asks, the first or second question panics, or the answer is preceded by another call of the library; sources of the usual kinds by value and by reference; conversions to and appends onto the caller's own types; writers that panic while a UUID is written; closures for Native::exec that panic or nest. Judged: result of one answer that was given, panics reach the caller unchanged, target unchanged after a panic, source dropped once and not read afterwards, heap balanced, caller's implementation called once with the source's bytes and the right variant and its error passed on. evaluations = calls; distinct_nontrivial = sum over processes of distinct (operation, entry point, input)."
    c.cov["distinct_nontrivial"] = sum(v for v in c.parts.get("_d", {}).values())
    for lab, p in c.parts["per_job"].items():
        if not c.violations and (p.get("panics", 0) < 3 or p.get("reentrant", 0) < 3 or p.get("user_types", 0) < 3):
            c.problems.append("%s: too little variety: %s" % (lab, p))
    c.assumptions = ["A panic inside an implementation of the caller's traits, and a source that blocks for ever, are the caller's own."]


def T01(c):
    builds = [HOOK, STATIC["avx2"], UNSTABLE]
    jobs = []
    for s in seeds_of(c, 2):
        for lv in range(5):
            n = 4 if lv == 0 or c.thorough else 2
            for i in range(n):
                jobs.append(Job(HOOK, ["work", "--scale", "thorough" if c.thorough else "quick", "--isa", lv, "--shard", i, "--of", n, "--seed", s], "instructions/" + LEVELS[lv], group="i%d%d" % (lv, i), timeout=850))
            jobs.append(Job(HOOK, ["time", "--scale", "thorough" if c.thorough else "quick", "--isa", lv, "--seed", s], "time/" + LEVELS[lv], group="t%d" % lv, timeout=850))
        for b in builds[1:]:
            jobs.append(Job(b, ["work", "--scale", "small" if not c.thorough else "quick", "--seed", s + 1], "instructions/" + b.name, group="i" + b.name, timeout=850))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "steps"))
    for j in jobs:
        if j.res and j.res["status"] == "ok":
            c.parts["per_job"][j.label].setdefault("extremes", []).append(j.res["samples"][-1])
    c.cov["rule"] = "Every entry point on up to 18 kinds of contents (valid, one symbol, random, bad at either end or everywhere, all padding, all or half or scattered whitespace, lines, trailing bits), each at two lengths: executed instructions counted by single-stepping (C library included) against a bound per byte and against each other; bytes requested from the allocator and held at once against the length; stack (by marks below the caller) against 64 KiB; CPU time at 32 KiB, 256 KiB and 2 MiB (eight times the input may take 28 times the time, plus 20 ms; remeasured up to 12 times when slower). evaluations = measured calls; distinct_nontrivial = sum over jobs of distinct (operation, entry point, input)."
    c.cov["distinct_nontrivial"] = sum(v for v in c.parts.get("_d", {}).values())
    c.assumptions = ["Optimised builds only; the parallel encoder is not measured.", "Growth that begins beyond 2 MiB was not observed."]


def D02(c):
    flags = cpu_flags()
    need = {"sse2": [], "sse3": ["pni"], "ssse3": ["ssse3"], "ssse3-with-popcnt": ["ssse3", "popcnt"], "sse4.1": ["sse4_1"], "sse4.2": ["sse4_2"], "avx": ["avx"], "native": []}
    jobs = []
    for s in seeds_of(c, 6):
        for k, cpu in enumerate(CPUS):
            # a model of a CPU can only take features away
            if not all(f in flags for f in need.get(cpu, ["avx2"])):
                c.parts.setdefault("cpus_beyond_this_machine", []).append(cpu)
                continue
            jobs.append(Job(NATIVE, ["dispatch", "--cpu", cpu, "--seed", s * 100 + k, "--reps", 40 if c.thorough else 12], "cpu/" + cpu, group=cpu + str(s), timeout=850))
            jobs.append(Job(NATIVE_DBG, ["dispatch", "--cpu", cpu, "--seed", s * 100 + 50 + k, "--reps", 12 if c.thorough else 3], "debug/" + cpu, group=cpu + str(s), timeout=850))
            # run-time detection on top of features that are already on at compile time
            for st, first in (("ssse3", 2), ("sse4.1", 4)):
                if k >= first:
                    jobs.append(Job(DETECT[st], ["dispatch", "--cpu", cpu, "--seed", s * 100 + 70 + k, "--reps", 20 if c.thorough else 4], st + "+detection/" + cpu, group=cpu + str(s), timeout=850))
    run_all(c, jobs, [NATIVE, NATIVE_DBG] + list(DETECT.values()), per_keys=("calls", "steps", "cpuid", "accelerated_calls"))
    for j in jobs:
        if j.res and j.res["status"] == "ok":
            c.parts["per_job"][j.label]["executed"] = j.res["executed"]
    c.cov["rule"] = "Unmodified builds with run-time detection; in each process CPUID and XGETBV are answered from the model of one CPU, and every call of every entry point (first and later calls, in random order, short, long, valid and corrupted inputs) is single-stepped: each executed instruction of the program's text is classified by the extension it needs and compared with what the CPU reports; long valid inputs must execute instructions of the best level that the operation has an implementation for (at least one per 48..64 bytes). evaluations = stepped calls; distinct_nontrivial = sum over CPU models of distinct (operation, input) pairs; steps = instructions observed."
    c.cov["distinct_nontrivial"] = sum(v for v in c.parts.get("_d", {}).values())
    c.assumptions = ["The classification covers the x86 extensions up to AVX-512, SHA, ADX, XOP; code outside the program's own text (the C library) is not judged.", "CPU models are combinations that exist or that hypervisors present; SSE4.1 without SSSE3 is not among them."]


def Z01(c):
    jobs, builds = [], []
    for lab, b in BARES.items():
        if not c.thorough and lab in ("i686-ssse3", "i686-sse2", "i686-sse4.1", "wasm32-simd128-checked"):
            continue
        builds.append(b)
        for s in seeds_of(c, 4):
            checked = "checked" in lab
            jobs.append(Job(b, ["suite", "--prop", "ALL", "--scale", "small" if checked and not c.thorough else "quick", "--sparse", 0 if c.thorough else 1, "--seed", s], lab, group=lab, timeout=850))
            jobs.append(Job(b, ["lens", "--scale", "quick", "--seed", s], lab + "/lengths", group=lab + "l", timeout=850))
    for lab in BARES if c.thorough else ["i686-avx2"]:
        if lab[0] == "i":
            jobs.insert(0, Huge(BARES[lab], ["big", "--prop", "ALL", "--seed", c.seed], lab + "/up-to-2GiB", group="big", timeout=850))
    for b, lab in ((NEON, "aarch64-neon"), (NEON_DBG, "aarch64-neon-checked")):
        builds.append(b)
        for s in seeds_of(c, 4):
            jobs.append(Job(b, ["suite", "--prop", "ALL", "--scale", "small" if b is NEON_DBG and not c.thorough else "quick", "--sparse", 0 if c.thorough else 1, "--seed", s], lab, group=lab, timeout=850))
            jobs.append(Job(b, ["lens", "--scale", "quick", "--seed", s], lab + "/lengths", group=lab + "l", timeout=850))
    n = 6
    for k in ("s390x", "aarch64", "armv7", "i686") if c.thorough else ("s390x", "aarch64"):
        lab = "miri/" + k + ("-neon" if k == "aarch64" else "")
        builds.append(MIRI[k])
        jobs.append(Job(MIRI[k], ["lens", "--scale", "tiny", "--seed", c.seed], "miri/" + k + "/lengths", group="ml" + k, timeout=850))
        for i in range(n):
            jobs.append(Job(MIRI[k], ["suite", "--prop", "ALL", "--scale", "tiny", "--sparse", 0 if c.thorough else 1, "--shard", i, "--of", n, "--seed", c.seed], lab, group="m" + k, timeout=850))
    run_all(c, jobs, builds, per_keys=("calls", "inputs", "ok", "err", "short_dst", "pointer_bits", "emulated"))
    c.cov["rule"] = "The common API workload, judged by the same oracle: natively on 32-bit x86 (no vector unit, SSE2, SSE4.1, AVX2 builds; with and without overflow checks), in a WebAssembly engine with and without simd128, in Miri on big-endian s390x and 64-bit ARM with NEON (thorough: also armv7 and i686), there with undefined-behaviour detection; the 64-bit ARM code with NEON also natively, compiled for ARM to LLVM's intermediate form and from there for this machine (with and without overflow checks); length functions on all of them, with their panics in Miri; on 32-bit x86 also one source of 0.7 to 1.9 GiB per operation, where products with the length no longer fit. distinct_nontrivial = distinct (operation, non-empty input) pairs of the largest process."
    c.assumptions = [
        "NEON runs without an ARM processor: rustc's ARM front end and the definitions of the instructions that LLVM has no generic form for (bare/neon/host.c: table lookup, rounding average, two-register store) stand in for it.",
        "32-bit ARM NEON (only with the unstable feature) cannot be built here: the one compiler that accepts the feature has no standard library for ARM.",
    ]


ISAS = ["SSE2", "SSSE3", "SSE4.1", "AVX2"]


def vops(c):
    """V01 and V02: every operation of the vector layer against its scalar definition."""
    jobs = []
    for s in seeds_of(c, 3):
        for k, isa in enumerate(ISAS):
            part = c.prop + "@" + isa
            jobs.append(Job(VOPS, ["vops", "--part", part, "--scale", "thorough" if c.thorough else "quick", "--seed", s + k], "x86_64/" + isa, group="main", timeout=850))
            jobs.append(Job(VOPS_DBG, ["vops", "--part", part, "--scale", "quick" if c.thorough else "small", "--seed", s + k + 10], "x86_64-checked/" + isa, group="dbg", timeout=850))
            jobs.append(Job(VOPS_UNSTABLE, ["vops", "--part", part, "--scale", "quick" if c.thorough else "small", "--seed", s + k + 20], "unstable/" + isa, group="unst", timeout=850))
            jobs.append(Job(VOPS_BARES["i686"], ["vops", "--part", part, "--scale", "quick" if c.thorough else "small", "--seed", s + k + 30], "i686/" + isa, group="i686", timeout=850))
        jobs.append(Job(VOPS_NEON, ["vops", "--part", c.prop, "--scale", "quick" if c.thorough or c.prop == "V02" else "small", "--seed", s + 50], "aarch64/neon", group="neon", timeout=850))
        jobs.append(Job(VOPS_BARES["wasm32"], ["vops", "--part", c.prop, "--scale", "quick" if c.thorough or c.prop == "V02" else "small", "--seed", s + 40], "wasm32", group="wasm", timeout=850))
    run_all(c, jobs, [VOPS, VOPS_DBG, VOPS_UNSTABLE, VOPS_NEON] + list(VOPS_BARES.values()), per_keys=("calls", "inputs", "emulated"))
    c.parts["operations_times_instruction_sets"] = {k: p.get("inputs") for k, p in c.parts["per_job"].items()}
    if c.prop == "V01":
        c.cov["rule"] = "Every method of the 64/128/256-bit and width-generic layers, compiled into a function with the instruction set enabled, on SSE2, SSSE3, SSE4.1 and AVX2 (64-bit, 32-bit, debug, unstable feature) WebAssembly simd128 and 64-bit ARM NEON, against lane-by-lane scalar definitions: every pair of byte values in every lane, every 16-bit value in every lane, dense boundary values of all lane widths, single-bit, equal and nearly equal operands, random ones; all immediates of the shifts, 60 of the lane selections; loads and stores at all offsets with everything around compared. distinct_nontrivial = evaluations on the instruction set with the most operations (the others see the same operands); inputs = operations x instruction sets."
    else:
        c.cov["rule"] = "Every composite block on SSE2, SSSE3, SSE4.1 and AVX2 (64-bit, 32-bit, debug, unstable feature) WebAssembly simd128 and 64-bit ARM NEON, against scalar definitions: every byte value at every position among valid neighbours, every pair of neighbouring byte values, several bad bytes, arbitrary blocks; ALSW tables of five alphabets, vector and scalar form; buffer swaps at all offsets and lengths in place and not; run-time choice of an instruction set for a closure. distinct_nontrivial = evaluations on the instruction set with the most operations."
    c.assumptions = ["NEON runs without an ARM processor, through LLVM's intermediate form (see Z01); 32-bit ARM NEON is not observed.", "Which instruction set implements which operation is a fixed table in the harness: an operation newly added for an instruction set is not observed there."]


PLANS = {"H01": H01, "D04": D04, "S01": S01, "T01": T01, "V01": vops, "V02": vops, "Z01": Z01, "D02": D02, "D03": D03, "M02": M02, "L01": L01, "B04": B04, "M01": M01, "M03": M03, "P01": P01, "D01": D01}

for _p in "X01 X02 B01 B02 B03 C01 C02 U01 U02 N01 N02 N03".split():
    PLANS[_p] = lambda c: functional(c, "light")
for _p in "K01 I01 A01".split():
    PLANS[_p] = lambda c: functional(c, "heavy")
