#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans that exist."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNC = ("online oracle monitor over generated call histories, per back end, with buffer canaries",
        "Held on every observed call (millions per run, every entry point, all five x86 back ends plus static, debug and unstable builds, sources from 0 bytes to beyond 4 GiB). Sampling: no claim about inputs outside the generated families. Trusts the scalar oracle in harness/src/spec.rs and the feature-hiding hook.")
T = {p: FUNC for p in "X01 X02 B01 B02 B03 C01 C02 K01 I01 A01 U01 U02 N01 N02 N03".split()}
T.update({
 "B04": ("differential monitor of the parallel encoder under varied thread pools, canaries and AddressSanitizer", "Held on the observed inputs, pool sizes (1..17 threads, nested and concurrent use) and destination lengths; schedules are those rayon produced. Trusts the oracle; the parallel feature only builds with nightly-2025-06-20."),
 "L01": ("oracle monitor over length arguments incl. the extremes of usize, with and without overflow checks", "Held on all arguments up to a bound, on dense neighbourhoods of every power of two and of the usize limits, in release and overflow-checked arithmetic, on 64-bit; 32-bit values are observed by Z01."),
 "M01": ("guard pages on both sides of source and destination, read-only sources, canaries, AddressSanitizer", "No access outside the buffers on the observed calls, for every back end: any stray access next to a buffer faults. Accesses that jump a whole page past the guards would only be seen by AddressSanitizer."),
 "M02": ("Miri (symbolic alignment, several ISA levels) and MemorySanitizer over instrumented std", "No undefined behaviour and no use of uninitialised memory in the observed executions. Miri cannot run the AVX2 decoders (inline assembly); those are covered by MemorySanitizer/AddressSanitizer only. NEON runs in Miri in Z01."),
 "M03": ("checking global allocator (layout, double free, leak, red zones) per call and allocation-failure injection at every allocation", "Every allocation event of every observed call was checked; every allocation made by a call is failed in turn in a forked child, whose end is observed."),
 "D01": ("offline comparison of recorded call traces across back ends and build configurations", "All configurations returned identical results on the recorded histories (result kind, bytes, panics)."),
 "D02": ("every executed instruction single-stepped and classified against an emulated CPUID", "Every instruction executed inside the program for the driven calls was compared with what the modelled CPU reports; first and later calls, all operations, 12 CPU models. Features this machine lacks cannot be modelled."),
 "D04": ("every executed instruction of statically configured builds single-stepped and classified", "Every instruction executed inside the program for the driven calls was compared with what the build's target features allow; all operations, 7 feature levels, release and debug."),
 "S01": ("oracle monitor over long call histories in one process, on reused buffers", "Held on every call of the observed histories (tens of millions of calls per process, threads, forks, nested calls and panics in between). A counter that wraps after 2^32 calls would not be seen."),
 "H01": ("monitors inside the callbacks (sources, trait implementations, writers, closures) with oracle and heap account, AddressSanitizer, Miri", "Held on the observed calls (hundreds of thousands per run) with sources that change, panic, re-enter; user implementations; panicking writers and closures; Miri on two levels."),
 "T01": ("instruction counting by single-stepping, allocator accounting and CPU-time growth per call", "Held on the observed kinds of contents: instructions at two lengths per kind, time up to 2 MiB, memory up to 256 KiB. The bounds leave a factor of about six above the current tree."),
 "D03": ("racing first calls in fresh processes, ThreadSanitizer with instrumented std, Miri with many schedules", "No data race and no wrong result in the observed schedules (thousands of fresh processes, many Miri seeds)."),
 "V01": ("scalar-model monitor of each vector primitive on each instruction set", "Held on the observed operands: exhaustive for pairs of byte values, boundary-dense and random for wider lanes; x86-64 and 32-bit x86 at four levels WebAssembly simd128 and 64-bit ARM NEON (its code compiled for ARM to LLVM's intermediate form, from there for this machine)."),
 "V02": ("scalar-model monitor of each building block on each instruction set", "Held on the observed blocks, exhaustive over byte values and neighbouring pairs; x86-64 and 32-bit x86 at four levels WebAssembly simd128 and 64-bit ARM NEON (its code compiled for ARM to LLVM's intermediate form, from there for this machine)."),
 "P01": ("panic, abort, overflow and hang monitor over all suites in debug-assertion builds of every back end", "No undocumented panic, abort, arithmetic overflow or stuck call on the observed calls; a call is stuck after 30 s of CPU time (usual maximum: milliseconds)."),
 "Z01": ("oracle monitor on native 32-bit x86, in a WebAssembly engine (with and without simd128) in Miri on big-endian and ARM targets, and of 64-bit ARM NEON code translated to this machine", "Held on the observed calls on i586/i686 (native), wasm32 (node), s390x and aarch64 with NEON (Miri; thorough: armv7 and i686 too), NEON also natively by way of LLVM's intermediate form. 32-bit ARM NEON cannot be built here."),
})
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i + " --tier thorough", "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "exploration" if i != "M03" else "fault_enumeration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
doc = {"version": 1, "setup_cmd": "./check build", "hooks": {"guard": "--cfg vsimd_verif", "enable": "RUSTFLAGS=\"--cfg vsimd_verif\" when building the harness crate in /verif/harness (path dependencies on /repo/crates); vsimd::isa::verif::set_x86_level then hides CPU features from run-time detection", "source_commits": [os.popen("git -C /repo log --format=%H --grep='^Verification hook'").read().split()[0]]}, "checks": checks, "not_applicable": na}
json.dump(doc, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
