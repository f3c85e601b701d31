"""Building, running and judging: shared by all checks."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
NIGHTLY_2025 = "nightly-2025-06-20-x86_64-unknown-linux-gnu"
X86 = "x86_64-unknown-linux-gnu"
LEVELS = ["scalar", "sse2", "ssse3", "sse4.1", "avx2"]

T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    """The check could not be carried out; neither held nor violated."""


def sources():
    pats = [
        REPO + "/Cargo.toml",
        REPO + "/crates/*/Cargo.toml",
        REPO + "/crates/*/build.rs",
        REPO + "/crates/*/src/**/*",
        REPO + "/.cargo/*",
        HARNESS + "/Cargo.toml",
        HARNESS + "/Cargo.lock",
        HARNESS + "/src/**/*",
        VERIF + "/bare/Cargo.*",
        VERIF + "/bare/src/**/*",
        VERIF + "/bare/neon/*",
        VERIF + "/tools/*.sh",
    ]
    out = []
    for p in pats:
        out += [f for f in glob.glob(p, recursive=True) if os.path.isfile(f)]
    return sorted(set(out))


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for f in sources():
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _tree = h.hexdigest()
    return _tree


def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI", "ASAN", "TSAN", "MSAN", "RAYON"))}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["RUST_BACKTRACE"] = "0"
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update({k: str(v) for k, v in kw.items()})
    return e


def slot(name, *parts):
    """A build directory that can only ever hold products of exactly these sources and settings."""
    key = hashlib.sha256(("\0".join([tree_hash(), name] + [str(p) for p in parts])).encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, name + "-" + key)
    if not os.path.isdir(d):
        old = sorted(glob.glob(os.path.join(BUILD, glob.escape(name) + "-" + "?" * 16)), key=os.path.getmtime)
        for o in old[:-1]:
            shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    os.utime(d)
    return d


class Build:
    def __init__(self, name, toolchain=STABLE, flags="", features="std,detect,bins", profile="release", args=(), target=None, bin="vh", env=None, sub="build"):
        self.name, self.toolchain, self.flags, self.features = name, toolchain, flags, features
        self.profile, self.args, self.target, self.bin = profile, list(args), target, bin
        self.env, self.sub = env or {}, sub

    def run(self):
        d = slot(self.name, self.toolchain, self.flags, self.features, self.profile, self.args, self.target, self.bin)
        out = os.path.join(d, self.target or "", "release" if self.profile == "release" else "debug", self.bin)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(os.path.join(d, ".ok")) and os.path.exists(out):
                return out
            t = time.time()
            cmd = ["cargo", self.sub, "--offline", "--locked", "--manifest-path", HARNESS + "/Cargo.toml", "--no-default-features", "--features", self.features, "--bin", self.bin]
            if self.profile == "release":
                cmd.append("--release")
            if self.target:
                cmd += ["--target", self.target]
            cmd += self.args
            env = clean_env(CARGO_TARGET_DIR=d, RUSTUP_TOOLCHAIN=self.toolchain, RUSTFLAGS=self.flags, **self.env)
            p = subprocess.run(cmd, env=env, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode != 0 or not os.path.exists(out):
                raise Inconclusive("build %s failed:\n%s" % (self.name, p.stdout[-3000:]))
            open(os.path.join(d, ".ok"), "w").close()
            log("built %s in %.1fs" % (self.name, time.time() - t))
        return out


HOOK = Build("hook", flags="--cfg vsimd_verif")
HOOK_DBG = Build("hookdbg", flags="--cfg vsimd_verif", profile="dev")
NATIVE = Build("native")
NATIVE_DBG = Build("nativedbg", profile="dev")
PLAIN = Build("alloconly", features="bins")
STATIC = {
    "sse2": PLAIN,
    "ssse3": Build("st-ssse3", flags="-C target-feature=+ssse3", features="bins"),
    "sse4.1": Build("st-sse41", flags="-C target-feature=+sse4.1", features="bins"),
    "avx2": Build("st-avx2", flags="-C target-feature=+avx2", features="bins"),
}
DETECT = {
    "ssse3": Build("dt-ssse3", flags="-C target-feature=+ssse3"),
    "sse4.1": Build("dt-sse41", flags="-C target-feature=+sse4.1"),
}
DETECT_AVX2 = Build("dt-avx2", flags="-C target-feature=+avx2")
# levels in between, for which there is no implementation
BETWEEN = {
    "sse3": Build("st-sse3", flags="-C target-feature=+sse3", features="bins"),
    "sse4.2": Build("st-sse42", flags="-C target-feature=+sse4.2", features="bins"),
    "avx": Build("st-avx", flags="-C target-feature=+avx", features="bins"),
}
STD = Build("stdonly", features="std,bins")
UNSTABLE = Build("unstable", toolchain=NIGHTLY_2025, features="std,detect,unstable,bins")
PAR = Build("par", toolchain=NIGHTLY_2025, features="std,detect,unstable,par,bins")
PAR_DBG = Build("pardbg", toolchain=NIGHTLY_2025, features="std,detect,unstable,par,bins", profile="dev")
PAR_ASAN = Build("parasan", toolchain=NIGHTLY_2025, flags="-Zsanitizer=address", features="std,detect,unstable,par,bins", target=X86)
VOPS = Build("vops", features="std,detect,bins,vops")
VOPS_DBG = Build("vopsdbg", features="std,detect,bins,vops", profile="dev")
VOPS_UNSTABLE = Build("vopsunstable", toolchain=NIGHTLY_2025, features="std,detect,unstable,bins,vops")
ASAN = Build("asan", toolchain=NIGHTLY, flags="-Zsanitizer=address -Cforce-frame-pointers=yes --cfg vsimd_verif", target=X86)


MSAN = Build("msan", toolchain=NIGHTLY, flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes --cfg vsimd_verif", target=X86, args=["-Zbuild-std"])
TSAN = Build("tsan", toolchain=NIGHTLY, flags="-Zsanitizer=thread --cfg vsimd_verif", target=X86, args=["-Zbuild-std"])


WRAP = os.path.join(VERIF, "tools", "without-unstable.sh")
PAR_TSAN = Build("partsan", toolchain=NIGHTLY, flags="-Zsanitizer=thread", features="std,detect,unstable,par,bins", target=X86, args=["-Zbuild-std"], env={"RUSTC_WRAPPER": WRAP})


SYMBOLIC = "-Zmiri-symbolic-alignment-check"


class Miri(Build):
    """The interpreter's program for a target; `run` gives a script that takes the program's arguments."""

    def __init__(self, name, target=X86, flags="", miriflags=SYMBOLIC + " -Zmiri-strict-provenance", features="std,detect,mi", library=None, driver=None):
        super().__init__("miri-" + name, toolchain=NIGHTLY, flags=flags, features=features, target=target, bin="mi")
        self.library, self.driver = library, driver
        self.miriflags = miriflags

    def run(self):
        d = slot(self.name, self.flags, self.features, self.target, self.miriflags)
        out = os.path.join(d, "run.sh")
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(os.path.join(d, ".ok")):
                return out
            t = time.time()
            # the interpreter's standard library, shared by all programs for this target
            cache = os.path.join(BUILD, "miri-sysroot-" + self.target)
            os.makedirs(cache, exist_ok=True)
            src = {"MIRI_LIB_SRC": self.library()} if self.library else {}
            env = clean_env(XDG_CACHE_HOME=cache, RUSTUP_TOOLCHAIN=self.toolchain, **src)
            with open(os.path.join(cache, ".lock"), "w") as sl:
                fcntl.flock(sl, fcntl.LOCK_EX)
                p = subprocess.run(["cargo", "miri", "setup", "--target", self.target], env=env, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                if p.returncode:
                    raise Inconclusive("miri setup for %s failed:\n%s" % (self.target, p.stdout[-2000:]))
            q = lambda s: "'%s'" % s
            if self.driver:
                src["MIRI"] = self.driver
            lines = ["#!/bin/sh"]
            for k, v in (("XDG_CACHE_HOME", cache), ("RUSTUP_TOOLCHAIN", self.toolchain), ("CARGO_TARGET_DIR", d), ("RUSTFLAGS", self.flags), *src.items()):
                lines.append("export %s=%s" % (k, q(v)))
            lines.append('export MIRIFLAGS="${MIRI_BASE-%s} $MIRI_EXTRA"' % self.miriflags)
            lines.append("exec cargo miri run -q --offline --locked --manifest-path %s/Cargo.toml --no-default-features --features %s --bin mi --target %s -- \"$@\"" % (HARNESS, self.features, self.target))
            with open(out, "w") as f:
                f.write("\n".join(lines) + "\n")
            os.chmod(out, 0o755)
            p = subprocess.run([out, "none"], env=clean_env(), cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            if not (last_json(p.stdout) or {}).get("status") == "ok":
                raise Inconclusive("the interpreter cannot run the program %s:\n%s" % (self.name, (p.stdout + p.stderr)[-3000:]))
            open(os.path.join(d, ".ok"), "w").close()
            log("built %s in %.1fs" % (self.name, time.time() - t))
        return out


BARE = os.path.join(VERIF, "bare")


def vendor():
    """A source directory for cargo: what the standard library needs, and the registry packages of the bare programs."""
    d = os.path.join(BUILD, "vendor")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "vendor.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/.ok"):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        src = subprocess.run(["rustc", "--print", "sysroot"], env=clean_env(RUSTUP_TOOLCHAIN=NIGHTLY), stdout=subprocess.PIPE, text=True).stdout.strip()
        for f in glob.glob(src + "/lib/rustlib/src/rust/library/vendor/*"):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
        for blk in open(BARE + "/Cargo.lock").read().split("[[package]]"):
            m = dict(re.findall(r'(\w+) = "([^"]*)"', blk))
            if not m.get("source", "").startswith("registry"):
                continue
            nv = m["name"] + "-" + m["version"]
            crate = glob.glob("%s/registry/cache/*/%s.crate" % (home, nv))
            if not crate:
                raise Inconclusive("no cached package " + nv)
            subprocess.run(["tar", "xzf", crate[0], "-C", d], check=True)
            with open("%s/%s/.cargo-checksum.json" % (d, nv), "w") as f:
                json.dump({"files": {}, "package": m["checksum"]}, f)
        open(d + "/.ok", "w").close()
    return d


class Bare(Build):
    """The program without a standard library: 32-bit Linux, or a WebAssembly module run by node."""

    def __init__(self, name, target, flags="", profile="release", features=""):
        super().__init__("bare-" + name, toolchain=NIGHTLY, flags=flags, features=features, profile=profile, target=target, bin="bare")

    def run(self):
        wasm = self.target.startswith("wasm")
        d = slot(self.name, self.flags, self.profile, self.target, self.features)
        out = os.path.join(d, self.target, "release" if self.profile == "release" else "debug", "bare.wasm" if wasm else "bare")
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(os.path.join(d, ".ok")) and os.path.exists(out):
                return out
            t = time.time()
            cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", BARE + "/Cargo.toml", "--target", self.target, "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem"]
            cmd += ["--features", self.features] if self.features else []
            cmd += ["--release"] if self.profile == "release" else []
            flags = self.flags
            if wasm:
                cmd += ["--lib", "--config", 'source.crates-io.replace-with="v"', "--config", 'source.v.directory="%s"' % vendor()]
            else:
                cmd += ["--bin", "bare"]
                flags += " -Clinker=clang -Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static -Clink-arg=-m32 -Crelocation-model=static"
            p = subprocess.run(cmd, env=clean_env(CARGO_TARGET_DIR=d, RUSTUP_TOOLCHAIN=self.toolchain, RUSTFLAGS=flags.strip()), cwd=BARE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode != 0 or not os.path.exists(out):
                raise Inconclusive("build %s failed:\n%s" % (self.name, p.stdout[-3000:]))
            open(os.path.join(d, ".ok"), "w").close()
            log("built %s in %.1fs" % (self.name, time.time() - t))
        return out

    def wrap(self):
        return ["node", BARE + "/run.js"] if self.target.startswith("wasm") else []


LIBFN = {
    "llvm.aarch64.neon.urhadd.v16i8": """fn _vrhaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
        let (a, b): ([u8; 16], [u8; 16]) = unsafe { (crate::mem::transmute(a), crate::mem::transmute(b)) };
        let mut r = [0u8; 16];
        let mut k = 0;
        while k < 16 {
            r[k] = ((a[k] as u16 + b[k] as u16 + 1) >> 1) as u8;
            k += 1;
        }
        unsafe { crate::mem::transmute(r) }
    }""",
    "llvm.aarch64.neon.st1x2.v16i8.p0": """unsafe fn _vst1q_s8_x2(a: int8x16_t, b: int8x16_t, ptr: *mut i8) {
        ptr.cast::<int8x16_t>().write_unaligned(a);
        ptr.add(16).cast::<int8x16_t>().write_unaligned(b);
    }""",
}


def neon_library():
    """The standard library's sources, with definitions of the two NEON instructions that the interpreter lacks."""
    d = os.path.join(BUILD, "neon-src", "library")
    os.makedirs(os.path.dirname(d), exist_ok=True)
    with open(os.path.join(BUILD, "neon-library.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/.ok"):
            return d
        shutil.rmtree(d, ignore_errors=True)
        src = subprocess.run(["rustc", "--print", "sysroot"], env=clean_env(RUSTUP_TOOLCHAIN=NIGHTLY), stdout=subprocess.PIPE, text=True).stdout.strip()
        shutil.copytree(src + "/lib/rustlib/src/rust/library", d, symlinks=True)
        f = d + "/stdarch/crates/core_arch/src/arm_shared/neon/generated.rs"
        s = open(f).read()
        for intr, fn in LIBFN.items():
            i = s.index('link_name = "%s"' % intr)
            a = s.rindex('unsafe extern "llvm-intrinsic" {', 0, i)
            e = s.index("\n    }\n", i) + 6
            s = s[:a] + fn + s[e:]
        open(f, "w").write(s)
        open(d + "/.ok", "w").close()
    return d


class Neon(Build):
    """The ARM code, compiled to LLVM's intermediate form for ARM and from there to this machine's code.

    Almost all NEON instructions are generic vector operations in that form; the rest is defined in bare/neon/host.c."""

    def __init__(self, name, features="", profile="release"):
        super().__init__("neon-" + name, toolchain=NIGHTLY, features=features, profile=profile, target="aarch64-unknown-none")

    def run(self):
        d = slot(self.name, self.profile, self.target, self.features)
        out = os.path.join(d, "neon")
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(os.path.join(d, ".ok")) and os.path.exists(out):
                return out
            t = time.time()
            env = clean_env(CARGO_TARGET_DIR=d, RUSTUP_TOOLCHAIN=self.toolchain, RUSTFLAGS="-Clinker-plugin-lto -Cembed-bitcode=yes")

            def step(cmd, **kw):
                p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800, **kw)
                if p.returncode:
                    raise Inconclusive("build %s failed: %s\n%s" % (self.name, cmd[0], p.stdout[-3000:]))
                return p.stdout

            cmd = ["cargo", "rustc", "--offline", "--locked", "--manifest-path", BARE + "/Cargo.toml", "--target", self.target, "-Zbuild-std=core,alloc", "--lib", "--crate-type", "staticlib"]
            cmd += ["--features", self.features] if self.features else []
            cmd += ["--release"] if self.profile == "release" else []
            step(cmd, cwd=BARE)
            bins = os.path.join(step(["rustc", "--print", "sysroot"]).strip(), "lib/rustlib", X86, "bin")
            o = os.path.join(d, "o")
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            step([bins + "/llvm-ar", "x", os.path.join(d, self.target, "release" if self.profile == "release" else "debug", "libbare.a")], cwd=o)
            mods = [f for f in sorted(glob.glob(o + "/*.o")) if open(f, "rb").read(4) in (b"BC\xc0\xde", b"\xde\xc0\x17\x0b")]
            step([bins + "/llvm-link", "-o", o + "/all.bc"] + mods)
            step([bins + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=run,buf,out,out_len", o + "/all.bc", "-S", "-o", o + "/all.ll"])
            s = open(o + "/all.ll").read()
            s = re.sub(r"(?m)^target datalayout = .*", 'target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"', s)
            s = re.sub(r"(?m)^target triple = .*", 'target triple = "x86_64-unknown-linux-gnu"', s)
            s = re.sub(r'"(target-cpu|target-features|tune-cpu|probe-stack)"="[^"]*"', "", s)
            s = re.sub(r"@(llvm\.aarch64\.[A-Za-z0-9._]+)", lambda m: "@" + m.group(1).replace(".", "_"), s)
            open(o + "/x.ll", "w").write(s)
            need = set(re.findall(r"@(llvm_aarch64_\w+)", s))
            step([bins + "/llc", "-O2", "-filetype=obj", "-relocation-model=static", o + "/x.ll", "-o", o + "/x.o"])
            step(["clang", "-O2", "-Wno-psabi", "-ffreestanding", "-c", BARE + "/neon/host.c", "-o", o + "/host.o"])
            have = set(step([bins + "/llvm-nm", "--defined-only", "-j", o + "/host.o"]).split())
            with open(o + "/missing.c", "w") as f:
                f.write("void neon_missing(const char *);\n")
                for n in sorted(need - have):
                    f.write('void %s(void) { neon_missing("%s"); }\n' % (n, n))
            step(["clang", "-O2", "-ffreestanding", "-nostdlib", "-static", "-o", out, o + "/host.o", o + "/x.o", o + "/missing.c"])
            shutil.rmtree(o)
            open(os.path.join(d, ".ok"), "w").close()
            log("built %s in %.1fs" % (self.name, time.time() - t))
        return out


I686, WASM = "i686-unknown-linux-gnu", "wasm32-unknown-unknown"
BARES = {
    "i586-scalar": Bare("i586", "i586-unknown-linux-gnu"),
    "i686-sse2": Bare("i686", I686),
    "i686-sse2-checked": Bare("i686dbg", I686, profile="dev"),
    "i686-ssse3": Bare("i686-ssse3", I686, flags="-Ctarget-feature=+ssse3"),
    "i686-sse4.1": Bare("i686-sse41", I686, flags="-Ctarget-feature=+sse4.1"),
    "i686-avx2": Bare("i686-avx2", I686, flags="-Ctarget-feature=+avx2"),
    "wasm32-scalar": Bare("wasm", WASM),
    "wasm32-simd128": Bare("wasm-simd", WASM, flags="-Ctarget-feature=+simd128"),
    "wasm32-simd128-checked": Bare("wasm-simd-dbg", WASM, flags="-Ctarget-feature=+simd128", profile="dev"),
}

NEON = Neon("release")
NEON_DBG = Neon("checked", profile="dev")
VOPS_NEON = Neon("vops", features="vops")

VOPS_BARES = {
    "i686": Bare("vops-i686", I686, flags="-Ctarget-feature=+avx2", features="vops"),
    "wasm32": Bare("vops-wasm", WASM, flags="-Ctarget-feature=+simd128", features="vops"),
}

MIRI = {
    "baseline": Miri("baseline"),
    "ssse3": Miri("ssse3", flags="-C target-feature=+ssse3"),
    "sse4.1": Miri("sse41", flags="-C target-feature=+sse4.1"),
    "avx2": Miri("avx2", flags="-C target-feature=+avx2"),
    "i686": Miri("i686", target="i686-unknown-linux-gnu"),
    "s390x": Miri("s390x", target="s390x-unknown-linux-gnu"),
    "aarch64": Miri("aarch64", target="aarch64-unknown-linux-gnu", library=neon_library),
    "armv7": Miri("armv7", target="armv7-unknown-linux-gnueabihf"),
}
# rayon: its epoch collector is not for Stacked Borrows, and its threads stay
MIRI_PAR = Miri("par", miriflags="-Zmiri-tree-borrows -Zmiri-ignore-leaks", features="std,detect,unstable,par,mi", driver=os.path.join(VERIF, "tools", "miri-without-unstable.sh"))
MIRI_RACE = Miri("race", miriflags="")
# operations the interpreter cannot run with AVX2: their code has inline assembly
MIRI_AVX2_SKIP = "HexDec,Forg,B64Dec,B32Dec,UuidParse"


def build_all(builds):
    uniq = {b.name: b for b in builds}
    paths, errs = {}, []
    with cf.ThreadPoolExecutor(4) as ex:
        fut = {ex.submit(b.run): n for n, b in uniq.items()}
        for f in cf.as_completed(fut):
            try:
                paths[fut[f]] = f.result()
            except subprocess.TimeoutExpired:
                errs.append("build %s timed out" % fut[f])
                paths[fut[f]] = Inconclusive(errs[-1])
            except Inconclusive as e:
                errs.append(str(e))
                paths[fut[f]] = e
    paths["errors"] = errs
    if len(errs) == len(uniq):
        raise Inconclusive("\n".join(errs))
    return paths


class Job:
    """One process. `label` says what it is in reports; `argv` after the program."""

    def __init__(self, build, argv, label, env=None, timeout=600, stdin=None, parse=None, wrap=None, group=None, blame=None, optional=False):
        # a sanitizer's report that does not mention this is about something else than the code under test
        self.blame = blame
        self.build, self.argv, self.label = build, [str(a) for a in argv], label
        self.env, self.timeout, self.stdin, self.parse, self.wrap, self.group = env or {}, timeout, stdin, parse, wrap or [], group
        # judged as the others, but no problem of the check where it cannot run
        self.optional = optional
        self.res = None


def last_json(text):
    for line in reversed(text.splitlines()):
        line = line.strip()
        if line.startswith("{") and '"status"' in line:
            try:
                return json.loads(line)
            except ValueError:
                return None
    return None


def many_seeds(out):
    """Miri ran the same program several times: all executions must have ended with ok."""
    rs, scheds = [], set()
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if "schedule" in d:
            scheds.add(d["schedule"])
        if "status" in d:
            if d["status"] != "ok":
                return d
            rs.append(d)
    if not rs:
        return None
    return {"status": "ok", "calls": sum(r["calls"] for r in rs), "ok": sum(r["ok"] for r in rs), "inputs": sum(r["inputs"] for r in rs), "distinct": len(scheds), "processes": len(rs), "distinct_schedules": len(scheds), "samples": []}


class Huge(Job):
    """Wants much memory: one at a time, and what the machine cannot give is no problem of the check."""

    lock = threading.Lock()


SAN = re.compile(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|ERROR: LeakSanitizer|runtime error:|error: Undefined Behavior|SUMMARY: \w+Sanitizer|error: memory leaked|error: the evaluated program deadlocked)")
SAN_ENV = re.compile(r"(AddressSanitizer:? out of memory|failed to allocate|allocator is out of memory|ReserveShadowMemoryRange failed|unexpected memory mapping|Shadow memory range)")


def run_job(job, paths):
    if isinstance(job, Huge):
        with job.lock:
            return run_one(job, paths)
    return run_one(job, paths)


def run_one(job, paths):
    prog = [paths[job.build.name]] if job.build else []
    if prog and isinstance(prog[0], Inconclusive):
        # the others still run: what they find counts
        job.res = {"status": "error", "why": str(prog[0])}
        return job
    if isinstance(job.build, Bare):
        prog = job.build.wrap() + prog
    cmd = job.wrap + prog + job.argv
    t = time.time()
    try:
        p = subprocess.Popen(cmd, env=clean_env(**job.env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, cwd=HARNESS)
        try:
            o, e = p.communicate(timeout=job.timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            job.res = {"status": "timeout", "why": "no result within %d s" % job.timeout}
            return job
        rc = p.returncode
    except OSError as x:
        job.res = {"status": "error", "why": str(x)}
        return job
    r = (job.parse or last_json)(o)
    san = SAN.search(e) or SAN.search(o)
    if san and not SAN_ENV.search(e):
        r = dict(r or {})
        r["status"] = "sanitizer"
        r["report"] = (e if SAN.search(e) else o)[-6000:]
        m = re.search(r"SUMMARY: .*|error: Undefined Behavior: .*", r["report"])
        r["what"] = m.group(0) if m else san.group(0)
        if job.blame and job.blame not in e:
            r = {"status": "foreign", "why": r["what"]}
        elif isinstance(job.build, Miri) and "alignment" in r["what"] and "MIRI_BASE" not in job.env and SYMBOLIC in job.build.miriflags:
            # Code may look at the address and use aligned accesses where it happens to be aligned, which
            # the interpreter does not know in this mode. Real addresses decide, several placements of them.
            job.env["MIRI_BASE"] = job.build.miriflags.replace(SYMBOLIC, "").strip()
            job.env["MIRI_EXTRA"] = job.env.get("MIRI_EXTRA", "") + " -Zmiri-many-seeds=0..6"
            job.parse = many_seeds
            return run_one(job, paths)
    elif r is None and "unsupported operation" in e:
        r = {"status": "unsupported", "why": "\n".join(e.splitlines()[:12])}
    elif r is None:
        if rc < 0 and -rc in (4, 5, 6, 7, 8, 11):
            r = {"status": "crash", "signal": -rc, "what": "killed by signal %d" % -rc, "stderr": e[-2000:]}
        else:
            r = {"status": "error", "why": "exit %s without a result: %s" % (rc, (e or o)[-2000:])}
    r["wall"] = round(time.time() - t, 2)
    r["stderr"] = e[-1500:] if r["status"] != "ok" else ""
    job.res = r
    return job


def run_jobs(jobs, paths, workers=8, stop=True):
    """Runs all; after the first violation, the not yet started ones are dropped."""
    halt = threading.Event()

    def one(j):
        if stop and halt.is_set():
            return j
        run_job(j, paths)
        if j.res["status"] in BAD:
            halt.set()
        return j

    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, jobs))
    return [j for j in jobs if j.res is not None]


BAD = ("fail", "panic", "crash", "hangs", "sanitizer")


def known():
    """Findings recorded for this tree: 'finding: property=ID key=REGEX :: text'."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []
        self.known_hit = []
        self.problems = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.parts = {}
        self.level = "exploration"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, what, detail, key=None):
        key = key or what
        for pid, k, text in known():
            if pid == self.prop and re.search(k, key):
                if text not in self.known_hit:
                    self.known_hit.append(text)
                return
        n = len(self.violations)
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "replay-%s-%d.json" % (self.prop, n))
        doc = {"property": self.prop, "what": what, "tier": self.tier, "seed": self.seed}
        doc.update(detail)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, default=str)
        self.violations.append((what, path))

    def add(self, job, calls=None, distinct=None):
        """Folds one job's result in."""
        r = job.res
        st = r["status"]
        if st == "foreign":
            self.parts.setdefault("reports_about_other_code", []).append("%s: %s" % (job.label, r["why"]))
            return False
        if (isinstance(job, Huge) or job.optional) and st in ("error", "unclear", "timeout"):
            self.parts.setdefault("not_observed", []).append("%s: %s" % (job.label, r.get("why") or st))
            return False
        if st == "ok":
            self.cov["evaluations"] += r.get("calls", 0) if calls is None else calls
            g = job.group or "main"
            d = r.get("distinct", 0) if distinct is None else distinct
            self.parts.setdefault("_d", {})
            self.parts["_d"][g] = max(self.parts["_d"].get(g, 0), d)
            if len(self.cov["samples"]) < 8:
                self.cov["samples"] += [s for s in r.get("samples", [])[:2]]
            return True
        if st in BAD:
            what = "%s: %s %s" % (job.label, r.get("what") or st, r.get("op") or "")
            if st == "crash":
                what = "%s: signal %s %s" % (job.label, r.get("signal"), r.get("what", ""))
            cmd = " ".join(job.wrap + [job.build.name if job.build else ""] + job.argv)
            d = {"job": job.label, "command": cmd, "result": r, "build": vars(job.build) if type(job.build) is Build else None}
            if job.build and not isinstance(job, Huge) and r.get("sem") and r.get("src") is not None:
                d["replay_argv"] = ["call", "--sem", str(r["sem"]), "--mode", str(r.get("mode", 0)), "--src", r["src"], "--dst", str(r.get("dst_len", 0))] + (["--rest", "1"] if self.prop in ("M01", "N03") else []) + isa_args(job.argv)
            self.violation(what.strip(), d, key="%s %s %s" % (job.label, what, r.get("src", "")))
            return False
        self.problems.append("%s: %s" % (job.label, r.get("why") or st))
        return False

    def finish(self):
        self.cov["distinct_nontrivial"] = self.cov.get("distinct_nontrivial") or max(list(self.parts.pop("_d", {}).values()) + [0])
        self.parts.pop("_d", None)
        self.cov.update(self.parts)
        doc = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            for what, path in self.violations[:5]:
                print("  " + what[:600])
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        if self.problems:
            for p in self.problems[:10]:
                print("INCONCLUSIVE property=%s %s" % (self.prop, p[:3000]), flush=True)
            return 3
        if not self.cov["evaluations"] or not self.cov["distinct_nontrivial"]:
            print("INCONCLUSIVE property=%s nothing was observed" % self.prop)
            return 3
        print("held property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.tier, self.seed, self.cov["evaluations"], self.cov["distinct_nontrivial"], time.time() - T0))
        return 0


def isa_args(argv):
    return argv[argv.index("--isa"):argv.index("--isa") + 2] if "--isa" in argv else []
