"""Builds the engine, the harness (LLVM IR and shared object from /repo's working tree) and the native runner."""
from concurrent.futures import ThreadPoolExecutor
import os, shutil, struct, subprocess, sys, glob, re, time, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VP_SCRATCH", "/var/tmp/vp")
TOOL = "nightly-2025-04-15-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)


class BuildError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode:
        raise BuildError(" ".join(map(str, cmd)) + "\n" + p.stdout[-6000:])
    return p.stdout


def tools():
    """engine and runner binaries (built once, reused while their sources are unchanged)"""
    os.makedirs(SCRATCH, exist_ok=True)
    with open(SCRATCH + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run([V + "/engine/build.sh", SCRATCH + "/engine"], env=ENV)
        runner = SCRATCH + "/runner"
        src = V + "/runner/runner.c"
        if not os.path.exists(runner) or os.path.getmtime(runner) < os.path.getmtime(src):
            run(["gcc", "-O1", "-rdynamic", src, "-o", runner + ".tmp", "-ldl", "-lm"])
            os.replace(runner + ".tmp", runner)
    return SCRATCH + "/engine/release/symx", runner


RF = ["-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Zcross-crate-inline-threshold=always"]
PROF = ["-Copt-level=2", "-Cpanic=abort", "-Coverflow-checks=on", "-Cdebug-assertions=on"]


class Shard:
    """one compiled piece of the harness: bitcode, shared object, offset of the CPU feature cache, its functions"""

    def __init__(self, idx, fns):
        self.idx, self.fns = idx, fns


def base(name, repo, features):
    """the crate under test as rlib and bitcode, from the working tree; with "rayon" a second build with that feature"""
    d = f"{SCRATCH}/h_{name}"
    src = d + "/crate"
    os.makedirs(src + "/src", exist_ok=True)
    put(src + "/src/lib.rs", "pub use yuv::*;\n")
    put(src + "/Cargo.toml", open(V + "/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{repo}"'))
    put(src + "/Cargo.lock", open(V + "/harness/Cargo.lock").read())
    shutil.rmtree(d + "/target", ignore_errors=True)
    env = dict(ENV, CARGO_TARGET_DIR=d + "/target", RUSTFLAGS=" ".join(RF + ["--emit=llvm-bc"]))
    run(["cargo", "build", "--release", "--lib"], cwd=src, env=env)
    yuv = glob.glob(d + "/target/release/deps/libyuv-*.rlib")
    assert len(yuv) == 1, yuv
    ext = ["--extern", f"yuv={yuv[0]}"]
    if "rayon" in features:
        s2 = d + "/crate2"
        os.makedirs(s2 + "/src", exist_ok=True)
        put(s2 + "/src/lib.rs", "pub use yuv::*;\n")
        put(s2 + "/Cargo.toml", open(src + "/Cargo.toml").read().replace('"rdp"]', '"rdp","rayon"]') + f'[patch.crates-io]\nrayon = {{ path = "{V}/harness/rayon" }}\n')
        put(s2 + "/Cargo.lock", open(V + "/harness/Cargo.rayon.lock").read())
        run(["cargo", "build", "--release", "--lib"], cwd=s2, env=env)
        yuv2 = set(glob.glob(d + "/target/release/deps/libyuv-*.rlib")) - set(yuv)
        assert len(yuv2) == 1, yuv2
        ext += ["--extern", f"yuvr={yuv2.pop()}"]
    return d, ext


def harness(name, fns, features, gen, per=12, repo="/repo"):
    """compiles the harness with call tables for the given functions; returns (bitcode of the dependencies, shards)"""
    d, ext = base(name, repo, features)
    deps = d + "/target/release/deps"
    n = max(1, -(-len(fns) // per))
    # deal the functions out so that the pieces are about the same size
    shards = [Shard(i, fns[i::n]) for i in range(n)]
    procs = []
    for f in glob.glob(d + "/shard*"):
        shutil.rmtree(f)

    def go(s):
        sd = f"{d}/shard{s.idx}"
        os.makedirs(sd + "/src")
        for f in glob.glob(V + "/harness/src/*.rs"):
            put(sd + "/src/" + os.path.basename(f), open(f).read().replace("SHARD", str(s.idx)))
        put(sd + "/src/gen.rs", gen(s.fns))
        cfgs = sum((["--cfg", f'feature="{x}"'] for x in features), [])
        run(["rustc", "--edition=2021", "--crate-type=cdylib", "--crate-name=vph", f"-Cmetadata=s{s.idx}", "-Ccodegen-units=4",
             *RF, *PROF, *cfgs, "--cap-lints=allow", *ext, "-L", f"dependency={deps}",
             "--emit=llvm-bc,link", "--out-dir", sd, sd + "/src/lib.rs"], env=ENV)
        s.bc = sorted(glob.glob(sd + "/*.rcgu.bc"))
        s.so = sd + "/libvph.so"
        nm = run(["nm", s.so])
        m = [l for l in nm.splitlines() if "std_detect" in l and "CACHE" in l and l.split()[1] in "bBdD"]
        s.off = (m[0].split()[0].lstrip("0") if m else "") or "0"

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, shards))
    return sorted(glob.glob(deps + "/*.rcgu.bc")) + stdlib(), shards


def stdlib():
    """bitcode that the toolchain ships inside its core and alloc libraries"""
    root = run(["rustc", "--print", "sysroot"], env=ENV).strip() + "/lib/rustlib/x86_64-unknown-linux-gnu/lib"
    out = []
    for lib in ("core", "alloc"):
        bc = f"{SCRATCH}/std_{lib}.bc"
        out.append(bc)
        if os.path.exists(bc):
            continue
        ar = open(glob.glob(f"{root}/lib{lib}-*.rlib")[0], "rb").read()
        best = b""
        at = 8
        while at < len(ar):   # members of the archive
            n = int(ar[at + 48:at + 58])
            m = ar[at + 60:at + 60 + n]
            at += 60 + n + (n & 1)
            if m[:4] == b"\x7fELF":
                sh, num, six = struct.unpack_from("<Q", m, 40)[0], *struct.unpack_from("<HH", m, 60)
                sec = [struct.unpack_from("<IIQQQQ", m, sh + 64 * i) for i in range(num)]
                names = sec[six][4]
                for s in sec:
                    e = m.index(b"\0", names + s[0])
                    if m[names + s[0]:e] == b".llvmbc" and s[5] > len(best):
                        best = m[s[4]:s[4] + s[5]]
        with open(bc + f".{os.getpid()}", "wb") as f:
            f.write(best)
        os.replace(bc + f".{os.getpid()}", bc)
    return out


def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
