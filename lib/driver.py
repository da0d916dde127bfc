"""Runs one property's check: build from /repo's working tree, symbolic execution + solver, native replay, evidence."""
import json, os, random, subprocess, sys, time, collections
from concurrent.futures import ThreadPoolExecutor
import build, fns
from build import V, SCRATCH

# bits of std_detect's feature cache (nightly-2025-04-15)
_B = {"sse": 10, "avx2": 15, "bw": 23, "vbmi": 27, "vnni": 33, "avxvnni": 40, "f16c": 48}


def _cpu(*k):
    return format(sum(1 << _B[x] for x in k), "x")


CPU = {"scalar": "0", "sse": _cpu("sse"), "avx2": _cpu("sse", "avx2"), "avx512": _cpu("sse", "avx2", "bw"),
       "vbmi": _cpu("sse", "avx2", "bw", "vbmi")}
# further combinations that some paths test for
VNNI = {"avxvnni": _cpu("sse", "avx2", "avxvnni"), "vnni512": _cpu("sse", "avx2", "bw", "vnni"),
        "full": _cpu("sse", "avx2", "bw", "vbmi", "vnni", "avxvnni", "f16c")}
F16C = {"sse_f16c": _cpu("sse", "f16c"), "avx2_f16c": _cpu("sse", "avx2", "f16c"), "avx512_f16c": _cpu("sse", "avx2", "bw", "f16c")}
CPUHEX = {**CPU, **VNNI, **F16C}
NEED = {"sse": ["sse4_1"], "avx2": ["avx2"], "bw": ["avx512bw", "avx512f"], "vbmi": ["avx512vbmi"], "vnni": ["avx512_vnni"],
        "avxvnni": ["avx_vnni"], "f16c": ["f16c"]}
try:
    _flags = set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split())
except (OSError, StopIteration):
    _flags = set()


def host_can(cpu):
    """this machine can run the instructions of the simulated CPU natively"""
    m = int(CPUHEX[cpu], 16)
    return all(f in _flags for k, b in _B.items() if m >> b & 1 for f in NEED[k])


TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
MATRICES = ["Bt601", "Bt709", "Bt2020", "Smpte240", "Bt470_6", "Fcc"]


class Case:
    __slots__ = "fn cpu entry par traces paths id shard".split()

    def __init__(self, fn, cpu, entry, w=1, h=1, range=0, matrix=0, mode=0, order=0, premul=0, depth=0, gamma=0, geo=0,
                 spad=0, dpad=0, stail=0, dtail=0, kr=0, kb=0, x=(), traces=0, paths=64):
        self.fn, self.cpu, self.entry, self.traces, self.paths = fn, cpu, entry, traces, paths
        self.par = [0, w, h, range, matrix, mode, order, premul, depth, gamma, geo, spad, dpad, stail, dtail, kr, kb] + list(x)

    def text(self):
        n = "fn w h range matrix mode order premul depth gamma geo spad dpad stail dtail kr kb".split()
        d = [f"{k}={v}" for k, v in zip(n[1:], self.par[1:]) if v or k in ("w", "h")]
        x = self.par[17:]
        return f"{self.fn.name} [{self.cpu}] {self.entry} " + " ".join(d) + (f" x={x}" if x else "")


def load_known():
    try:
        return json.load(open(V + "/known_findings.json"))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k, t, vals in inputs:
            f.write(f"{'pick' if k == 'pick' else 'sym'} {t} " + " ".join(map(str, vals)) + "\n")


def native(runner, case, inputs, path, mode):
    write_inputs(path, inputs)
    s = case.shard
    p = subprocess.run([runner, s.so, f"{case.entry}_{s.idx}", CPUHEX[case.cpu], s.off, mode, path] + [str(x) for x in case.par],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    return p.stdout.splitlines(), p.stderr[-400:]


ASSUME = [
    "outside the bounds: sizes, matrix/range/mode combinations and row paddings not among the jobs below, NEON and WASM code, the rayon feature, 32-bit targets",
    "trusted: rustc's LLVM IR of the crate (opt-level 2, overflow checks and debug assertions on, all x86 features of the crate), the engine's semantics of that IR and of the x86 "
    "intrinsics (sampled against native execution on every run), z3 and cvc5",
    "allocations succeed; std::is_x86_feature_detected! answers what the job's CPU level says",
]


def bounds(cases):
    def s(i):
        return sorted({c.par[i] for c in cases})
    o = [f"every sample symbolic within its bit depth; {len(cases)} jobs of concrete geometry and configuration",
         f"widths {s(1)}", f"heights {s(2)}", "CPU levels " + ", ".join(sorted({c.cpu for c in cases})), f"ranges {s(3)} (0 limited, 1 full)",
         "matrices " + ", ".join((MATRICES + ["custom"])[i] for i in s(4)), f"conversion modes {s(5)} (0 balanced, 1 fast, 2 professional)",
         f"source row padding {s(11)}, destination row padding {s(12)}, elements after the last row {sorted(set(s(13)) | set(s(14)))} (-1: none, not even padding)",
         "symbolic paths per job at most " + str(max(c.paths for c in cases)), "harness entries " + ", ".join(sorted({c.entry for c in cases}))]
    return o


class Check:
    def __init__(self, pid, features, per=7):
        self.pid, self.features, self.per = pid, features, per
        self.cases = []
        self.bounds = []
        self.assumptions = []
        self.budget = 3000 if THOROUGH else 600
        self.opts = []
        self.large = 2      # wide images per function, besides one tall image
        self.known = None   # callable(case, violation) -> finding id or None

    def add(self, *a, **k):
        self.cases.append(Case(*a, **k))

    def enlarge(self):
        """every function once more on images far wider and far taller than those of the grid"""
        r = random.Random(f"{SEED}/{self.pid}/large")
        by = collections.defaultdict(list)
        for c in self.cases:
            if c.fn.fam != "sharp" and max(c.par[13:15]) < 100 and min(c.par[13:15]) >= 0:
                by[c.fn.name].append(c)
        for l in by.values():
            for k, c in enumerate(r.sample(l, min(len(l), self.large + 1))):
                d = Case(c.fn, c.cpu, c.entry, traces=0, paths=c.paths)
                d.par = list(c.par)
                d.par[1:3] = (r.randrange(1, 24), r.randrange(9, 41)) if k == 0 else (r.randrange(131, 900), r.randrange(1, 3))
                self.cases.append(d)

    def run(self):
        t0 = time.time()
        try:
            return self._run(t0)
        except build.BuildError as e:
            print("BUILD ERROR", e)
            return 2
        except Exception as e:   # never a verdict
            import traceback
            traceback.print_exc()
            return 2

    def _run(self, t0):
        pid = self.pid
        rnd = random.Random(SEED)
        symx, runner = build.tools()
        if self.large:
            self.enlarge()
        used = []
        seen = set()
        for c in self.cases:
            if c.fn.name not in seen:
                seen.add(c.fn.name)
                used.append(c.fn)
        deps, shards = build.harness(pid, used, self.features, fns.gen, self.per)
        where = {}
        for s in shards:
            for i, f in enumerate(s.fns):
                where[f.name] = (s, i)
        t1 = time.time()
        for k, c in enumerate(self.cases):
            c.id = f"j{k}"
            c.shard, c.par[0] = where[c.fn.name]
        # native validation of a sample of the symbolic runs
        ntr = 400 if THOROUGH else 120
        native_ok = [c for c in self.cases if host_can(c.cpu)]
        for c in rnd.sample(native_ok, min(ntr, len(native_ok))):
            c.traces = max(c.traces, 1)
        order = list(self.cases)
        rnd.shuffle(order)
        order.sort(key=lambda c: -(c.par[1] * c.par[2]))
        d = f"{SCRATCH}/h_{pid}"
        with open(d + "/jobs", "w") as f:
            for c in order:
                f.write(f"{c.id} {c.entry}_{c.shard.idx} {CPUHEX[c.cpu]} {c.paths} {c.traces} " + " ".join(map(str, c.par)) + "\n")
        cmd = [symx]
        for b in deps + [b for s in shards for b in s.bc]:
            cmd += ["--bc", b]
        cmd += ["--jobs", d + "/jobs", "--out", d + "/out", "--threads", "8", "--seed", str(SEED), "--total-s", str(self.budget)] + self.opts
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print("ENGINE ERROR", p.stdout[-3000:])
            return 2
        t2 = time.time()
        res, summ = {}, {}
        for l in open(d + "/out"):
            r = json.loads(l)
            if r.get("summary"):
                summ = r
            else:
                res[r["job"]] = r
        viol, errors, inconcl = [], [], []
        tot = collections.Counter()
        covered, funcs = set(), set()
        for c in self.cases:
            r = res.get(c.id)
            if r is None:
                inconcl.append((c, "no result"))
                continue
            for k in ("paths", "steps", "blocks", "asserts", "trivial", "forks", "merges"):
                tot[k] += r[k]
            funcs.update(r["funcs"])
            for e in r["errors"]:
                (inconcl if any(x in e for x in ("unknown", "deadline", "budget", "path limit", "time", "unsupported")) else errors).append((c, e))
            if not r["violations"] and not r["errors"]:
                if not r["reach"]:
                    errors.append((c, "vacuous: the end of the harness was not reached"))
                else:
                    covered.add(c.fn.name)
            for v in r["violations"]:
                viol.append((c, v))
        # replay
        rep = f"{V}/replay"
        confirmed, spurious = [], []
        per_fn = collections.Counter()
        todo = []
        for c, v in viol:
            key = (c.fn.name, c.cpu, v["kind"], v["id"])
            per_fn[key] += 1
            if per_fn[key] <= 2 and len(todo) < 400:
                todo.append((c, v))

        def one(k):
            c, v = todo[k]
            out = []
            if not host_can(c.cpu):
                return c, v, ["NOT REPLAYED: this machine lacks the instructions of " + c.cpu], "-"
            for mode in ("e", "s"):
                try:
                    out, err = native(runner, c, v["inputs"], f"{d}/in{k}", mode)
                except subprocess.TimeoutExpired:
                    out = ["CRASH TIMEOUT"]
                bad = [l for l in out if l.startswith(("FAIL", "CRASH")) and "PANIC-OK" not in l]
                if bad:
                    return c, v, bad, mode
            return c, v, None, out[-3:]

        with ThreadPoolExecutor(8) as ex:
            for c, v, bad, mode in ex.map(one, range(len(todo))):
                (confirmed if bad else spurious).append((c, v, bad, mode))
        # traces
        tr_ok = tr_bad = 0
        trs = [(c, t) for c in self.cases if c.id in res for t in res[c.id]["traces"]]

        def tr(k):
            c, t = trs[k]
            out, err = native(runner, c, t["inputs"], f"{d}/tr{k}", "e")
            want = [f"OUT {tag} {hx}" for tag, hx in t["outs"]]
            got = [l.rstrip() for l in out if l.startswith("OUT")]
            return [x.rstrip() for x in want] == got and any(l.startswith("DONE") for l in out), c, out

        with ThreadPoolExecutor(8) as ex:
            for ok, c, out in ex.map(tr, range(len(trs))):
                if ok:
                    tr_ok += 1
                elif any("PANIC-OK" in l for l in out):
                    pass  # vp_panic_ok(2): the native build stops where the engine follows the wrapped value
                elif c.id in res and res[c.id]["violations"]:
                    pass
                else:
                    tr_bad += 1
                    errors.append((c, "native run differs from the symbolic one: " + " | ".join(out[-2:])[:300]))
        # known findings
        kf = [k for k in load_known()["findings"] if k["property"] == pid]
        hit = collections.Counter()
        fresh = []
        for c, v, bad, mode in confirmed:
            f = self.known(c, v, bad) if self.known else None
            if f and any(k["id"] == f for k in kf):
                hit[f] += 1
            else:
                fresh.append((c, v, bad, mode))
        for k in kf:
            if hit[k["id"]]:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        wall = time.time() - t0
        ev = {
            "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(wall, 1),
            "violations": len(fresh),
            "assumptions": ASSUME + self.assumptions,
            "coverage": {
                "states": tot["blocks"], "transitions": tot["steps"], "traces_validated_against_impl": tr_ok,
                "samples": [c.text() for c in rnd.sample(self.cases, min(12, len(self.cases)))],
                "symbolic_jobs": len(self.cases), "jobs_conclusive": len(self.cases) - len({c.id for c, _ in inconcl}),
                "symbolic_paths": tot["paths"], "state_merges": tot["merges"],
                "assertions_checked": tot["asserts"], "assertions_closed_by_rewriting": tot["trivial"],
                "solver_queries": summ.get("queries"), "queries_answered_by_solver": summ.get("solved"), "queries_from_cache": summ.get("cached"),
                "unsat": summ.get("unsat"), "sat": summ.get("sat"), "unknown": summ.get("unknown"),
                "solver_seconds": summ.get("solver_s"), "slowest_query_seconds": summ.get("max_s"), "by_solver": summ.get("by"),
                "public_functions_encoded": sorted(seen), "public_functions_conclusive": len(covered),
                "ir_functions_executed": len(funcs), "ir_functions_loaded": summ.get("functions"),
                "ir_instructions_loaded": summ.get("instructions"),
                "bounds": self.bounds + bounds(self.cases), "build_seconds": round(t1 - t0, 1), "engine_seconds": round(t2 - t1, 1),
                "counterexamples_found": len(viol), "counterexamples_replayed": len(todo), "counterexamples_confirmed": len(confirmed),
                "inconclusive": [f"{c.text()}: {e}" for c, e in inconcl[:20]],
                "known_findings_seen": dict(hit),
            },
        }
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(f"{V}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid} {TIER}: {len(self.cases)} jobs, {len(seen)} functions, {tot['asserts']} assertions ({tot['trivial']} by rewriting), "
              f"{summ.get('solved')} solver calls {summ.get('solver_s')}s, {tr_ok} native traces agree; build {t1 - t0:.0f}s engine {t2 - t1:.0f}s total {wall:.0f}s")
        if fresh:
            os.makedirs(rep, exist_ok=True)
            shown = collections.Counter()
            for k, (c, v, bad, mode) in enumerate(fresh):
                shown[c.fn.name] += 1
                if shown[c.fn.name] > 1 or len(shown) > 12:
                    continue
                path = f"{rep}/{pid}_{c.fn.name}_{c.cpu}.json"
                with open(path, "w") as f:
                    json.dump({"property": pid, "case": c.text(), "function": c.fn.name, "cpu": c.cpu, "entry": c.entry, "params": c.par,
                               "features": self.features, "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"], "native": bad[:20], "mode": mode}, f)
                print("  ", c.text(), v["kind"], v["id"], v["msg"][:100], "->", bad[0])
                print(f"VIOLATION property={pid} replay={path}")
            print(f"{len(fresh)} confirmed counterexamples in {len(shown)} functions")
            return 1
        for c, v, bad, out in spurious[:10]:
            print("NOT REPRODUCED", c.text(), v["kind"], v["id"], v["msg"][:200], out)
        for c, e in errors[:10]:
            print("ERROR", c.text(), e[:300])
        for c, e in inconcl[:10]:
            print("INCONCLUSIVE", c.text(), e[:300])
        inconcl += [(c, "counterexample not reproduced natively") for c, v, bad, out in spurious]
        if errors:
            print(len(errors), "errors")
            return 2
        if len({c.id for c, _ in inconcl}) > len(self.cases) * 0.1:
            return 2
        return 0
