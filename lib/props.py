"""The properties: which calls are encoded for each, with what parameters."""
import random
from driver import Check, CPU, VNNI, F16C, MATRICES, THOROUGH, SEED
from fns import FNS, BY

CHECKS = {}
LIA = ["--lia-ms", "20000", "--bv-ms", "20000", "--last-ms", "60000"]
# widths that reach every vector loop, every narrower one and the scalar tail
KEYW = [123, 61, 59, 27, 9, 3, 2, 1]


def prop(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


class Widths:
    """key widths first, then a pseudo random walk over 1..top without repetition"""

    def __init__(self, tag, top=130):
        r = random.Random(f"{SEED}/{tag}")
        self.l = list(KEYW)
        rest = [w for w in range(1, top + 1) if w not in KEYW]
        r.shuffle(rest)
        self.l += rest
        self.k = 0

    def next(self):
        self.k += 1
        return self.l[(self.k - 1) % len(self.l)]


def pads(k):
    """row padding and tail of the buffers: tight, padded with a full last row, padded with a short last row"""
    return [dict(), dict(spad=3, dpad=5), dict(dpad=8, dtail=2), dict(spad=7, stail=1)][k % 4]


def even(r):
    """the same row padding of both images"""
    k = r.randrange(4)
    return dict(spad=k, dpad=k)


def grid(ck, fam, entry, tols, reps, top=130, hs=(1, 2, 3, 4), cpus=CPU, filt=None, pad=True, thin=1, matrices=range(6), extra=None, tag=""):
    """all CPUs x matrices x ranges x modes for every function of the families, `reps` sizes each"""
    rr = random.Random(f"{SEED}/{ck.pid}{fam}{entry}{tag}")
    fk = 0
    for f in FNS:
        if f.fam not in fam or (filt and not filt(f)):
            continue
        fk += 1
        for ci, cpu in enumerate(cpus):
            ws = Widths(f.name + cpu + tag, top)
            ws.l = [w for w in ws.l if w <= top]
            if tag:
                random.Random(f"{SEED}/{f.name}{cpu}{tag}").shuffle(ws.l)
            for mode in ((0, 1, 2) if "mode" in f.opts else (0,)):
                for m in matrices:
                    for r in (0, 1):
                        # thin > 1: every function, CPU and mode with every thin-th pair of matrix and range
                        if (m * 2 + r + fk + ci) % thin and not THOROUGH:
                            continue
                        for _ in range(reps):
                            w = ws.next()
                            n = rr.getrandbits(30)
                            h = hs[rr.randrange(len(hs))]
                            t = tols(f, mode, cpu)
                            dp = (10, 12, 14, 16)[rr.randrange(4)] if "bit_depth" in f.opts else f.src.bits
                            ck.add(f, cpu, entry, w=w, h=h, range=r, matrix=m, mode=mode, order=rr.randrange(2) if "order" in f.opts else 0,
                                   depth=dp, x=t, **(pads(rr.randrange(4)) if pad else {}), **(extra(n) if callable(extra) else extra or {}))


def tol_dec8(f, mode, cpu):
    """output code values x 100: what rounding of the fixed point coefficients of each path costs, proven tight to about 0.5"""
    if mode == 1:
        return (450,)
    if f.sig == "dec_pk8":
        return (400,)
    if f.sig in ("dec_g8", "dec_ga8"):
        return (150,)
    return (100,) if cpu == "scalar" else (350,)


@prop("C01")
def c01():
    ck = Check("C01", ["acc"])
    ck.opts = LIA
    grid(ck, ("dec8",), "vp_decode", tol_dec8, 12 if THOROUGH else 1, top=161 if THOROUGH else 130)
    return ck.run()


def tol_dec16(f, mode, cpu):
    return (200,) if f.dst.bits == 8 else (450,)


@prop("C02")
def c02():
    ck = Check("C02", ["acc"])
    ck.opts = LIA
    grid(ck, ("dec16", "dec16_8", "dec16a"), "vp_decode", tol_dec16, 6 if THOROUGH else 1, thin=6)
    return ck.run()


def tol_enc8(f, mode, cpu):
    return {0: (175, 175), 1: (300, 350), 2: (100, 100)}[mode]


@prop("C03")
def c03():
    ck = Check("C03", ["acc"])
    ck.opts = LIA
    grid(ck, ("enc8",), "vp_encode", tol_enc8, 12 if THOROUGH else 1, top=161 if THOROUGH else 130, cpus=list(CPU) + list(VNNI))
    return ck.run()


def tol_enc16(f, mode, cpu):
    return (400, 400) if f.src.bits == 16 else (200, 200)


@prop("C04")
def c04():
    ck = Check("C04", ["acc"])
    ck.opts = LIA
    grid(ck, ("enc16",), "vp_encode", tol_enc16, 8 if THOROUGH else 2)
    return ck.run()


def tol_dec8a(f, mode, cpu):
    if f.sig == "dec_ga8":
        return (150,)
    return (100,) if cpu == "scalar" else (350,)


@prop("C05")
def c05():
    ck = Check("C05", ["acc", "misc"])
    ck.opts = LIA
    grid(ck, ("dec8a",), "vp_decode", tol_dec8a, 12 if THOROUGH else 2)
    grid(ck, ("dec8a",), "vp_premul", lambda f, m, c: (100,), 6 if THOROUGH else 1, filt=lambda f: "premul" in f.opts, extra=dict(premul=1))
    return ck.run()


@prop("C18")
def c18():
    ck = Check("C18", ["acc"])
    ck.opts = LIA
    grid(ck, ("dec30",), "vp_decode", lambda f, m, c: (150,), 12 if THOROUGH else 2, cpus=("scalar", "avx2", "vbmi"))
    return ck.run()


def exact(pid, fams, entry, tol, reps, top=130, cpus=("scalar", "sse", "avx2", "avx512", "vbmi"), hs=(1, 2, 3, 4), ranges=(0, 1), vary=(dict(),), filt=None, equal=False):
    """entry: a harness entry or a function of the family; every function x CPU x range x variant, `reps` sizes each"""
    ck = Check(pid, ["exact"])
    ck.opts = LIA
    rr = random.Random(f"{SEED}/{pid}{fams}")
    for f in FNS:
        if f.fam not in fams or (filt and not filt(f)):
            continue
        for cpu in cpus:
            ws = Widths(f.name + cpu, top)
            for v in vary:
                for r in ranges:
                    for _ in range(reps):
                        p = pads(rr.randrange(4))
                        if equal:
                            p = even(rr)
                        dp = (10, 12, 14, 16)[rr.randrange(4)] if "bit_depth" in f.opts else f.src.bits
                        ck.add(f, cpu, entry(f) if callable(entry) else entry, w=ws.next(), h=hs[rr.randrange(len(hs))], range=r, depth=dp,
                               x=tol(f) if callable(tol) else tol, **{**p, **v})
    return ck


def everywhere(ck, entry, reps, xs, top=130, filt=None, cpus=CPU, layouts=pads, tag=""):
    """every public function x CPU x mode, `reps` sizes each, with rotating matrices, ranges, depths, orders and layouts"""
    rr = random.Random(f"{SEED}/{ck.pid}{entry}{tag}")
    for f in FNS:
        if filt and not filt(f):
            continue
        cs = list(cpus) + ([c for c in VNNI if f.fam == "enc8"] if cpus is CPU else []) + ([c for c in F16C if "f16" in f.fam] if cpus is CPU else [])
        for cpu in cs:
            ws = Widths(f.name + cpu + tag, min(top, 24) if f.fam == "sharp" else top)
            if f.fam == "sharp":
                ws.l = [w for w in ws.l if w <= 24]
            for mode in ((0, 1, 2) if "mode" in f.opts else (0,)):
                for _ in range(reps):
                    n = rr.getrandbits(30)
                    rot = f.fam == "rotate"
                    lay = even(rr) if f.fam in ("rotate", "mirror") else layouts(rr.randrange(4))
                    ck.add(f, cpu, entry, w=ws.next(), h=(1, 2, 3, 4, 5)[rr.randrange(5)], range=rr.randrange(2), matrix=rr.randrange(6), mode=mode, order=rr.randrange(2) if "order" in f.opts else 0,
                           premul=rr.randrange(2) if "premul" in f.opts else 0, depth=(10, 12, 14, 16)[rr.randrange(4)] if "bit_depth" in f.opts else f.src.bits,
                           gamma=rr.randrange(4) if f.fam == "sharp" else 0, geo=rr.randrange(3) if rot else rr.randrange(2) if f.fam == "mirror" else 0,
                           x=(list((lambda t: (t[0], t[0]) if f.fam in ("rotate", "mirror") and entry == "vp_keep" else t)(xs(n))) + [0] * 9)[:9] + [1 if rot else 0], **lay)


def narrow(f):
    """formats whose samples do not use every value of their type"""
    return f.src.kind == "i16yuv" or (f.src.planes[0][3] == 2 and (f.src.bits < 16 or "bit_depth" in f.opts))


@prop("C06")
def c06():
    ck = Check("C06", ["misc"], 14)
    ck.opts = LIA
    everywhere(ck, "vp_safe", 12 if THOROUGH else 2, lambda n: (0,))
    everywhere(ck, "vp_safe", 6 if THOROUGH else 1, lambda n: (1,), filt=narrow, tag="any")
    return ck.run()


@prop("C07")
def c07():
    ck = Check("C07", ["misc"], 14)
    ck.large = 0
    for f in FNS:
        for mode in ((0, 1, 2) if "mode" in f.opts else (0,)):
            for k, cpu in enumerate(CPU if THOROUGH else ("avx2", "scalar")):
                # dimensions, strides and lengths of 8 bits; or of 4 bits times 32768, whose products exceed 32 bits
                for x in ((8, 0), (4, 15), (10, 0)) if THOROUGH else (((8, 0), (4, 15))[k],):
                    for geo in (0, 1, 2) if f.fam == "rotate" else (0, 1) if f.fam == "mirror" else (0,):
                        ck.add(f, cpu, "vp_reject", w=1, h=1, mode=mode, geo=geo, matrix=1, depth=12 if "bit_depth" in f.opts else f.src.bits,
                               x=list(x) + [0] * 7 + [1 if f.fam == "rotate" else 0])
    return ck.run()


def twins(kind):
    """converters with a second one that must agree with them: the other byte order, channel order, plane order or pixel size"""
    out = []
    for f in FNS:
        n = f.name
        if kind == "be":
            t = n.replace("_be", "") if "_be" in n else None
        elif kind == "bgr":
            t = n.replace("bgr", "rgb") if "bgr" in n and f.fam != "shuffle" else None
        elif kind == "nv":
            t = None
            for a, b in (("nv21", "nv12"), ("nv61", "nv16"), ("nv42", "nv24")):
                if a in n:
                    t = n.replace(a, b)
        elif kind == "rgba":
            t = n.replace("rgba", "rgb") if "rgba" in n and f.fam not in ("shuffle", "rotate", "mirror") else None
        if t and t in BY:
            out.append(f._replace(name=n + "~" + t, opts={**f.opts, "call": n, "twin": t}))
    return out


def k08(c, v, bad):
    if v["kind"] == "assert" and v["id"] in (1, 3) and -1 in c.par[13:15] and (v["id"] == 3 or c.fn.fam in ("rotate", "mirror")):
        return "short-last-row"
    if max(c.par[13:15]) >= 400 and (v["kind"] == "assert" and (v["id"] in (3, 4) or c.fn.fam in ("rotate", "mirror")) or "slice_end_index_len_fail" in v["msg"]):
        return "extra-rows"


def pairs(ck, kinds, reps, top=130):
    rr = random.Random(f"{SEED}/{ck.pid}{kinds}")
    for kind in kinds:
        for f in twins(kind):
            if kind == "rgba" and f.fam in ("to30", "from30", "f16conv"):
                continue
            for cpu in list(CPU) + (list(VNNI) if f.fam == "enc8" else []) + (list(F16C) if "f16" in f.fam else []):
                ws = Widths(f.name + cpu, 24 if f.fam == "sharp" else top)
                if f.fam == "sharp":
                    ws.l = [w for w in ws.l if w <= 24]
                for mode in ((0, 1, 2) if "mode" in f.opts else (0,)):
                    for _ in range(reps):
                        ck.add(f, cpu, "vp_pair", w=ws.next(), h=(1, 2, 3, 4, 5)[rr.randrange(5)], range=rr.randrange(2), matrix=rr.randrange(6), mode=mode, order=rr.randrange(2) if "order" in f.opts else 0,
                               premul=rr.randrange(2) if "premul" in f.opts else 0, depth=(10, 12, 14, 16)[rr.randrange(4)] if "bit_depth" in f.opts else f.src.bits,
                               gamma=rr.randrange(4) if f.fam == "sharp" else 0, **pads(rr.randrange(4)))


@prop("C15")
def c15():
    ck = Check("C15", ["misc"], 14)
    ck.opts = LIA
    pairs(ck, ("be",), 40 if THOROUGH else 12)
    return ck.run()


def slack(f, mode, cpu):
    return (1 if f.dst.bits == 8 and mode == 0 else 2 if mode == 1 or f.dst.bits == 16 else 0,)


@prop("C19")
def c19():
    ck = Check("C19", ["misc"], 14)
    ck.opts = LIA
    rr = random.Random(f"{SEED}/legal")
    for f in FNS:
        if f.fam not in ("enc8", "enc16", "ycgco_enc", "sharp"):
            continue
        for cpu in list(CPU) + (list(VNNI) if f.fam == "enc8" else []):
            ws = Widths(f.name + cpu)
            ws.l = [w for w in ws.l if w <= 24 or f.fam != "sharp"]
            for mode in ((0, 1, 2) if "mode" in f.opts else (0,)):
                for m in range(6):
                    for _ in range(6 if THOROUGH else 1):
                        if f.fam == "ycgco_enc" and m:
                            continue
                        ck.add(f, cpu, "vp_legal", w=ws.next(), h=(1, 2, 3, 4)[rr.randrange(4)], range=0, matrix=m, mode=mode, depth=f.src.bits, x=slack(f, mode, cpu),
                               gamma=rr.randrange(4) if f.fam == "sharp" else 0, **pads(rr.randrange(4)))
    return ck.run()


@prop("C20")
def c20():
    ck = Check("C20", ["misc"], 14)
    ck.opts = LIA
    grid(ck, ("dec8", "dec8a", "dec16", "dec16_8", "dec16a", "dec30", "ycgco_dec"), "vp_gray_dec", lambda f, m, c: (0,), 6 if THOROUGH else 1, thin=6,
         filt=lambda f: f.src.kind == "yuv" and len(f.src.comps) > 2)
    grid(ck, ("enc8", "enc16", "ycgco_enc"), "vp_gray_enc", lambda f, m, c: (2 if m == 1 or f.dst.bits == 16 else 0,), 6 if THOROUGH else 1, thin=3,
         filt=lambda f: f.dst.kind == "yuv")
    grid(ck, ("sharp",), "vp_gray_enc", lambda f, m, c: (0,), 6 if THOROUGH else 1, thin=3, top=24, extra=lambda n: dict(gamma=n % 4))
    return ck.run()


@prop("C21")
def c21():
    ck = Check("C21", ["misc", "rayon"], 40)
    ck.opts = LIA
    rr = random.Random(f"{SEED}/builds")
    for f in FNS:
        f = f._replace(name=f.name + "~rayon", opts={**f.opts, "call": f.name, "twin": f.name, "rayon": 1})
        for cpu in CPU if THOROUGH else ("avx2", "scalar", "vbmi"):
            ws = Widths(f.name + cpu, 24 if f.fam == "sharp" else 130 if THOROUGH else 70)
            if f.fam == "sharp" or not THOROUGH:
                ws.l = [w for w in ws.l if w <= (24 if f.fam == "sharp" else 70)]
            for mode in ((0, 1, 2) if "mode" in f.opts else (0,)):
                lay = even(rr) if f.fam in ("rotate", "mirror") else pads(rr.randrange(4))
                ck.add(f, cpu, "vp_builds", w=ws.next(), h=(5, 3, 4, 6, 2)[rr.randrange(5)], range=rr.randrange(2), matrix=rr.randrange(6), mode=mode, order=rr.randrange(2) if "order" in f.opts else 0,
                       premul=rr.randrange(2) if "premul" in f.opts else 0, depth=(10, 12, 14, 16)[rr.randrange(4)] if "bit_depth" in f.opts else f.src.bits,
                       gamma=rr.randrange(4) if f.fam == "sharp" else 0, geo=rr.randrange(3) if f.fam == "rotate" else rr.randrange(2) if f.fam == "mirror" else 0,
                       x=[0] * 9 + [1 if f.fam == "rotate" else 0], **lay)
    return ck.run()


@prop("C23")
def c23():
    ck = Check("C23", ["acc"])
    ck.opts = LIA
    for g in range(4):
        # the darkest codes share one linear value under gamma 2.8
        grid(ck, ("sharp",), "vp_encode", lambda f, m, c: (100, 110 if g < 2 else 150 if g < 3 else 275, 1), 8 if THOROUGH else 1, top=24, thin=3,
             extra=dict(gamma=g), tag=f"/{g}")
    return ck.run()


@prop("C24")
def c24():
    ck = Check("C24", ["acc"])
    ck.opts = LIA
    r = random.Random(f"{SEED}/custom")
    pair = [(3500, 700), (1500, 2000)] + [(r.randint(1500, 4000), r.randint(400, 3000)) for _ in range(30 if THOROUGH else 1)]
    one = lambda t: lambda f, m, c: tuple(x + 100 for x in t(f, m, c))
    for fam, entry, tol in (("dec8", "vp_decode", tol_dec8), ("dec8a", "vp_decode", tol_dec8a), ("dec16", "vp_decode", tol_dec16), ("dec16_8", "vp_decode", tol_dec16),
                            ("dec16a", "vp_decode", tol_dec16), ("dec30", "vp_decode", lambda f, m, c: (150,)), ("enc8", "vp_encode", tol_enc8), ("enc16", "vp_encode", tol_enc16)):
        grid(ck, (fam,), entry, one(tol), 6 if THOROUGH else 1, matrices=(6,), thin=2, top=130 if THOROUGH else 60,
             extra=lambda n: dict(zip(("kr", "kb"), pair[n % len(pair)])))
    return ck.run()


@prop("C22")
def c22():
    ck = Check("C22", ["misc"], 14)
    ck.opts = LIA
    pairs(ck, ("bgr", "nv", "rgba"), 12 if THOROUGH else 3)
    return ck.run()


@prop("C08")
def c08():
    ck = Check("C08", ["misc"], 14)
    ck.opts = LIA
    everywhere(ck, "vp_keep", 8 if THOROUGH else 1, lambda n: ((0, 0), (2, 3), (16, 0), (1, 9))[n % 4])
    # layouts the validation accepts and the row loops do not handle, one function of each kind: known findings
    seen = set()
    for f in FNS:
        if f.sig in seen:
            continue
        seen.add(f.sig)
        for g in (dict(stail=-1), dict(dtail=-1), dict(stail=400), dict(dtail=400)):
            ck.add(f, "avx2", "vp_keep", w=19, h=3, range=0, matrix=1, depth=12 if "bit_depth" in f.opts else f.src.bits, spad=3, dpad=5 if f.fam not in ("rotate", "mirror") else 3,
                   x=[0] * 9 + [1 if f.fam == "rotate" else 0], **g)
    ck.known = k08
    return ck.run()


@prop("C09")
def c09():
    return exact("C09", ("repack",), "vp_repack", (), 120 if THOROUGH else 48, ranges=(0,), cpus=("scalar", "sse", "avx2"),
                 top=300 if THOROUGH else 140).run()


@prop("C10")
def c10():
    return exact("C10", ("shuffle",), "vp_shuffle", (), 160 if THOROUGH else 72, ranges=(0,), top=400 if THOROUGH else 200).run()


@prop("C11")
def c11():
    return exact("C11", ("gbr_dec", "gbr_enc"), "vp_gbr", (150,), 24 if THOROUGH else 12).run()


@prop("C12")
def c12():
    return exact("C12", ("ycgco_dec", "ycgco_enc"), lambda f: "vp_" + f.fam, (100, 100), 16 if THOROUGH else 8).run()


@prop("C13")
def c13():
    return exact("C13", ("to30", "from30"), "vp_pack30", (100,), 36 if THOROUGH else 16, ranges=(0,), vary=(dict(order=0), dict(order=1))).run()


def k14(c, v, bad):
    # fast_transpose 0.2.7: the AVX2 block transposition of 4-channel images loses blocks without a flop
    if c.fn.name in ("rotate_rgba", "rotate_rgba16") and c.par[10] == 0 and c.cpu not in ("scalar", "sse") and v["kind"] == "assert" and v["id"] == 2:
        return "rotate90-rgba-avx2"


@prop("C14")
def c14():
    ck = exact("C14", ("rotate",), "vp_rotate", (), 40 if THOROUGH else 20, ranges=(0,), equal=True, top=70, hs=(1, 2, 3, 9, 17, 8, 34),
               vary=(dict(geo=0), dict(geo=1), dict(geo=2)))
    c2 = exact("C14", ("mirror",), "vp_mirror", (), 40 if THOROUGH else 20, ranges=(0,), top=100, equal=True, hs=(1, 2, 3, 9), vary=(dict(geo=0), dict(geo=1)))
    ck.cases += c2.cases
    ck.known = k14
    return ck.run()


@prop("C16")
def c16():
    ck = Check("C16", ["acc", "exact"])
    ck.opts = LIA
    cpus = list(CPU) + list(F16C)
    grid(ck, ("decf16",), "vp_decode", lambda f, m, c: (100,) if f.src.bits <= 12 else (300,), 12 if THOROUGH else 2, thin=3, cpus=cpus)
    for fam, entry, tol in (("f16conv", "vp_f16conv", ()), ("gbr_f16", "vp_gbr", lambda f: (800,) if f.src.bits == 16 else (150,))):
        c = exact("C16", (fam,), entry, tol, 12 if THOROUGH else 3, cpus=("scalar", "avx2", *F16C), ranges=(0,) if fam == "f16conv" else (0, 1))
        ck.cases += c.cases
    return ck.run()


@prop("C17")
def c17():
    return exact("C17", ("rdp_enc", "rdp_dec"), lambda f: "vp_" + f.fam, lambda f: (200,) if f.fam == "rdp_enc" else (150,), 48 if THOROUGH else 24, ranges=(0,)).run()
