"""Every public converter of the crate, described by name, call signature and sample layout.

The layouts here are the meaning of the format names (what a user of the API relies on); the code under test is not
consulted. Component = (plane, step, offset, log2 horizontal subsampling, log2 vertical subsampling), in elements.
Plane = (elements per sample column, log2 h-sub, log2 v-sub, bytes per element)."""
from collections import namedtuple

Img = namedtuple("Img", "kind planes comps bits msb be")   # kind: yuv rgb f16 p30 i16yuv y
Fn = namedtuple("Fn", "name sig fam src dst opts")

RGB = {"rgb": (3, 0, 1, 2, None), "bgr": (3, 2, 1, 0, None), "rgba": (4, 0, 1, 2, 3), "bgra": (4, 2, 1, 0, 3),
       "argb": (4, 1, 2, 3, 0), "abgr": (4, 3, 2, 1, 0)}
SS = {"420": (1, 1), "422": (1, 0), "444": (0, 0)}
ID = {"0": "420", "2": "422", "4": "444"}
YUY = {"yuyv": (0, 1, 3), "uyvy": (1, 0, 2), "yvyu": (0, 3, 1), "vyuy": (1, 2, 0)}
NV = {"12": ("420", 0), "21": ("420", 1), "16": ("422", 0), "61": ("422", 1), "24": ("444", 0), "42": ("444", 1)}


def rgb(order, bits=8, kind="rgb"):
    n, r, g, b, a = RGB[order]
    es = 1 if bits == 8 and kind == "rgb" else 2
    comps = [(0, n, r, 0, 0), (0, n, g, 0, 0), (0, n, b, 0, 0)]
    if a is not None:
        comps.append((0, n, a, 0, 0))
    return Img(kind, [(n, 0, 0, es)], comps, bits, 0, 0)


def planar(ss, bits=8, alpha=False, be=False, kind="yuv"):
    hs, vs = SS[ss]
    es = 1 if bits == 8 and kind != "i16yuv" else 2
    pl = [(1, 0, 0, es), (1, hs, vs, es), (1, hs, vs, es)]
    c = [(0, 1, 0, 0, 0), (1, 1, 0, hs, vs), (2, 1, 0, hs, vs)]
    if alpha:
        pl.append((1, 0, 0, es))
        c.append((3, 1, 0, 0, 0))
    return Img(kind, pl, c, bits, 0, int(be))


def biplanar(ss, order=0, bits=8, msb=0):
    hs, vs = SS[ss]
    es = 1 if bits == 8 else 2
    u, v = (0, 1) if order == 0 else (1, 0)
    return Img("yuv", [(1, 0, 0, es), (2, hs, vs, es)], [(0, 1, 0, 0, 0), (1, 2, u, hs, vs), (1, 2, v, hs, vs)], bits, msb, 0)


def packed(o, bits=8):
    y, u, v = YUY[o]
    es = 1 if bits == 8 else 2
    return Img("yuv", [(4, 1, 0, es)], [(0, 2, y, 0, 0), (0, 4, u, 1, 0), (0, 4, v, 1, 0)], bits, 0, 0)


def gray(bits=8, alpha=False):
    es = 1 if bits == 8 else 2
    pl = [(1, 0, 0, es)]
    c = [(0, 1, 0, 0, 0)]
    if alpha:
        pl.append((1, 0, 0, es))
        c.append((1, 1, 0, 0, 0))
    return Img("ya" if alpha else "y", pl, c, bits, 0, 0)


def gbr(bits=8, alpha=False):
    es = 1 if bits == 8 else 2
    # planes are G, B, R (, A)
    pl = [(1, 0, 0, es)] * (4 if alpha else 3)
    c = [(2, 1, 0, 0, 0), (0, 1, 0, 0, 0), (1, 1, 0, 0, 0)] + ([(3, 1, 0, 0, 0)] if alpha else [])
    return Img("rgb", pl, c, bits, 0, 0)


def p30(fmt):
    # components live in the bits of one 32-bit word; comps carry the shift instead of an offset
    sh = {"ar30": (0, 10, 20, 30), "ab30": (20, 10, 0, 30), "ra30": (22, 12, 2, 0), "ba30": (2, 12, 22, 0)}[fmt]
    return Img("p30", [(4, 0, 0, 1)], [(0, 4, s, 0, 0) for s in sh], 10, 0, 0)


def flat(n, es, kind="raw", bits=8):
    return Img(kind, [(n, 0, 0, es)], [(0, n, i, 0, 0) for i in range(n)], bits, 0, 0)


FNS = []


def add(name, sig, fam, src, dst, **opts):
    FNS.append(Fn(name, sig, fam, src, dst, opts))


C4 = ["rgb", "bgr", "rgba", "bgra"]
for ss in SS:
    for c in C4:
        add(f"yuv{ss}_to_{c}", "dec_pl8", "dec8", planar(ss), rgb(c))
        add(f"{c}_to_yuv{ss}", "enc_pl8", "enc8", rgb(c), planar(ss), mode=1)
        add(f"ycgco{ss}_to_{c}", "decr_pl8", "ycgco_dec", planar(ss), rgb(c))
        add(f"{c}_to_ycgco{ss}", "encr_pl8", "ycgco_enc", rgb(c), planar(ss))
    for c in ["rgba", "bgra"]:
        add(f"yuv{ss}_alpha_to_{c}", "dec_pla8", "dec8a", planar(ss, alpha=True), rgb(c), premul=1)
        add(f"ycgco{ss}_alpha_to_{c}", "decr_pla8", "ycgco_dec", planar(ss, alpha=True), rgb(c))
for nv, (ss, o) in NV.items():
    for c in C4:
        add(f"yuv_nv{nv}_to_{c}", "dec_nv8", "dec8", biplanar(ss, o), rgb(c), mode=1)
        add(f"{c}_to_yuv_nv{nv}", "enc_nv8", "enc8", rgb(c), biplanar(ss, o), mode=1)
for o in YUY:
    for c in C4:
        add(f"{o}422_to_{c}", "dec_pk8", "dec8", packed(o), rgb(c))
    for c in ["rgb", "rgba"]:
        add(f"{o}422_to_{c}_p16", "dec_pk16", "dec16", packed(o, 16), rgb(c, 16), bit_depth=1)
    for ss in SS:
        add(f"yuv{ss}_to_{o}422", "pl_to_pk8", "repack", planar(ss), packed(o))
        add(f"yuv{ss}_to_{o}422_p16", "pl_to_pk16", "repack", planar(ss, 16), packed(o, 16))
        add(f"{o}422_to_yuv{ss}", "pk_to_pl8", "repack", packed(o), planar(ss))
        add(f"{o}422_to_yuv{ss}_p16", "pk_to_pl16", "repack", packed(o, 16), planar(ss, 16))
for c in C4:
    add(f"yuv400_to_{c}", "dec_g8", "dec8", gray(), rgb(c))
    add(f"{c}_to_yuv400", "enc_g8", "enc8", rgb(c), gray())
    add(f"gbr_to_{c}", "decr_pl8", "gbr_dec", gbr(), rgb(c))
    add(f"{c}_to_gbr", "encr_pl8", "gbr_enc", rgb(c), gbr())
for c in ["rgba", "bgra"]:
    add(f"yuv400_alpha_to_{c}", "dec_ga8", "dec8a", gray(alpha=True), rgb(c))
    add(f"gbr_with_alpha_to_{c}", "decr_pla8", "gbr_dec", gbr(alpha=True), rgb(c))
_ay = Img("yuv", [(4, 0, 0, 1)], [(0, 4, 1, 0, 0), (0, 4, 2, 0, 0), (0, 4, 3, 0, 0), (0, 4, 0, 0, 0)], 8, 0, 0)
_vy = Img("yuv", [(4, 0, 0, 1)], [(0, 4, 2, 0, 0), (0, 4, 1, 0, 0), (0, 4, 0, 0, 0), (0, 4, 3, 0, 0)], 8, 0, 0)
for c in ["rgb", "rgba"]:
    add(f"ayuv_to_{c}", "dec_ay8", "dec8a", _ay, rgb(c), premul=1)
    add(f"vyua_to_{c}", "dec_ay8", "dec8a", _vy, rgb(c), premul=1)

for k, ss in ID.items():
    for bits in (10, 12, 14, 16):
        i = f"i{k}{bits}"
        for c in ["rgb", "rgba"]:
            for be in (0, 1):
                b = "_be" if be else ""
                add(f"{i}{b}_to_{c}{bits}", "dec_pl16", "dec16", planar(ss, bits, be=be), rgb(c, bits))
                add(f"{c}{bits}_to_{i}{b}", "enc_pl16", "enc16", rgb(c, bits), planar(ss, bits, be=be))
            if bits < 16:
                add(f"{i}_to_{c}_f16", "dec_plf16", "decf16", planar(ss, bits), rgb(c, bits, "f16"))
        if bits < 16:
            for be in (0, 1):
                nm = {0: f"{i}_alpha", 1: f"{i}_be_alpha"}[be]
                nm16 = nm
                if be and k == "2" and bits == 10:
                    nm = nm16 = f"{i}_alpha_be"
                add(f"{nm16}_to_rgba{bits}", "dec_pla16", "dec16a", planar(ss, bits, True, be), rgb("rgba", bits))
                if bits < 14:
                    add(f"{nm}_to_rgba", "dec_pla16_8", "dec16a", planar(ss, bits, True, be), rgb("rgba"))
            add(f"{i}_alpha_to_rgba_f16", "dec_plaf16", "decf16", planar(ss, bits, True), rgb("rgba", bits, "f16"))
            for r in ("ar30", "ra30"):
                add(f"{i}_to_{r}", "dec_pl16_30", "dec30", planar(ss, bits), p30(r), order=1)
        if bits < 14:
            for c in C4 if k != "4" else (["rgba"] if bits == 10 else []):
                for be in (0, 1):
                    add(f"{i}{'_be' if be else ''}_to_{c}", "dec_pl16_8", "dec16_8", planar(ss, bits, be=be), rgb(c))
            for c in ["rgb", "rgba"]:
                add(f"p{k}{bits}_to_{c}{bits}", "dec_bi16", "dec16", biplanar(ss, 0, bits, 1), rgb(c, bits))
                add(f"{c}{bits}_to_p{k}{bits}", "enc_bi16", "enc16", rgb(c, bits), biplanar(ss, 0, bits, 1))
            if k != "4":
                for r in ("ar30", "ra30"):
                    add(f"p{k}{bits}_to_{r}", "dec_bi16_30", "dec30", biplanar(ss, 0, bits, 1), p30(r), order=1)
            icg = f"icgc{k}{bits}"
            for c in ["rgb", "rgba"]:
                add(f"{icg}_to_{c}{bits}", "decr_pl16", "ycgco_dec", planar(ss, bits), rgb(c, bits))
            add(f"{icg}_alpha_to_rgba{bits}", "decr_pla16", "ycgco_dec", planar(ss, bits, True), rgb("rgba", bits))
        if bits == 10:
            for c in C4:
                add(f"p{k}10_to_{c}", "dec_bi16_8", "dec16_8", biplanar(ss, 0, 10, 1), rgb(c), mode=1)
        if bits == 16 and k != "4":
            for c in ["rgb", "rgba"]:
                add(f"{c}16_to_p{k}16", "enc_bi16", "enc16", rgb(c, 16), biplanar(ss, 0, 16, 1))
for bits in (10, 12, 14, 16):
    for c in ["rgb", "rgba"]:
        add(f"y0{bits}_to_{c}{bits}", "dec_g16", "dec16", gray(bits), rgb(c, bits))
        add(f"gb{bits}_to_{c}{bits}", "decr_pl16", "gbr_dec", gbr(bits), rgb(c, bits))
        add(f"{c}{bits}_to_gb{bits}", "encr_pl16", "gbr_enc", rgb(c, bits), gbr(bits))
        add(f"gb{bits}_to_{c}_f16", "decr_plf16", "gbr_f16", gbr(bits), rgb(c, bits, "f16"))
    add(f"y0{bits}_alpha_to_rgba{bits}", "dec_ga16", "dec16a", gray(bits, True), rgb("rgba", bits))
    add(f"gb{bits}_alpha_to_rgba{bits}", "decr_pla16", "gbr_dec", gbr(bits, True), rgb("rgba", bits))
    add(f"gb{bits}_alpha_to_rgba_f16", "decr_plaf16", "gbr_f16", gbr(bits, True), rgb("rgba", bits, "f16"))
for a in C4:
    for b in C4:
        if a != b:
            add(f"{a}_to_{b}", "shuf", "shuffle", rgb(a), rgb(b))
for c in ["rgb", "rgba"]:
    for r in ("ar30", "ra30"):
        add(f"{c}8_to_{r}", "to30_8", "to30", rgb(c), p30(r), order=1)
        for bits in (10, 12):
            add(f"{c}{bits}_to_{r}", "to30_16", "to30", rgb(c, bits), p30(r), order=1)
for r in ("ar30", "ra30", "ab30", "ba30"):
    for c in ["rgb", "rgba"] if r in ("ar30", "ra30") else ["rgb"]:
        add(f"{r}_to_{c}8", "from30", "from30", p30(r), rgb(c), order=1)
for n, nm in ((1, "plane"), (2, "cbcr"), (3, "rgb"), (4, "rgba")):
    for es, sx in ((1, ""), (2, "16")):
        add(f"rotate_{nm}{sx}", "rot8" if es == 1 else "rot16", "rotate", flat(n, es), flat(n, es), geo=1)
        add(f"mirror_{nm}{sx}", "mir8" if es == 1 else "mir16", "mirror", flat(n, es), flat(n, es))
for n, s8, s16, t8, t16 in ((1, "plane", "plane16", "plane_f16_to_planar", "plane_f16_to_planar16"),
                            (3, "rgb", "rgb16", "rgb_f16_to_rgb", "rgb_f16_to_rgb16"),
                            (4, "rgba", "rgba16", "rgba_f16_to_rgba", "rgba_f16_to_rgba16")):
    add(f"convert_{s8}_to_f16", "u8_f16", "f16conv", flat(n, 1), flat(n, 2, "f16"))
    add(f"convert_{s16}_to_f16", "u16_f16", "f16conv", flat(n, 2, "raw", 16), flat(n, 2, "f16"), bit_depth=1)
    add(f"convert_{t8}", "f16_u8", "f16conv", flat(n, 2, "f16"), flat(n, 1))
    add(f"convert_{t16}", "f16_u16", "f16conv", flat(n, 2, "f16"), flat(n, 2, "raw", 16), bit_depth=1)
for c in ["rgb", "bgr", "rgba", "bgra", "argb", "abgr"]:
    add(f"rdp_{c}_to_yuv444", "rdp_enc", "rdp_enc", rgb(c), planar("444", 8, kind="i16yuv"))
    add(f"rdp_yuv444_to_{c}", "rdp_dec", "rdp_dec", planar("444", 8, kind="i16yuv"), rgb(c))
for c in C4:
    for ss in ("420", "422"):
        add(f"{c}_to_sharp_yuv{ss}", "sharp", "sharp", rgb(c), planar(ss), gamma=1)

# Rust call expression per signature; c: &Ctx
_PI = "YuvPlanarImage { y_plane: c.src(0), y_stride: c.ss(0), u_plane: c.src(1), u_stride: c.ss(1), v_plane: c.src(2), v_stride: c.ss(2), width: c.w, height: c.h }"
_PIA = "YuvPlanarImageWithAlpha { y_plane: c.src(0), y_stride: c.ss(0), u_plane: c.src(1), u_stride: c.ss(1), v_plane: c.src(2), v_stride: c.ss(2), a_plane: c.src(3), a_stride: c.ss(3), width: c.w, height: c.h }"
_PIM = "YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(c.dst(0)), y_stride: c.ds(0), u_plane: BufferStoreMut::Borrowed(c.dst(1)), u_stride: c.ds(1), v_plane: BufferStoreMut::Borrowed(c.dst(2)), v_stride: c.ds(2), width: c.w, height: c.h }"
_BI = "YuvBiPlanarImage { y_plane: c.src(0), y_stride: c.ss(0), uv_plane: c.src(1), uv_stride: c.ss(1), width: c.w, height: c.h }"
_BIM = "YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(c.dst(0)), y_stride: c.ds(0), uv_plane: BufferStoreMut::Borrowed(c.dst(1)), uv_stride: c.ds(1), width: c.w, height: c.h }"
_PK = "YuvPackedImage { yuy: c.src(0), yuy_stride: c.ss(0), width: c.w, height: c.h }"
_PKM = "YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(c.dst(0)), yuy_stride: c.ds(0), width: c.w, height: c.h }"
_G = "YuvGrayImage { y_plane: c.src(0), y_stride: c.ss(0), width: c.w, height: c.h }"
_GM = "YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(c.dst(0)), y_stride: c.ds(0), width: c.w, height: c.h }"
_GA = "YuvGrayAlphaImage { y_plane: c.src(0), y_stride: c.ss(0), a_plane: c.src(1), a_stride: c.ss(1), width: c.w, height: c.h }"


def _dec(img, tail="c.range(), c.matrix()", pre=""):
    return "{f}(&" + img.replace("{", "{{").replace("}", "}}") + f", c.dst(0), c.ds(0), {pre}{tail}).is_ok()"


def _enc(img, tail="c.range(), c.matrix()"):
    return "{{ let mut im = " + img.replace("{", "{{").replace("}", "}}") + "; {f}(&mut im, c.src(0), c.ss(0), " + tail + ").is_ok() }}"


SIG = {
    "dec_pl8": _dec(_PI), "dec_pla8": _dec(_PIA, "c.range(), c.matrix(), c.premul()"), "dec_nv8": _dec(_BI, "c.range(), c.matrix(), c.mode()"),
    "dec_pk8": _dec(_PK), "dec_pk16": _dec(_PK, pre="c.bit_depth() as u32, "), "dec_g8": _dec(_G), "dec_ga8": _dec(_GA),
    "dec_ay8": _dec(_PK, "c.range(), c.matrix(), c.premul()"),
    "dec_pl16": _dec(_PI), "dec_pl16_8": _dec(_PI), "dec_plf16": _dec(_PI), "dec_pla16": _dec(_PIA), "dec_pla16_8": _dec(_PIA),
    "dec_plaf16": _dec(_PIA), "dec_pl16_30": _dec(_PI, pre="c.order(), "), "dec_bi16": _dec(_BI), "dec_bi16_30": _dec(_BI, pre="c.order(), "),
    "dec_bi16_8": _dec(_BI, "c.range(), c.matrix(), c.mode()"), "dec_g16": _dec(_G), "dec_ga16": _dec(_GA),
    "decr_pl8": _dec(_PI, "c.range()"), "decr_pla8": _dec(_PIA, "c.range()"), "decr_pl16": _dec(_PI, "c.range()"),
    "decr_pla16": _dec(_PIA, "c.range()"), "decr_plf16": _dec(_PI, "c.range()"), "decr_plaf16": _dec(_PIA, "c.range()"),
    "enc_pl8": _enc(_PIM, "c.range(), c.matrix(), c.mode()"), "enc_nv8": _enc(_BIM, "c.range(), c.matrix(), c.mode()"), "enc_g8": _enc(_GM),
    "encr_pl8": _enc(_PIM, "c.range()"), "encr_pl16": _enc(_PIM, "c.range()"), "enc_pl16": _enc(_PIM), "enc_bi16": _enc(_BIM),
    "pl_to_pk8": "{{ let mut im = " + _PKM.replace("{", "{{").replace("}", "}}") + "; {f}(&mut im, &" + _PI.replace("{", "{{").replace("}", "}}") + ").is_ok() }}",
    "pk_to_pl8": "{{ let mut im = " + _PIM.replace("{", "{{").replace("}", "}}") + "; {f}(&mut im, &" + _PK.replace("{", "{{").replace("}", "}}") + ").is_ok() }}",
    "shuf": "{f}(c.src(0), c.ss(0), c.dst(0), c.ds(0), c.w, c.h).is_ok()",
    "to30_8": "{f}(c.dst(0), c.ds(0), c.order(), c.src(0), c.ss(0), c.w, c.h).is_ok()",
    "from30": "{f}(c.src(0), c.ss(0), c.order(), c.dst(0), c.ds(0), c.w, c.h).is_ok()",
    "rot8": "{f}(c.src(0), c.ss(0) as usize, c.dst(0), c.ds(0) as usize, c.w as usize, c.h as usize, c.rotation()).is_ok()",
    "mir8": "{f}(c.src(0), c.ss(0) as usize, c.dst(0), c.ds(0) as usize, c.w as usize, c.h as usize, c.mirror()).is_ok()",
    "u8_f16": "{f}(c.src(0), c.ss(0) as usize, c.dst(0), c.ds(0) as usize, c.w as usize, c.h as usize).is_ok()",
    "u16_f16": "{f}(c.src(0), c.ss(0) as usize, c.dst(0), c.ds(0) as usize, c.bit_depth(), c.w as usize, c.h as usize).is_ok()",
    "rdp_dec": "{f}(&" + _PI.replace("{", "{{").replace("}", "}}") + ", c.dst(0), c.ds(0)).is_ok()",
    "rdp_enc": "{{ let mut im = " + _PIM.replace("{", "{{").replace("}", "}}") + "; {f}(&mut im, c.src(0), c.ss(0)).is_ok() }}",
    "sharp": _enc(_PIM, "c.range(), c.matrix(), c.gamma()"),
}
SIG["pl_to_pk16"] = SIG["pl_to_pk8"]
SIG["pk_to_pl16"] = SIG["pk_to_pl8"]
SIG["to30_16"] = SIG["to30_8"]
SIG["rot16"] = SIG["rot8"]
SIG["mir16"] = SIG["mir8"]
SIG["f16_u8"] = SIG["u8_f16"]
SIG["f16_u16"] = SIG["u16_f16"]

KIND = {"yuv": 0, "rgb": 1, "f16": 2, "p30": 3, "i16yuv": 4, "y": 5, "ya": 6, "raw": 7}


def rust_img(i):
    pl = ", ".join(f"PlaneSpec {{ mult: {m}, hs: {h}, vs: {v}, es: {e} }}" for m, h, v, e in i.planes)
    c = list(i.comps) + [(0, 0, 0, 0, 0)] * (4 - len(i.comps))
    cs = ", ".join(f"Comp {{ p: {p}, step: {s}, off: {o}, hs: {h}, vs: {v} }}" for p, s, o, h, v in c)
    return (f"Img {{ kind: {KIND[i.kind]}, planes: &[{pl}], comps: [{cs}], nc: {len(i.comps)}, bits: {i.bits}, msb: {'true' if i.msb else 'false'}, be: {'true' if i.be else 'false'} }}")


def gen(fns):
    """Rust source of the converter table for the given functions (a function may name a twin to be compared with)"""
    out = ["// generated from lib/fns.py", "use crate::ctx::*;", "use yuv::*;"]
    tab = []
    for i, f in enumerate(fns):
        tw = f.opts.get("twin")
        out.append(f"fn c{i}(c: &Ctx) -> bool {{ {SIG[f.sig].format(f=f.opts.get('call', f.name))} }}")
        if tw:
            t = BY[tw]
            if f.opts.get("rayon"):
                out.append(f"fn t{i}(c: &Ctx) -> bool {{ use yuvr::*; let c = &Ctx2(unsafe {{ core::mem::transmute(c) }}); {SIG[t.sig].format(f=t.name)} }}")
            else:
                out.append(f"fn t{i}(c: &Ctx) -> bool {{ {SIG[t.sig].format(f=t.name)} }}")
            out.append(f"static T{i}: Conv = Conv {{ call: t{i}, src: {rust_img(t.src)}, dst: {rust_img(t.dst)}, twin: None }};")
        tab.append(f"    Conv {{ call: c{i}, src: {rust_img(f.src)}, dst: {rust_img(f.dst)}, twin: {f'Some(&T{i})' if tw else 'None'} }}, // {f.name}")
    out.append(f"pub static TABLE: [Conv; {len(fns)}] = [")
    out += tab + ["];"]
    return "\n".join(out) + "\n"


BY = {f.name: f for f in FNS}
if __name__ == "__main__":
    print(len(FNS), len(BY))
