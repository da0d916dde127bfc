#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the crate's LLVM IR + SMT (z3 integer/bit-vector/FP, cvc5)"
NOTE = ("All pixel values symbolic; the image geometry, CPU level, matrix, range and mode of each job are concrete and listed as bounds. "
        "Trusted: rustc's LLVM IR, the engine's semantics of it (cross-checked on every run by replaying solver-chosen inputs natively), z3/cvc5.")
P = []


def p(pid, title, statement, over, text, cant, files, mech, note="", claimed=True, reason=None):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, cant=cant, files=files, mech=mech, note=note, claimed=claimed, reason=reason))


CANT = "The existing tests convert a few uniform or random images of one or two sizes on the build machine's CPU and compare loosely; they cannot cover every sample value, width, row padding and CPU path. "
GEO = "every sample value; image widths 1..130 spread over the vector/narrow/tail loops, heights 1..4, and for every function wide (up to 900) and tall (up to 40 rows) images; row paddings; every CPU level"

p("C01", "8-bit YCbCr, NV and packed 4:2:2 decoding is accurate for every pixel",
  "Converting any 8-bit planar, semi-planar (NV12/NV21/NV16/NV61/NV24/NV42), packed 4:2:2 or gray image to RGB/BGR/RGBA/BGRA yields, for every pixel of the image, the clipped result of the inverse equations of the chosen matrix and range, using the chroma sample that covers the pixel, within a few code values (4.5 for the fast mode and at most 4 otherwise). Missing alpha is written as 255. It does not depend on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges x 3 modes", CANT,
  ["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/yuy2_to_rgb.rs", "src/y_to_rgb.rs", "src/avx2", "src/avx512bw", "src/sse", "src/yuv_support.rs"],
  ["fixed point coefficients", "row kernels of each vector width and their scalar tails"])
p("C03", "8-bit RGB encoding to YCbCr is accurate for every pixel, with averaged chroma",
  "Converting any RGB/BGR/RGBA/BGRA image to 8-bit planar, semi-planar or gray YCbCr yields, for every pixel, the luma of the chosen matrix and range, and for every chroma sample the chroma of the mean of exactly the pixels it covers (fewer at odd right and bottom edges). The error is at most 1.75 code values (3 luma / 3.5 chroma in fast mode, 1 in professional mode). It does not depend on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges x 3 modes", CANT,
  ["src/rgba_to_yuv.rs", "src/rgba_to_nv.rs", "src/rgb_to_y.rs", "src/avx2", "src/avx512bw", "src/sse", "src/yuv_support.rs"],
  ["fixed point coefficients", "row kernels of each vector width and their scalar tails", "2x2 and 2x1 chroma averaging"])
p("C02", "10 to 16-bit YCbCr decoding is accurate for every pixel",
  "Converting any 10, 12, 14 or 16-bit planar, semi-planar (P010, P012, P210, ...) or packed YCbCr image, with or without an alpha plane, in either byte order, to RGB(A) or BGR(A) of 8 bits or of its own depth yields for every pixel the clipped result of the inverse equations of the chosen matrix and range, using the chroma sample that covers the pixel, within 4.5 code values (2 for 8-bit results). Alpha is the rescaled alpha plane, or opaque. It does not depend on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges (every function and CPU with a rotating sixth of the pairs, all of them when thorough)", CANT,
  ["src/yuv_p16_rgba_p16.rs", "src/yuv_p10_rgba.rs", "src/yuv_p16_rgba_alpha.rs", "src/yuv_p16_rgba16_alpha.rs", "src/yuv_nv_p10_to_rgb.rs", "src/yuv_nv_p16_to_rgb16.rs"],
  ["fixed point coefficients", "row kernels of each vector width and their scalar tails", "byte order and significant-bit handling"])
p("C04", "10 to 16-bit RGB encoding to YCbCr is accurate for every pixel",
  "Converting any 10, 12, 14 or 16-bit RGB(A) image to planar, semi-planar or gray YCbCr of the same depth, in either byte order, yields for every pixel the luma of the chosen matrix and range and for every chroma sample the chroma of the mean of exactly the pixels it covers (fewer at odd right and bottom edges). The error is at most 2 code values (4 at 16 bits). It does not depend on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges (every function and CPU with a rotating half of the pairs, all of them when thorough)", CANT,
  ["src/rgb16_to_yuv_p16.rs", "src/rgb_to_nv_p16.rs", "src/avx2/rgb_to_yuv_p16.rs", "src/avx512bw/rgb_to_yuv_p16.rs", "src/yuv_support.rs"],
  ["fixed point coefficients", "row kernels of each vector width and their scalar tails", "2x2 and 2x1 chroma averaging"])
p("C09", "Repacking between planar and packed 4:2:2 preserves every sample",
  "Converting between planar 4:2:0/4:2:2/4:4:4 and packed YUYV/UYVY/YVYU/VYUY (8 and 16 bit) copies every luma sample unchanged. Every chroma sample is the source sample of its place; where the target has fewer chroma columns it is the mean of the two neighbours (either rounding), and where it has fewer rows it stems from the rows it covers. This holds for odd widths and heights and padded rows.",
  ["inputs", "configurations"], GEO + " up to 140", CANT,
  ["src/yuy2_to_yuv.rs", "src/yuy2_to_yuv_p16.rs", "src/yuv_to_yuy2.rs", "src/yuv_to_yuy2_p16.rs", "src/sse", "src/avx2"],
  ["interleaving kernels", "odd column and odd row tails"])
p("C10", "Channel shuffles between RGB, BGR, RGBA and BGRA are lossless permutations",
  "Every conversion between two different 8-bit interleaved layouts among RGB, BGR, RGBA and BGRA moves each channel of every pixel to its place unchanged. Alpha is copied when both layouts have it, dropped when only the source has it, and written as 255 when only the target has it.",
  ["inputs", "configurations"], GEO + " up to 200", CANT,
  ["src/shuffle.rs", "src/sse", "src/avx2", "src/avx512bw"], ["shuffle kernels and tails"])
p("C11", "GBR planes carry RGB: identity at full range, linear rescale at limited",
  "Converting between RGB(A) and planar GBR of 8 to 16 bits at full range moves every channel of every pixel unchanged to or from the plane it is named after. At limited range each channel is the linear rescale between the full scale and the 219-step luma range (clipped when decoding) within 1.5 code values; alpha is copied from an alpha plane and opaque otherwise.",
  ["inputs", "configurations"], GEO + "; both ranges", CANT,
  ["src/from_identity.rs", "src/from_identity_alpha.rs", "src/to_identity.rs", "src/avx2", "src/sse"], ["copying and rescaling row kernels"])
p("C12", "YCgCo conversions follow the YCgCo equations for every pixel",
  "Decoding 8 to 12 bit YCgCo yields the clipped inverse YCgCo transform of every pixel with the chroma sample that covers it, and encoding yields the forward transform with the chroma of the mean of the covered pixels, both within 1 code value for both ranges, all subsamplings, odd sizes and padded rows. Alpha is copied from an alpha plane and opaque otherwise.",
  ["inputs", "configurations"], GEO + "; both ranges", CANT,
  ["src/ycgco_to_rgb.rs", "src/ycgco_to_rgb_alpha.rs", "src/rgb_to_ycgco.rs"], ["fixed point row kernels and tails"])
p("C13", "30-bit packed pixels hold every RGB channel at its bit position",
  "Packing 8, 10 or 12 bit RGB(A) into AR30 or RA30 and unpacking AR30/RA30/AB30/BA30 to 8-bit RGB(A) keeps every channel of every pixel on the same scale within one code value of the target, at the bit position the format's name gives it, in host or network byte order as requested. Alpha keeps its two most significant bits and is opaque when the source has none.",
  ["inputs", "configurations"], GEO + "; both byte orders", CANT,
  ["src/rgb_ar30.rs", "src/ar30_rgb.rs", "src/yuv_support.rs"], ["shifts and masks of the 30-bit formats"])
p("C14", "Rotation and mirroring move every pixel to its place unchanged",
  "Rotating by 90, 180 or 270 degrees (counter-clockwise) and mirroring vertically or horizontally moves every pixel of a 1, 2, 3 or 4 channel 8 or 16 bit image to its place without changing any channel, for any size and any (equal) row padding of source and destination.",
  ["inputs", "configurations"], "every sample value; widths up to 100, heights up to 34, paddings 0..3; every CPU level", CANT,
  ["src/geometry.rs", "src/mirroring.rs"], ["calls of the transposition library with the right geometry"])
p("C17", "RemoteFX YCbCr conversions are accurate for every pixel",
  "Encoding RGB, BGR and 4-channel images in any channel order to RemoteFX YCbCr 4:4:4 (16-bit samples in 1/32 steps, luma centred at -4096) and decoding such samples in their 13-bit range follows the RemoteFX equations for every pixel within 2/32 (encoding) or 1.5 (decoding) code values, with decoded values clipped to 0..255 and alpha opaque. It does not depend on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO, CANT, ["src/rdp.rs", "src/avx2/rdp_to_yuv.rs"], ["fixed point row kernels and tails"])

p("C05", "Alpha: 8-bit YUVA and AYUV decoding is accurate and premultiplies correctly",
  "Decoding 8-bit planar YUV with an alpha plane, gray with alpha and packed AYUV/VYUA yields the clipped inverse equations of the chosen matrix and range for every pixel within 3.5 code values (1 without vector extensions, 1.5 for gray) and copies the alpha sample of that pixel unchanged. With premultiplication requested, every colour channel is the straight result times alpha/255 within 1 code value. Neither depends on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges", CANT,
  ["src/yuv_to_rgba_alpha.rs", "src/y_with_alpha_to_rgb.rs", "src/ayuv_to_rgb.rs", "src/avx2", "src/sse"],
  ["row kernels of each vector width and their scalar tails", "division by 255 of the premultiplication"])
p("C06", "Converters never touch memory outside their buffers and never panic",
  "With buffers that satisfy the documented geometry exactly (no spare element behind the last row), no converter of the crate reads or writes outside of the slices it was given, whatever the sample values are. With samples that fit the format's bit depth it returns Ok without panicking, arithmetic overflow included. This holds on every CPU level, for every width, odd sizes included.",
  ["inputs", "configurations"], GEO + " (sharp YUV up to 24); all 597 converters", CANT,
  ["src/avx2", "src/avx512bw", "src/sse", "src/sharpyuv", "src/internals.rs", "src/yuv_to_rgba.rs"],
  ["get_unchecked and raw vector loads and stores of the row kernels", "hand-over between vector loop, tail copy buffers and scalar tail"])
p("C07", "Images whose buffers do not fit their geometry are refused, never panicked on",
  "Every converter called with an empty image, with a stride below the row length or with a source or destination slice shorter than stride*(rows-1)+row returns an error. It neither panics (integer overflow included) nor reports success.",
  ["inputs", "configurations"], "all values of width, height, every stride and every slice length of 8 bits, and all multiples of 32768 of 19 bits (lengths 38 bits), whose products exceed 32 bits; all 597 converters, rotations, mirror and conversion modes",
  "The tests always pass well-formed images. ",
  ["src/yuv_error.rs", "src/images.rs", "src/geometry.rs", "src/mirroring.rs", "src/yuv_support.rs"], ["buffer validation before the row loops"])
p("C08", "Row padding is neither read nor written: only the pixels matter",
  "Converting the same pixels out of and into buffers with other row strides gives the same pixels, for every converter and whatever the padding contains. No element of the destination outside of the rows' pixels is changed.",
  ["inputs", "configurations"], GEO + "; two layouts per job; all 597 converters", CANT,
  ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_p10_rgba.rs", "src/avx2", "src/avx512bw", "src/sse", "src/geometry.rs"],
  ["row iteration by stride", "odd column tails that index from the end of the row"])
p("C18", "YCbCr to 30-bit RGB decoding is accurate for every pixel",
  "Decoding 10, 12 and 14-bit planar and 10 and 12-bit semi-planar YCbCr to AR30 or RA30 in host or network byte order gives for every pixel the clipped inverse equations of the chosen matrix and range scaled to 10 bits, within 1.5 code values, with every channel at its bit position and opaque alpha.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges", CANT,
  ["src/yuv_p16_ar30.rs", "src/yuv_nv_p10_to_ar30.rs", "src/avx2", "src/sse", "src/avx512bw"], ["fixed point row kernels and tails", "packing of the 30-bit pixels"])
p("C15", "Big-endian and little-endian converters agree exactly",
  "Every converter that reads or writes big-endian 16-bit samples gives, for the byte-swapped samples of any image, exactly the (byte-swapped) pixels that its little-endian counterpart gives for the image. This holds for every bit depth, CPU level, size and row padding.",
  ["inputs", "configurations"], GEO + "; every big-endian converter against its counterpart; rotating matrices, ranges, depths", CANT,
  ["src/yuv_support.rs", "src/yuv_p10_rgba.rs", "src/yuv_p16_rgba_p16.rs", "src/rgb16_to_yuv_p16.rs", "src/avx2", "src/sse", "src/avx512bw"],
  ["byte swaps of the row kernels and tails"])
p("C16", "Half float conversions are accurate for every sample",
  "Converting 8 to 16-bit planes and RGB(A) to half floats gives for every sample its value divided by the maximum of its bit depth to half float precision, and converting half floats in 0..1 back gives the nearest integer. YCbCr and GBR of 10 to 16 bits become half float RGB(A) that is the clipped inverse equations of the matrix and range (within 1 code value, 3 at 14 bits; 1.5, 8 at 16 bits for GBR) divided by the maximum, with alpha copied or 1.0. It does not depend on the CPU's vector extensions.",
  ["inputs", "configurations"], GEO + "; CPU levels with and without F16C; 6 matrices x 2 ranges (rotating third)", CANT + "None of them covers the half float converters. ",
  ["src/f16_converter.rs", "src/yuv_p16_rgba_f16.rs", "src/yuva_p16_rgba_f16.rs", "src/from_identity_f16.rs", "src/from_identity_alpha_f16.rs", "src/avx2/f16_converter.rs", "src/avx2/yuv_p16_to_rgb_f16.rs"],
  ["float scaling and rounding of each path", "F16C kernels and their tails"])
p("C19", "Limited-range encoders never leave the legal code range",
  "Whatever the pixels, every encoder of RGB to limited-range YCbCr or YCgCo writes luma and chroma codes inside the legal range of the bit depth (16..235 and 16..240 at 8 bits, scaled by powers of two above). Rounding may exceed it by at most 1 code in the balanced 8-bit mode and 2 in fast mode and at 16 bits.",
  ["inputs", "configurations"], GEO + "; 6 matrices x every mode", CANT,
  ["src/rgba_to_yuv.rs", "src/rgba_to_nv.rs", "src/rgb_to_y.rs", "src/rgb16_to_yuv_p16.rs", "src/rgb_to_nv_p16.rs", "src/rgb_to_ycgco.rs"],
  ["sum of the coefficients and rounding bias of each path", "saturation of the vector kernels"])
p("C20", "Neutral colours stay neutral: gray YCbCr is gray RGB and back",
  "Decoding YCbCr or YCgCo pixels whose chroma is the neutral code gives exactly equal red, green and blue, for every converter, matrix, range and CPU level. Encoding gray pixels gives exactly the neutral chroma code, or within 2 codes of it in fast mode and at 16 bits.",
  ["inputs", "configurations"], GEO + "; 6 matrices x 2 ranges (rotating sixth and third)", CANT,
  ["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/rgb16_to_yuv_p16.rs", "src/yuv_support.rs"],
  ["chroma coefficients that cancel", "rounding of the chroma bias"])
p("C21", "Row-parallel conversion gives exactly the serial result in every row order",
  "With the crate's `rayon` feature every converter writes exactly the elements that it writes without the feature, whatever the order in which the parallel loops run their rows, for every size and row padding and with padding untouched.",
  ["inputs", "schedules", "configurations"], "every sample value; every order of up to three parallel items (rows or row pairs), three orders beyond; widths 1..70, heights 2..6; CPU levels AVX2, VBMI and scalar; all 597 converters", "The existing tests are not built with the feature, and no test can choose the order of the rows. ",
  ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_p16_rgba_p16.rs", "src/rgb16_to_yuv_p16.rs", "src/yuv_nv_to_rgba.rs", "src/shuffle.rs"],
  ["separate parallel iterators of every row loop", "handling of the last odd row outside of the parallel loop"],
  note="Inside a parallel loop the items run one after another in a chosen order (a stand-in for rayon with its interface); overlap within two rows is excluded by the disjoint slices of safe Rust.")
p("C22", "Channel and plane order do not change the pixels",
  "Every converter to or from BGR(A) gives exactly the pixels of its RGB(A) counterpart with red and blue exchanged, and every NV21/NV61/NV42 converter exactly those of its NV12/NV16/NV24 counterpart with exchanged chroma bytes. Every converter to or from RGBA gives exactly the colours of its RGB counterpart.",
  ["inputs", "configurations"], GEO + "; every such pair of converters; rotating matrices, ranges, modes", CANT,
  ["src/yuv_support.rs", "src/yuv_nv_to_rgba.rs", "src/rgba_to_nv.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/avx2", "src/sse"],
  ["channel offsets of each order", "interleaving stores and deinterleaving loads of each vector width"])


p("C23", "Sharp YUV encoding keeps the luma of every pixel and the colour of blocks",
  "Sharp YUV 4:2:0 and 4:2:2 encoding of RGB/BGR/RGBA/BGRA writes for every pixel, whatever its neighbours, the luma of the chosen matrix and range within 1.1 code values. Where the pixels under a chroma sample share one colour, its chroma is the chroma of that colour within 1.1 code values (1.5 for gamma 2.2, 2.75 for gamma 2.8), whatever the surrounding pixels and the gamma transfer.",
  ["inputs", "configurations"], "every sample value; widths 1..24, heights 1..4, row paddings; 4 transfers x 6 matrices x 2 ranges (rotating third); every CPU level", CANT + "They convert one colour per image and never check a width or matrix of their own. ",
  ["src/sharpyuv/sharp_rgba_to_yuv.rs", "src/sharpyuv/sharp_gamma.rs", "src/yuv_support.rs"],
  ["gamma tables and their inverse", "row pairs, odd last row and odd last column", "fixed point coefficients"])
p("C24", "Custom kr/kb matrices convert as accurately as the standard ones",
  "With YuvStandardMatrix::Custom(kr, kb) every 8 to 16-bit YCbCr decoder and RGB encoder follows the equations of exactly those coefficients for every pixel, within 1 code value more than with the standard matrices.",
  ["inputs", "configurations"], "every sample value; kr 0.15..0.40 and kb 0.04..0.30: two fixed pairs and one drawn from the seed (30 when thorough) x 2 ranges x every mode (rotating half); widths 1..60, every CPU level", "No existing test uses a custom matrix. ",
  ["src/yuv_support.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/rgb16_to_yuv_p16.rs", "src/yuv_p16_rgba_p16.rs"],
  ["derivation of the coefficients at run time", "table look-up of the prebuilt coefficients"],
  note="Coefficients outside of the stated box (kr below 0.12) overflow the 16-bit arithmetic of the professional mode's kernels and are outside of the property.")


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["pid"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["cant"].strip(),
                "anchors": {"files": q["files"], "mechanism": [{"name": m, "where": ", ".join(q["files"][:3])} for m in q["mech"]]}}) + "\n")
    man = {
        "version": 1, "setup_cmd": "python3 lib/setup.py",
        "checks": [{"property": q["pid"], "quick_cmd": f"python3 check.py {q['pid']} quick", "thorough_cmd": f"python3 check.py {q['pid']} thorough",
                    "evidence_file": f"evidence/{q['pid']}.json", "technique": q.get("tech") or TECH, "level": "model_checking", "level_note": NOTE + (" " + q["note"] if q["note"] else "")}
                   for q in P if q["claimed"]],
        "not_applicable": [{"property": q["pid"], "reason": q["reason"]} for q in P if not q["claimed"]],
        "notes": "See DESIGN.md. properties.jsonl and this file are generated by lib/meta.py; known findings are in known_findings.json.",
    }
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

def design():
    t = open(V + "/lib/DESIGN.in.md").read()
    o = ["## Properties", "", "| id | property | decided over | functions |", "|---|---|---|---|"]
    for q in P:
        ev = {}
        o.append(f"| {q['pid']} | {q['title']} | {q['text']}{'; ' + q['note'] if q['note'] else ''} | {', '.join(q['files'][:6])} |" if q["claimed"] else f"| {q['pid']} | {q['title']} | not applicable: {q['reason']} | |")
    t = t.replace("PROPS", "\n".join(o))
    k = json.load(open(V + "/known_findings.json"))
    o = ["Recorded, not repaired:", ""] + [f"* `{f['id']}` ({f['property']}): {f['what']}" for f in k["findings"]] + ["", "Repaired:", ""] + ["* " + f[7:] for f in k["fixed"]]
    t = t.replace("FINDINGS", "\n".join(o))
    o = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    try:
        res = json.load(open(V + "/lib/seeded_results.json"))
    except FileNotFoundError:
        res = {}
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        o.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '')} |")
    t = t.replace("SEEDED", "\n".join(o))
    open(V + "/DESIGN.md", "w").write(t)


main()
design()
for q in P:
    n = q["statement"].count(". ") + 1
    if n > 3:
        print(q["pid"], "statement has", n, "sentences")
