//! Conversions that only move, replicate, average or linearly rescale samples, against their definition.
use crate::acc::{span, SI};
use crate::ctx::*;
use crate::vp::*;

fn start(dw: u32, dh: u32) -> Ctx {
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    Ctx::new(conv(), w, h, dw, dh)
}
fn go(c: &Ctx) {
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
}
fn eq(a: i64, b: i64, id: u32) {
    check(a == b, id)
}

/// channel shuffles; missing alpha becomes opaque
pub fn shuffle() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    c.src_any();
    go(&c);
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            for i in 0..3 {
                eq(c.get_d(i, x, y), c.get_s(i, x, y), 2 + i as u32);
            }
            if c.cv.dst.nc == 4 {
                eq(c.get_d(3, x, y), if c.cv.src.nc == 4 { c.get_s(3, x, y) } else { 255 }, 5);
            }
        }
    }
    reach(1);
}

/// planar <-> packed 4:2:2: luma is copied; a chroma sample is the source sample of its place,
/// or the mean of the neighbouring source samples of a row it covers (either rounding)
pub fn repack() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    c.src_any();
    go(&c);
    let (w, h) = (c.w as usize, c.h as usize);
    for y in 0..h {
        for x in 0..w {
            eq(c.get_d(0, x, y), c.get_s(0, x, y), 2);
        }
    }
    let (si, di) = (&c.cv.src.comps[1], &c.cv.dst.comps[1]);
    let (bw, bh) = (1usize << di.hs, 1usize << di.vs);
    let (sw, sh) = (1usize << si.hs, 1usize << si.vs);
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            for k in 1..3 {
                let d = c.get_d(k, x, y);
                // every covered source row gives a candidate: the mean of its samples (either rounding);
                // the result lies between the smallest and the largest candidate
                let (mut lo, mut hi) = (i64::MAX, i64::MIN);
                let mut n = 1;
                let mut yy = y;
                while yy < (y + bh).min(h) {
                    let mut sum = 0;
                    n = 0;
                    let mut xx = x;
                    while xx < (x + bw).min(w) {
                        sum += c.get_s(k, xx, yy);
                        n += 1;
                        xx += sw;
                    }
                    lo = lo.min(sum);
                    hi = hi.max(sum);
                    yy += sh;
                }
                if n == 1 && yy == y + sh {
                    eq(d, lo, 2 + k as u32);
                } else {
                    between(d * n, lo - (n - 1), hi + (n - 1), 2 + k as u32);
                }
            }
            x += bw;
        }
        y += bh;
    }
    reach(1);
}

/// counter-clockwise by 90, 180, 270 degrees
pub fn rotate() {
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let g = param(P_GEO);
    let c = if g == 1 { start(w, h) } else { start(h, w) };
    c.src_any();
    go(&c);
    let (w, h) = (w as usize, h as usize);
    for y in 0..h {
        for x in 0..w {
            let (dx, dy) = match g {
                0 => (y, w - 1 - x),
                1 => (w - 1 - x, h - 1 - y),
                _ => (h - 1 - y, x),
            };
            for i in 0..c.cv.src.nc {
                eq(c.get_d(i, dx, dy), c.get_s(i, x, y), 2);
            }
        }
    }
    reach(1);
}
pub fn mirror() {
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = start(w, h);
    c.src_any();
    go(&c);
    let (w, h) = (w as usize, h as usize);
    for y in 0..h {
        for x in 0..w {
            let (dx, dy) = if param(P_GEO) == 0 { (x, h - 1 - y) } else { (w - 1 - x, y) };
            for i in 0..c.cv.src.nc {
                eq(c.get_d(i, dx, dy), c.get_s(i, x, y), 2);
            }
        }
    }
    reach(1);
}

/// RGB <-> 30 bit packed: every channel keeps its value up to the lost low bits. P_X: tolerance in 1/100 of a destination code
pub fn pack30() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    let (bi, bo) = (c.cv.src.bits, c.cv.dst.bits);
    c.src_valid(bi);
    go(&c);
    let tol = param(P_X);
    let (mi, mo) = ((1i64 << bi) - 1, (1i64 << bo) - 1);
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            for i in 0..3 {
                // d / mo == s / mi within the tolerance; both ends of the scale are kept
                let (s, d) = (c.get_s(i, x, y), c.get_d(i, x, y));
                between(d * mi * 100, s * mo * 100 - tol * mi, s * mo * 100 + tol * mi, 2 + i as u32);
            }
            let ai = if c.cv.src.kind == P30 { 3 } else { mi };
            let ao = if c.cv.dst.kind == P30 { 3 } else { mo };
            if c.cv.dst.nc == 4 {
                let d = c.get_d(3, x, y);
                if c.cv.src.nc == 4 {
                    let s = c.get_s(3, x, y);
                    between(d * ai, s * ao - ai + 1, s * ao + ai - 1, 5);
                } else {
                    eq(d, ao, 5);
                }
            }
        }
    }
    reach(1);
}

/// GBR planes: identity at full range, linear rescale at limited. P_X: tolerance in 1/100
pub fn gbr() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    let b = c.cv.src.bits;
    c.src_valid(b);
    go(&c);
    let dec = c.cv.src.planes.len() > 1;
    let full = param(P_RANGE) == 1;
    let (by, sy, _, _) = span(b);
    let m = (1i64 << b) - 1;
    let tol = param(P_X);
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            for i in 0..3 {
                let (s, d) = (c.get_s(i, x, y), c.get_d(i, x, y));
                if full {
                    eq(d, s, 2 + i as u32);
                } else if dec {
                    // d = clamp((s - by) * m / sy)
                    let lo = ((s - by) * m * 100).clamp(0, m * sy * 100);
                    between(d * sy * 100, lo - tol * sy, lo + tol * sy, 2 + i as u32);
                } else {
                    let e = s * sy * 100 + by * m * 100;
                    between(d * m * 100, e - tol * m, e + tol * m, 2 + i as u32);
                }
            }
            if c.cv.dst.nc == 4 {
                eq(c.get_d(3, x, y), if c.cv.src.nc == 4 { c.get_s(3, x, y) } else { m }, 5);
            }
        }
    }
    reach(1);
}

/// YCgCo: Y = G/2 + (R+B)/4, Cg = G/2 - (R+B)/4, Co = (R-B)/2. P_X: tolerance in 1/100, P_X+1: chroma
pub fn ycgco_dec() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    let b = c.cv.src.bits;
    c.src_valid(b);
    go(&c);
    let (by, sy, bc, sc) = span(b);
    let m = (1i64 << b) - 1;
    let (ky, kc) = ((m * SI + sy / 2) / sy, (m * SI + sc / 2) / sc);
    let tol = param(P_X) * SI / 100;
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            let l = (c.get_s(0, x, y) - by) * ky;
            let g = (c.get_s(1, x, y) - bc) * kc;
            let o = (c.get_s(2, x, y) - bc) * kc;
            let e = [l - g + o, l + g, l - g - o];
            for i in 0..3 {
                let v = e[i].clamp(0, m * SI);
                // luma below black: extrapolated or clipped at black
                let l0 = if param(P_RANGE) == 0 { (e[i] - l + l.max(0)).clamp(0, m * SI) } else { v };
                between(c.get_d(i, x, y) * SI, v - tol, l0 + tol, 2 + i as u32);
            }
            if c.cv.dst.nc == 4 {
                eq(c.get_d(3, x, y), if c.cv.src.nc == 4 { c.get_s(3, x, y) } else { m }, 5);
            }
        }
    }
    reach(1);
}
pub fn ycgco_enc() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    let b = c.cv.src.bits;
    c.src_valid(b);
    go(&c);
    let (by, sy, bc, sc) = span(b);
    let m = (1i64 << b) - 1;
    let (ky, kc) = ((sy * SI + m / 2) / m, (sc * SI + m / 2) / m);
    let (tl, tc) = (param(P_X) * SI / 25, param(P_X + 1) * SI / 25);
    let (w, h) = (c.w as usize, c.h as usize);
    for y in 0..h {
        for x in 0..w {
            let (r, g, bl) = (c.get_s(0, x, y), c.get_s(1, x, y), c.get_s(2, x, y));
            // times 4
            let l = (2 * g + r + bl) * ky + 4 * by * SI;
            between(c.get_d(0, x, y) * 4 * SI, l - tl, l + tl, 2);
        }
    }
    let (hs, vs) = (c.cv.dst.comps[1].hs, c.cv.dst.comps[1].vs);
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            let (mut p, mut n) = ([0i64; 3], 0);
            for dy in 0..1usize << vs {
                for dx in 0..1usize << hs {
                    if y + dy < h && x + dx < w {
                        for i in 0..3 {
                            p[i] += c.get_s(i, x + dx, y + dy);
                        }
                        n += 1;
                    }
                }
            }
            let g = (2 * p[1] - p[0] - p[2]) * kc + 4 * bc * SI * n;
            let o = (2 * p[0] - 2 * p[2]) * kc + 4 * bc * SI * n;
            between(c.get_d(1, x, y) * 4 * SI * n, g - tc * n, g + tc * n, 3);
            between(c.get_d(2, x, y) * 4 * SI * n, o - tc * n, o + tc * n, 4);
            x += 1 << hs;
        }
        y += 1 << vs;
    }
    reach(1);
}

/// RemoteFX colour transform, samples in 1/32 with luma centred at -4096. P_X: tolerance in 1/100
pub fn rdp_enc() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    c.src_valid(8);
    go(&c);
    let q = |v: f64| (v * SI as f64).round() as i64;
    let k = [
        [q(0.299), q(0.587), q(0.114)],
        [q(-0.168_935), q(-0.331_665), q(0.500_59)],
        [q(0.499_813), q(-0.418_531), q(-0.081_282)],
    ];
    let tol = param(P_X) * SI / 100;
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            let p = [c.get_s(0, x, y), c.get_s(1, x, y), c.get_s(2, x, y)];
            for i in 0..3 {
                let e = crate::acc::dot(&k[i], &p) * 32 - if i == 0 { 4096 * SI } else { 0 };
                between(c.get_d(i, x, y) * SI, e - tol, e + tol, 2 + i as u32);
            }
        }
    }
    reach(1);
}
pub fn rdp_dec() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    for i in 0..3 {
        let p = &c.s[i];
        unsafe {
            // 13 bit samples: -4096 .. 4095
            vp_sym16(p.p as *mut u16, p.len, 13, i as u32 + 1);
            let q = p.p as *mut i16;
            for k in 0..p.len {
                *q.add(k) -= 4096;
            }
        }
    }
    go(&c);
    let q = |v: f64| (v * SI as f64 / 32.0).round() as i64;
    let (cr, g1, g2, cb) = (q(1.402525), q(0.343730), q(0.714401), q(1.769905));
    let tol = param(P_X) * SI / 100;
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            let l = (c.get_s(0, x, y) + 4096) * (SI / 32);
            let (u, v) = (c.get_s(1, x, y), c.get_s(2, x, y));
            let e = [l + v * cr, l - u * g1 - v * g2, l + u * cb];
            for i in 0..3 {
                let e = e[i].clamp(0, 255 * SI);
                between(c.get_d(i, x, y) * SI, e - tol, e + tol, 2 + i as u32);
            }
            if c.cv.dst.nc == 4 {
                eq(c.get_d(3, x, y), 255, 5);
            }
        }
    }
    reach(1);
}

/// integers to half floats (the value divided by the maximum) and back (the nearest integer of values 0..=1)
pub fn f16conv() {
    let c = start(param(P_W) as u32, param(P_H) as u32);
    let b = if c.cv.src.bits == 16 || c.cv.dst.bits == 16 { param(P_DEPTH) as u32 } else { 8 };
    let back = c.cv.src.kind == F16;
    if back {
        let p = &c.s[0];
        let q = p.p as *mut u16;
        unsafe {
            vp_sym16(q, p.len, 14, 1);
            for k in 0..p.len {
                *q.add(k) = (*q.add(k)).min(0x3c00);
            }
        }
    } else {
        c.src_valid(b);
    }
    go(&c);
    let m = (1i64 << b) - 1;
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            for i in 0..c.cv.dst.nc {
                let (s, d) = (c.get_s(i, x, y), c.get_d(i, x, y));
                if back {
                    near(d << 24, unsafe { vp_f16lin(s as u16) } * m, (51 << 24) / 100, 2);
                } else {
                    eq(d, s, 2);
                }
            }
        }
    }
    reach(1);
}
