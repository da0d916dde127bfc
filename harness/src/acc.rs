//! Accuracy of YCbCr <-> RGB conversions against the defining equations, at scale S.
use crate::ctx::*;
use crate::vp::*;

pub const S: f64 = (1u64 << 20) as f64;
pub const SI: i64 = 1 << 20;

fn q(v: f64) -> i64 {
    (v * S).round() as i64
}
/// (luma black level, luma span, chroma centre, chroma span)
pub fn span(bits: u32) -> (i64, i64, i64, i64) {
    let sh = bits - 8;
    if param(P_RANGE) == 0 {
        (16 << sh, 219 << sh, 128 << sh, 224 << sh)
    } else {
        (0, (1 << bits) - 1, 128 << sh, (1 << bits) - 1)
    }
}

/// coefficients of the inverse equations for samples of `bi` bits and RGB of `bo` bits
pub struct Dec {
    pub by: i64,
    pub bc: i64,
    pub cy: i64,
    pub cr: i64,
    pub cb: i64,
    pub gr: i64,
    pub gb: i64,
    pub max: i64,
}
pub fn dec(bi: u32, bo: u32) -> Dec {
    let (kr, kb) = kr_kb();
    let kg = 1.0 - kr - kb;
    let (by, sy, bc, sc) = span(bi);
    let m = ((1u64 << bo) - 1) as f64;
    let (ky, kc) = (m / sy as f64, m / sc as f64);
    // the fast mode limits every chroma coefficient to 127/64 (documented at search_inverse_transform)
    let top = if param(P_MODE) == 1 { 127.0 / 64.0 } else { f64::MAX };
    Dec {
        by,
        bc,
        cy: q(ky),
        cr: q((2.0 * (1.0 - kr) * kc).min(top)),
        cb: q((2.0 * (1.0 - kb) * kc).min(top)),
        gr: q((2.0 * (1.0 - kr) * kr / kg * kc).min(top)),
        gb: q((2.0 * (1.0 - kb) * kb / kg * kc).min(top)),
        max: ((1i64 << bo) - 1) * SI,
    }
}
impl Dec {
    /// exact RGB (scaled, clipped) for one pixel; `y` already relative to black
    pub fn rgb(&self, y: i64, u: i64, v: i64) -> [i64; 3] {
        let (u, v) = (u - self.bc, v - self.bc);
        let l = y * self.cy;
        [
            (l + v * self.cr).clamp(0, self.max),
            (l - v * self.gr - u * self.gb).clamp(0, self.max),
            (l + u * self.cb).clamp(0, self.max),
        ]
    }
}

/// P_X: tolerance in 1/100 of an output code value; P_X+1: input bit depth override
pub fn decode() {
    let cv = conv();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    let (bi, bo) = if cv.src.bits == 16 && param(P_DEPTH) != 0 {
        (param(P_DEPTH) as u32, param(P_DEPTH) as u32)
    } else {
        (cv.src.bits, if cv.dst.kind == F16 { cv.src.bits } else { cv.dst.bits })
    };
    c.src_valid(bi);
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
    let k = dec(bi, bo);
    let tol = param(P_X) * SI / 100;
    let has_c = cv.src.kind == YUV;
    for y in 0..h as usize {
        for x in 0..w as usize {
            let yy = c.get_s(0, x, y) - k.by;
            let (u, v) = if has_c { (c.get_s(1, x, y), c.get_s(2, x, y)) } else { (k.bc, k.bc) };
            // luma below black: extrapolated or clipped at black are both fine
            let lo = k.rgb(yy, u, v);
            let hi = k.rgb(yy.max(0), u, v);
            for i in 0..3 {
                between(c.get_d(i, x, y) * SI, lo[i] - tol, hi[i] + tol, 2 + i as u32);
            }
            if cv.dst.nc == 4 && cv.dst.kind == P30 {
                check(c.get_d(3, x, y) == 3, 5);
            }
            if cv.dst.nc == 4 && (cv.dst.kind == RGB || cv.dst.kind == F16) {
                let a = c.get_d(3, x, y);
                let alpha = match (cv.src.kind, cv.src.nc) {
                    (YUV, 4) => Some(c.get_s(3, x, y)),
                    (GRAYA, _) => Some(c.get_s(1, x, y)),
                    _ => None,
                };
                match alpha {
                    None => check(a == (1 << bo) - 1, 5),
                    Some(s) if bi == bo => check(a == s, 5),
                    Some(s) => between(a << (bi - bo), s - (1 << (bi - bo)), s + (1 << (bi - bo)), 5),
                }
            }
        }
    }
    reach(1);
}

pub struct Enc {
    pub by: i64,
    pub bc: i64,
    pub y: [i64; 3],
    pub u: [i64; 3],
    pub v: [i64; 3],
    pub lim: (i64, i64, i64, i64),
}
pub fn enc(bi: u32, bo: u32) -> Enc {
    let (kr, kb) = kr_kb();
    let kg = 1.0 - kr - kb;
    let (by, sy, bc, sc) = span(bo);
    let m = ((1u64 << bi) - 1) as f64;
    let (ky, kc) = (sy as f64 / m, sc as f64 / m);
    let max = (1i64 << bo) - 1;
    let lim = if param(P_RANGE) == 0 { (by, by + sy, bc - sc / 2, bc + sc / 2) } else { (0, max, 0, max) };
    Enc {
        by,
        bc,
        y: [q(kr * ky), q(kg * ky), q(kb * ky)],
        u: [q(-0.5 * kr / (1.0 - kb) * kc), q(-0.5 * kg / (1.0 - kb) * kc), q(0.5 * kc)],
        v: [q(0.5 * kc), q(-0.5 * kg / (1.0 - kr) * kc), q(-0.5 * kb / (1.0 - kr) * kc)],
        lim,
    }
}
pub fn dot(k: &[i64; 3], p: &[i64; 3]) -> i64 {
    k[0] * p[0] + k[1] * p[1] + k[2] * p[2]
}

/// P_X: luma tolerance in 1/100 code value; P_X+1: chroma tolerance
pub fn encode() {
    let cv = conv();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    let (bi, bo) = (cv.src.bits, cv.dst.bits);
    c.src_valid(bi);
    if param(P_X + 2) == 1 {
        // every pixel of a chroma block has the same colour
        let q = cv.dst.comps[1];
        for i in 0..3 {
            for y in 0..h as usize {
                for x in 0..w as usize {
                    c.put_s(i, x, y, c.get_s(i, x >> q.hs << q.hs, y >> q.vs << q.vs));
                }
            }
        }
    }
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
    let k = enc(bi, bo);
    let (tl, tc) = (param(P_X) * SI / 100, param(P_X + 1) * SI / 100);
    let (w, h) = (w as usize, h as usize);
    for y in 0..h {
        for x in 0..w {
            let p = [c.get_s(0, x, y), c.get_s(1, x, y), c.get_s(2, x, y)];
            let l = dot(&k.y, &p) + k.by * SI;
            between(c.get_d(0, x, y) * SI, l - tl, l + tl, 2);
        }
    }
    if cv.dst.kind == YUV {
        let (hs, vs) = (cv.dst.comps[1].hs, cv.dst.comps[1].vs);
        let max = ((1i64 << bo) - 1) * SI;
        let mut y = 0;
        while y < h {
            let mut x = 0;
            while x < w {
                // the pixels of the image that share this chroma sample
                let mut p = [0i64; 3];
                let mut n = 0;
                for dy in 0..1usize << vs {
                    for dx in 0..1usize << hs {
                        if y + dy < h && x + dx < w {
                            for i in 0..3 {
                                p[i] += c.get_s(i, x + dx, y + dy);
                            }
                            n += 1;
                        }
                    }
                }
                let u = c.get_d(1, x, y) * SI * n;
                let v = c.get_d(2, x, y) * SI * n;
                let eu = (dot(&k.u, &p) + k.bc * SI * n).clamp(0, max * n);
                let ev = (dot(&k.v, &p) + k.bc * SI * n).clamp(0, max * n);
                between(u, eu - tc * n, eu + tc * n, 3);
                between(v, ev - tc * n, ev + tc * n, 4);
                x += 1 << hs;
            }
            y += 1 << vs;
        }
    }
    reach(1);
}
