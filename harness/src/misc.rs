//! Properties over all converters: memory safety, row layout independence, rejection of bad geometry, equivalences, neutral gray, legal ranges.
use crate::acc::span;
use crate::ctx::*;
use crate::vp::*;

/// size of the destination image: P_GEO rotations by a quarter exchange the sides (P_X + 9: the function rotates)
fn start() -> Ctx {
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    if param(P_X + 9) == 1 && param(P_GEO) != 1 {
        Ctx::new(conv(), w, h, h, w)
    } else {
        Ctx::new(conv(), w, h, w, h)
    }
}
fn cp(d: *mut u8, s: *const u8, n: usize) {
    unsafe { core::ptr::copy_nonoverlapping(s, d, n) }
}
fn same(a: *const u8, b: *const u8, n: usize, id: u32) {
    unsafe { vp_same(a, b, n, id) }
}

/// valid geometry: success, no panic, no access outside the buffers.
/// P_X = 1: samples may exceed the bit depth (or the range of RemoteFX samples); then arithmetic overflow may panic (the engine follows the wrapped value, as a
/// build without overflow checks does), stray accesses are excluded all the same
pub fn safe() {
    let c = start();
    if param(P_X) == 1 {
        unsafe { vp_panic_ok(2) };
        c.src_any();
    } else if c.cv.src.kind == I16YUV {
        rdp_samples(&c);
    } else {
        let bits = if c.cv.src.bits == 16 && param(P_DEPTH) != 0 { param(P_DEPTH) as u32 } else { c.cv.src.bits };
        c.src_valid(bits);
    }
    c.dst_any();
    let ok = c.call();
    check(ok, 1);
    c.out_dst();
    reach(1);
}
/// 13 bit samples: -4096 .. 4095
pub fn rdp_samples(c: &Ctx) {
    for i in 0..3 {
        let p = &c.s[i];
        unsafe {
            vp_sym16(p.p as *mut u16, p.len, 13, i as u32 + 1);
            let q = p.p as *mut i16;
            for k in 0..p.len {
                *q.add(k) -= 4096;
            }
        }
    }
}

/// the same pixels in other row layouts give the same pixels; nothing but the pixels is written.
/// P_X, P_X+1: row padding of the second source and destination
pub fn keep() {
    let c = start();
    let mut e = Ctx { cv: c.cv, w: c.w, h: c.h, s: c.s, d: c.d };
    let (ns, nd) = (c.cv.src.planes.len(), c.cv.dst.planes.len());
    let fill = |p: &Plane, bits: u32, tag: u32| {
        if p.es == 2 && bits < 16 && c.cv.src.kind == YUV {
            unsafe { vp_sym16(p.p as *mut u16, p.len, bits, tag) }
        } else {
            sym_plane(p, tag)
        }
    };
    c.src_valid(c.cv.src.bits);
    for i in 0..ns {
        let p = c.s[i];
        let stride = p.row + skew(param(P_X) as usize, i);
        let len = stride * p.rows;
        e.s[i] = Plane { p: unsafe { vp_alloc(len * p.es, p.es) }, len, stride, ..p };
        fill(&e.s[i], c.cv.src.bits, 21 + i as u32);
        for y in 0..p.rows {
            cp(unsafe { e.s[i].p.add(y * stride * p.es) }, unsafe { p.p.add(y * p.stride * p.es) }, p.row * p.es);
        }
    }
    let mut old = c.d;
    for i in 0..nd {
        let p = c.d[i];
        let stride = p.row + skew(param(P_X + 1) as usize, i);
        let len = stride * p.rows;
        e.d[i] = Plane { p: unsafe { vp_alloc(len * p.es, p.es) }, len, stride, ..p };
        sym_plane(&e.d[i], 31 + i as u32);
        sym_plane(&p, 11 + i as u32);
        old[i].p = unsafe { vp_alloc(p.len * p.es, p.es) };
        cp(old[i].p, p.p, p.len * p.es);
    }
    check(c.call(), 1);
    check(e.call(), 2);
    c.out_dst();
    for i in 0..nd {
        let (p, q, o) = (&c.d[i], &e.d[i], &old[i]);
        for y in 0..p.rows {
            let a = unsafe { p.p.add(y * p.stride * p.es) };
            same(a, unsafe { q.p.add(y * q.stride * q.es) }, p.row * p.es, 3);
            let end = if y + 1 == p.rows { p.len } else { (y + 1) * p.stride };
            let from = y * p.stride + p.row;
            if end > from {
                same(unsafe { p.p.add(from * p.es) }, unsafe { o.p.add(from * p.es) }, (end - from) * p.es, 4);
            }
        }
    }
    reach(1);
}

/// buffers or strides too small for the image, and empty images, are rejected with an error.
/// P_X: bits of the dimensions; P_X+1: 1 = only the source is bad, 2 = only the destination
pub fn reject() {
    let cv = conv();
    // P_X: bits of the dimensions, P_X+1: they are multiples of 2^k (so that products exceed 32 bits)
    let (n, k) = (param(P_X), param(P_X + 1));
    let top = ((1u64 << n) - 1) as u32;
    let big = if k == 0 { top } else { (1u32 << (2 * n + k)) - 1 };
    let (w, h) = unsafe { (vp_u32(0, top, 1) << k, vp_u32(0, top, 2) << k) };
    let rot = param(P_X + 9) == 1 && param(P_GEO) != 1;
    let (dw, dh) = if rot { (h, w) } else { (w, h) };
    let mut c = Ctx { cv, w, h, s: [NOPLANE; 4], d: [NOPLANE; 4] };
    let mut ok = w > 0 && h > 0;
    let plane = |ps: &PlaneSpec, w: u32, h: u32, tag: u32, ok: &mut bool| {
        let row = up(w as usize, ps.hs) * ps.mult;
        let rows = up(h as usize, ps.vs);
        let (stride, len) = unsafe { ((vp_u32(0, top, tag) << k) as usize, (vp_u32(0, big, tag + 1) as usize) << k) };
        let fits = if h == 0 { true } else { stride >= row && len >= stride * (rows - 1) + row };
        *ok &= fits;
        // never dereferenced on the rejecting path
        Plane { p: unsafe { vp_alloc(64, ps.es) }, len, stride, row, rows, es: ps.es }
    };
    for (i, ps) in cv.src.planes.iter().enumerate() {
        c.s[i] = plane(ps, w, h, 10 + 2 * i as u32, &mut ok);
    }
    for (i, ps) in cv.dst.planes.iter().enumerate() {
        c.d[i] = plane(ps, dw, dh, 20 + 2 * i as u32, &mut ok);
    }
    assume(!ok);
    check(!c.call(), 1);
    reach(1);
}

fn put(im: &Img, ps: &[Plane; 4], c: usize, x: usize, y: usize, v: i64) {
    let k = &im.comps[c];
    let p = &ps[k.p];
    let o = (y >> k.vs) * p.stride + (x >> k.hs) * k.step + k.off;
    unsafe {
        if p.es == 1 {
            *p.p.add(o) = v as u8;
        } else {
            let mut v = v as u16;
            if im.msb {
                v <<= 16 - im.bits;
            }
            if im.be {
                v = v.swap_bytes();
            }
            *(p.p as *mut u16).add(o) = v;
        }
    }
}

/// two converters that differ only in how samples are laid out agree on every sample. P_X: tolerance in codes
pub fn pair() {
    let cv = conv();
    let cv2 = cv.twin.unwrap();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    let e = Ctx::new(cv2, w, h, w, h);
    c.src_valid(cv.src.bits);
    e.src_valid(cv2.src.bits);
    for k in 0..cv2.src.nc.min(cv.src.nc) {
        let q = &cv2.src.comps[k];
        for y in (0..h as usize).step_by(1 << q.vs) {
            for x in (0..w as usize).step_by(1 << q.hs) {
                put(&cv2.src, &e.s, k, x, y, c.get_s(k, x, y));
            }
        }
    }
    c.dst_any();
    e.dst_any();
    check(c.call(), 1);
    check(e.call(), 1);
    c.out_dst();
    let tol = param(P_X);
    for k in 0..cv2.dst.nc.min(cv.dst.nc) {
        let q = &cv2.dst.comps[k];
        for y in (0..h as usize).step_by(1 << q.vs) {
            for x in (0..w as usize).step_by(1 << q.hs) {
                let (a, b) = (c.get_d(k, x, y), e.get_d(k, x, y));
                if tol == 0 {
                    check(a == b, 2 + k as u32);
                } else {
                    between(a, b - tol, b + tol, 2 + k as u32);
                }
            }
        }
    }
    reach(1);
}

/// two builds of one converter write the same elements
pub fn builds() {
    let c = start();
    let mut e = Ctx { cv: c.cv.twin.unwrap(), w: c.w, h: c.h, s: c.s, d: c.d };
    c.src_valid(if c.cv.src.bits == 16 && param(P_DEPTH) != 0 { param(P_DEPTH) as u32 } else { c.cv.src.bits });
    let copy = |p: &Plane| {
        let q = Plane { p: unsafe { vp_alloc(p.len * p.es, p.es) }, ..*p };
        cp(q.p, p.p, p.len * p.es);
        q
    };
    for i in 0..c.cv.src.planes.len() {
        e.s[i] = copy(&c.s[i]);
    }
    for i in 0..c.cv.dst.planes.len() {
        sym_plane(&c.d[i], 11 + i as u32);
        e.d[i] = copy(&c.d[i]);
    }
    check(c.call(), 1);
    check(e.call(), 2);
    e.out_dst();
    for i in 0..c.cv.dst.planes.len() {
        same(c.d[i].p, e.d[i].p, c.d[i].len * c.d[i].es, 3);
    }
    reach(1);
}

/// neutral chroma decodes to gray
pub fn gray_dec() {
    let cv = conv();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    let bits = if cv.src.bits == 16 && param(P_DEPTH) != 0 { param(P_DEPTH) as u32 } else { cv.src.bits };
    c.src_valid(bits);
    let bc = 1i64 << (bits - 1);
    for k in 1..3 {
        let q = &cv.src.comps[k];
        for y in (0..h as usize).step_by(1 << q.vs) {
            for x in (0..w as usize).step_by(1 << q.hs) {
                put(&cv.src, &c.s, k, x, y, bc);
            }
        }
    }
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
    for y in 0..h as usize {
        for x in 0..w as usize {
            let (r, g, b) = (c.get_d(0, x, y), c.get_d(1, x, y), c.get_d(2, x, y));
            check(r == g, 2);
            check(g == b, 3);
        }
    }
    reach(1);
}
/// gray encodes to neutral chroma (P_X: tolerance in codes, 1/100)
pub fn gray_enc() {
    let cv = conv();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    c.src_valid(cv.src.bits);
    for y in 0..h as usize {
        for x in 0..w as usize {
            let v = c.get_s(0, x, y);
            put(&cv.src, &c.s, 1, x, y, v);
            put(&cv.src, &c.s, 2, x, y, v);
        }
    }
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
    let bc = 1i64 << (cv.dst.bits - 1);
    let t = param(P_X);
    for k in 1..3 {
        let q = &cv.dst.comps[k];
        for y in (0..h as usize).step_by(1 << q.vs) {
            for x in (0..w as usize).step_by(1 << q.hs) {
                between(c.get_d(k, x, y), bc - t, bc + t, 1 + k as u32);
            }
        }
    }
    reach(1);
}
/// limited range encoders stay within the legal range. P_X: slack in codes
pub fn legal() {
    let cv = conv();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    c.src_valid(cv.src.bits);
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
    let (by, sy, bc, sc) = span(cv.dst.bits);
    let t = param(P_X);
    let n = if cv.dst.kind == GRAY { 1 } else { 3 };
    for k in 0..n {
        let (lo, hi) = if k == 0 { (by, by + sy) } else { (bc - sc / 2, bc + sc / 2) };
        let q = &cv.dst.comps[k];
        for y in (0..h as usize).step_by(1 << q.vs) {
            for x in (0..w as usize).step_by(1 << q.hs) {
                between(c.get_d(k, x, y), lo - t, hi + t, 2 + k as u32);
            }
        }
    }
    reach(1);
}
/// premultiplied output is the straight output times alpha / 255. P_X: tolerance in 1/100 code
pub fn premul() {
    let cv = conv();
    let (w, h) = (param(P_W) as u32, param(P_H) as u32);
    let c = Ctx::new(cv, w, h, w, h);
    let mut e = Ctx { cv, w, h, s: c.s, d: c.d };
    e.d[0] = Plane { p: unsafe { vp_alloc(c.d[0].len * c.d[0].es, c.d[0].es) }, ..c.d[0] };
    c.src_valid(cv.src.bits);
    c.dst_any();
    check(c.call(), 1);
    c.out_dst();
    sym_plane(&e.d[0], 30);
    unsafe { STRAIGHT = true };
    check(e.call(), 1);
    let t = param(P_X) * 255 / 100;
    for y in 0..h as usize {
        for x in 0..w as usize {
            let a = c.get_s(3, x, y);
            for i in 0..3 {
                let p = a * e.get_d(i, x, y);
                between(c.get_d(i, x, y) * 255, p - t, p + t, 2 + i as u32);
            }
            if cv.dst.nc == 4 {
                check(c.get_d(3, x, y) == a, 5);
            }
        }
    }
    reach(1);
}
