//! Uniform view of every converter of the crate: planes, sample layout, and the call itself.
use crate::vp::*;
use yuv::*;

#[derive(Clone, Copy)]
pub struct PlaneSpec {
    /// elements per sample column
    pub mult: usize,
    pub hs: u32,
    pub vs: u32,
    /// bytes per element
    pub es: usize,
}
#[derive(Clone, Copy)]
pub struct Comp {
    pub p: usize,
    pub step: usize,
    pub off: usize,
    pub hs: u32,
    pub vs: u32,
}
pub const YUV: u8 = 0;
pub const RGB: u8 = 1;
pub const F16: u8 = 2;
pub const P30: u8 = 3;
pub const I16YUV: u8 = 4;
pub const GRAY: u8 = 5;
pub const GRAYA: u8 = 6;
pub const RAW: u8 = 7;
#[derive(Clone, Copy)]
pub struct Img {
    pub kind: u8,
    pub planes: &'static [PlaneSpec],
    pub comps: [Comp; 4],
    pub nc: usize,
    pub bits: u32,
    pub msb: bool,
    pub be: bool,
}
pub struct Conv {
    pub call: fn(&Ctx) -> bool,
    pub src: Img,
    pub dst: Img,
    pub twin: Option<&'static Conv>,
}
#[derive(Clone, Copy)]
pub struct Plane {
    pub p: *mut u8,
    /// elements
    pub len: usize,
    pub stride: usize,
    pub row: usize,
    pub rows: usize,
    pub es: usize,
}
pub const NOPLANE: Plane = Plane { p: core::ptr::null_mut(), len: 0, stride: 0, row: 0, rows: 0, es: 1 };

pub struct Ctx {
    pub cv: &'static Conv,
    pub w: u32,
    pub h: u32,
    pub s: [Plane; 4],
    pub d: [Plane; 4],
}

// job parameters
pub const P_FN: u32 = 0;
pub const P_W: u32 = 1;
pub const P_H: u32 = 2;
pub const P_RANGE: u32 = 3;
pub const P_MATRIX: u32 = 4;
pub const P_MODE: u32 = 5;
pub const P_ORDER: u32 = 6;
pub const P_PREMUL: u32 = 7;
pub const P_DEPTH: u32 = 8;
pub const P_GAMMA: u32 = 9;
pub const P_GEO: u32 = 10;
pub const P_SPAD: u32 = 11;
pub const P_DPAD: u32 = 12;
pub const P_STAIL: u32 = 13;
pub const P_DTAIL: u32 = 14;
/// Custom matrix coefficients, in 1/10000
pub const P_KR: u32 = 15;
pub const P_KB: u32 = 16;
/// first property specific parameter
pub const P_X: u32 = 17;
/// set for the second, straight, call of a comparison
pub static mut STRAIGHT: bool = false;

pub fn up(v: usize, s: u32) -> usize {
    (v + (1 << s) - 1) >> s
}

impl Ctx {
    pub fn src<T>(&self, i: usize) -> &'static [T] {
        let p = &self.s[i];
        debug_assert_eq!(core::mem::size_of::<T>(), p.es);
        unsafe { core::slice::from_raw_parts(p.p as *const T, p.len) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn dst<T>(&self, i: usize) -> &'static mut [T] {
        let p = &self.d[i];
        debug_assert_eq!(core::mem::size_of::<T>(), p.es);
        unsafe { core::slice::from_raw_parts_mut(p.p as *mut T, p.len) }
    }
    pub fn ss(&self, i: usize) -> u32 {
        self.s[i].stride as u32
    }
    pub fn ds(&self, i: usize) -> u32 {
        self.d[i].stride as u32
    }
    pub fn premul(&self) -> bool {
        param(P_PREMUL) != 0 && !unsafe { STRAIGHT }
    }
    pub fn bit_depth(&self) -> usize {
        param(P_DEPTH) as usize
    }
    pub fn call(&self) -> bool {
        (self.cv.call)(self)
    }
    /// allocates source and destination planes; dw, dh: size of the destination image.
    /// tail < 0: the last row has no padding; tail >= 0: that many extra elements after the last full row
    pub fn new(cv: &'static Conv, w: u32, h: u32, dw: u32, dh: u32) -> Ctx {
        let mut c = Ctx { cv, w, h, s: [NOPLANE; 4], d: [NOPLANE; 4] };
        c.alloc_src();
        c.alloc_dst(dw, dh, param(P_DPAD) as usize, param(P_DTAIL));
        c
    }
    pub fn alloc_src(&mut self) {
        for (i, ps) in self.cv.src.planes.iter().enumerate() {
            self.s[i] = alloc(ps, self.w as usize, self.h as usize, skew(param(P_SPAD) as usize, i), param(P_STAIL));
        }
    }
    pub fn alloc_dst(&mut self, dw: u32, dh: u32, pad: usize, tail: i64) {
        for (i, ps) in self.cv.dst.planes.iter().enumerate() {
            self.d[i] = alloc(ps, dw as usize, dh as usize, skew(pad, i), tail);
        }
    }
    /// every source element arbitrary
    pub fn src_any(&self) {
        for i in 0..self.cv.src.planes.len() {
            sym_plane(&self.s[i], i as u32 + 1);
        }
    }
    pub fn dst_any(&self) {
        for i in 0..self.cv.dst.planes.len() {
            sym_plane(&self.d[i], i as u32 + 11);
        }
    }
    /// every source sample an arbitrary value of the format's bit depth, stored as the format says
    pub fn src_valid(&self, bits: u32) {
        let im = &self.cv.src;
        for i in 0..im.planes.len() {
            let p = &self.s[i];
            if p.es == 1 {
                sym_plane(p, i as u32 + 1);
            } else {
                let q = p.p as *mut u16;
                unsafe {
                    vp_sym16(q, p.len, bits, i as u32 + 1);
                    if im.msb {
                        for k in 0..p.len {
                            *q.add(k) <<= 16 - bits;
                        }
                    }
                    if im.be {
                        for k in 0..p.len {
                            *q.add(k) = (*q.add(k)).swap_bytes();
                        }
                    }
                }
            }
        }
    }
    pub fn out_dst(&self) {
        for i in 0..self.cv.dst.planes.len() {
            let p = &self.d[i];
            unsafe { vp_out(p.p, p.len * p.es, i as u32 + 1) }
        }
    }
    pub fn get_s(&self, c: usize, x: usize, y: usize) -> i64 {
        get(&self.cv.src, &self.s, c, x, y)
    }
    /// 8-bit samples only
    pub fn put_s(&self, c: usize, x: usize, y: usize, v: i64) {
        let k = &self.cv.src.comps[c];
        let p = &self.s[k.p];
        unsafe { *p.p.add((y >> k.vs) * p.stride + (x >> k.hs) * k.step + k.off) = v as u8 }
    }
    pub fn get_d(&self, c: usize, x: usize, y: usize) -> i64 {
        if self.cv.dst.kind == F16 {
            // codes of the source's depth
            let b = self.cv.src.bits;
            let n = if b == 16 && param(P_DEPTH) != 0 { param(P_DEPTH) as u32 } else { b };
            return unsafe { vp_f16int(get(&self.cv.dst, &self.d, c, x, y) as u16, (1 << n) - 1, 600, 90) };
        }
        get(&self.cv.dst, &self.d, c, x, y)
    }
}
/// padded planes of one image get different strides
pub fn skew(pad: usize, i: usize) -> usize {
    pad + if pad > 0 { [0, 2, 1, 3][i] } else { 0 }
}
pub fn alloc(ps: &PlaneSpec, w: usize, h: usize, pad: usize, tail: i64) -> Plane {
    let row = up(w, ps.hs) * ps.mult;
    let rows = up(h, ps.vs);
    let stride = row + pad;
    let len = if tail < 0 { stride * (rows - 1) + row } else { stride * rows + tail as usize };
    Plane { p: unsafe { vp_alloc(len * ps.es, ps.es) }, len, stride, row, rows, es: ps.es }
}
pub fn sym_plane(p: &Plane, tag: u32) {
    unsafe {
        if p.es == 1 {
            vp_sym(p.p, p.len, tag)
        } else {
            vp_sym16(p.p as *mut u16, p.len, 16, tag)
        }
    }
}
/// logical value of component c of the pixel (x, y)
pub fn get(im: &Img, ps: &[Plane; 4], c: usize, x: usize, y: usize) -> i64 {
    let k = &im.comps[c];
    let p = &ps[k.p];
    if im.kind == P30 {
        let o = y * p.stride + x * 4;
        let b = |i: usize| unsafe { *p.p.add(o + i) as u32 };
        let v = if param(P_ORDER) == 0 {
            b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24
        } else {
            b(3) | b(2) << 8 | b(1) << 16 | b(0) << 24
        };
        let m = if c == 3 { 3 } else { 1023 };
        return ((v >> k.off) & m) as i64;
    }
    let o = (y >> k.vs) * p.stride + (x >> k.hs) * k.step + k.off;
    unsafe {
        if p.es == 1 {
            *p.p.add(o) as i64
        } else if im.kind == I16YUV {
            *(p.p as *const i16).add(o) as i64
        } else {
            let mut v = *(p.p as *const u16).add(o);
            if im.be {
                v = v.swap_bytes();
            }
            if im.msb {
                v >>= 16 - im.bits;
            }
            v as i64
        }
    }
}
pub fn conv() -> &'static Conv {
    &crate::gen::TABLE[param(P_FN) as usize]
}
/// (kr, kb) of the matrix selected by the job
pub fn kr_kb() -> (f64, f64) {
    match param(P_MATRIX) {
        0 => (0.299, 0.114),
        1 => (0.2126, 0.0722),
        2 => (0.2627, 0.0593),
        3 => (0.212, 0.087),
        4 => (0.222, 0.0713),
        5 => (0.30, 0.11),
        _ => (param(P_KR) as f64 / 10000.0, param(P_KB) as f64 / 10000.0),
    }
}

/// the parameters of the job as the crate's types
macro_rules! kinds {
    ($y:ident, $t:ty) => {
        impl $t {
            pub fn range(&self) -> $y::YuvRange {
                if param(P_RANGE) == 0 {
                    $y::YuvRange::Limited
                } else {
                    $y::YuvRange::Full
                }
            }
            pub fn matrix(&self) -> $y::YuvStandardMatrix {
                match param(P_MATRIX) {
                    0 => $y::YuvStandardMatrix::Bt601,
                    1 => $y::YuvStandardMatrix::Bt709,
                    2 => $y::YuvStandardMatrix::Bt2020,
                    3 => $y::YuvStandardMatrix::Smpte240,
                    4 => $y::YuvStandardMatrix::Bt470_6,
                    5 => $y::YuvStandardMatrix::Fcc,
                    _ => $y::YuvStandardMatrix::Custom(param(P_KR) as f32 / 10000.0, param(P_KB) as f32 / 10000.0),
                }
            }
            pub fn mode(&self) -> $y::YuvConversionMode {
                match param(P_MODE) {
                    1 => $y::YuvConversionMode::Fast,
                    2 => $y::YuvConversionMode::Professional,
                    _ => $y::YuvConversionMode::Balanced,
                }
            }
            pub fn order(&self) -> $y::Rgb30ByteOrder {
                if param(P_ORDER) == 0 {
                    $y::Rgb30ByteOrder::Host
                } else {
                    $y::Rgb30ByteOrder::Network
                }
            }
            pub fn gamma(&self) -> $y::SharpYuvGammaTransfer {
                match param(P_GAMMA) {
                    0 => $y::SharpYuvGammaTransfer::Srgb,
                    1 => $y::SharpYuvGammaTransfer::Rec709,
                    2 => $y::SharpYuvGammaTransfer::Gamma2p2,
                    _ => $y::SharpYuvGammaTransfer::Gamma2p8,
                }
            }
            pub fn rotation(&self) -> $y::RotationMode {
                match param(P_GEO) {
                    0 => $y::RotationMode::Rotate90,
                    1 => $y::RotationMode::Rotate180,
                    _ => $y::RotationMode::Rotate270,
                }
            }
            pub fn mirror(&self) -> $y::MirrorMode {
                if param(P_GEO) == 0 {
                    $y::MirrorMode::Vertical
                } else {
                    $y::MirrorMode::Horizontal
                }
            }
        }
    };
}
kinds!(yuv, Ctx);

/// the same for a second build of the crate
#[cfg(feature = "rayon")]
pub struct Ctx2(pub &'static Ctx);
#[cfg(feature = "rayon")]
impl core::ops::Deref for Ctx2 {
    type Target = Ctx;
    fn deref(&self) -> &Ctx {
        self.0
    }
}
#[cfg(feature = "rayon")]
kinds!(yuvr, Ctx2);
