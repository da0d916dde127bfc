//! Concrete evaluation of the floating point operations (IEEE, round to nearest even).
use crate::term::{mask, to_s, FOp};

pub fn f16_to_f32(h: u16) -> f32 {
    let s = ((h >> 15) as u32) << 31;
    let e = ((h >> 10) & 31) as u32;
    let m = (h & 1023) as u32;
    let bits = if e == 0 {
        if m == 0 {
            s
        } else {
            let v = m as f32 * (1.0 / 16777216.0);
            return if s != 0 { -v } else { v };
        }
    } else if e == 31 {
        s | 0x7f80_0000 | (m << 13)
    } else {
        s | ((e + 112) << 23) | (m << 13)
    };
    f32::from_bits(bits)
}

/// double to half, round to nearest even (exact: no double rounding from f32 or f64 sources)
pub fn f64_to_f16(x: f64) -> u16 {
    let b = x.to_bits();
    let s = ((b >> 63) as u16) << 15;
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1u64 << 52) - 1);
    if e == 0x7ff {
        return s | 0x7c00 | if m != 0 { 0x200 | ((m >> 42) as u16 & 0x1ff) } else { 0 };
    }
    if e == 0 {
        return s;
    }
    let ex = e - 1023;
    if ex > 15 {
        return s | 0x7c00;
    }
    let full = m | (1u64 << 52);
    // value = full * 2^(ex-52); half unit: normal 2^(ex-10), subnormal 2^-24
    let unit = if ex < -14 { -24 } else { ex - 10 };
    let sh = unit - (ex - 52);
    if sh >= 64 {
        return s;
    }
    let q = full >> sh;
    let rem = full & ((1u64 << sh) - 1);
    let half = 1u64 << (sh - 1);
    let q = if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q };
    let r = if ex < -14 { q } else { (((ex + 15) as u64) << 10) + (q - 1024) };
    s | (r as u16)
}

fn to64(w: u16, v: u128) -> f64 {
    match w {
        16 => f16_to_f32(v as u16) as f64,
        32 => f32::from_bits(v as u32) as f64,
        _ => f64::from_bits(v as u64),
    }
}

fn from64(w: u16, v: f64) -> u128 {
    match w {
        16 => f64_to_f16(v) as u128,
        32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    }
}

pub fn eval(o: FOp, w: u16, a: &[(u16, u128)]) -> Option<u128> {
    let aw = a[0].0;
    if !matches!(o, FOp::FromU | FOp::FromS) && !matches!(aw, 16 | 32 | 64) {
        return None;
    }
    let b = |x: bool| Some(x as u128);
    match o {
        FOp::Add | FOp::Sub | FOp::Mul | FOp::Div => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a[0].1 as u32), f32::from_bits(a[1].1 as u32));
                let r = match o {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    _ => x / y,
                };
                Some(r.to_bits() as u128)
            } else if w == 64 {
                let (x, y) = (f64::from_bits(a[0].1 as u64), f64::from_bits(a[1].1 as u64));
                let r = match o {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    _ => x / y,
                };
                Some(r.to_bits() as u128)
            } else {
                let (x, y) = (to64(16, a[0].1), to64(16, a[1].1));
                let r = match o {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    _ => x / y,
                };
                Some(f64_to_f16(r) as u128)
            }
        }
        FOp::Oeq => b(to64(aw, a[0].1) == to64(aw, a[1].1)),
        FOp::Olt => b(to64(aw, a[0].1) < to64(aw, a[1].1)),
        FOp::Ole => b(to64(aw, a[0].1) <= to64(aw, a[1].1)),
        FOp::Uno => b(to64(aw, a[0].1).is_nan() || to64(aw, a[1].1).is_nan()),
        FOp::Conv => Some(from64(w, to64(aw, a[0].1))),
        FOp::FromU => match w {
            32 => Some((a[0].1 as f32).to_bits() as u128),
            64 => Some((a[0].1 as f64).to_bits() as u128),
            _ => {
                if a[0].1 >> 52 != 0 {
                    return None;
                }
                Some(f64_to_f16(a[0].1 as f64) as u128)
            }
        },
        FOp::FromS => {
            let s = to_s(a[0].1, aw);
            match w {
                32 => Some((s as f32).to_bits() as u128),
                64 => Some((s as f64).to_bits() as u128),
                _ => Some(f64_to_f16(s as f64) as u128),
            }
        }
        FOp::RoundAway => Some(from64(w, to64(aw, a[0].1).round())),
        FOp::RoundEven => Some(from64(w, to64(aw, a[0].1).round_ties_even())),
        FOp::Floor => Some(from64(w, to64(aw, a[0].1).floor())),
        FOp::Ceil => Some(from64(w, to64(aw, a[0].1).ceil())),
        FOp::Trunc => Some(from64(w, to64(aw, a[0].1).trunc())),
        FOp::ToUSat => {
            let v = to64(aw, a[0].1) as u128;
            Some(v.min(mask(w)))
        }
        FOp::ToSSat => {
            let v = to64(aw, a[0].1) as i128;
            let hi = (mask(w) >> 1) as i128;
            Some((v.max(-hi - 1).min(hi) as u128) & mask(w))
        }
    }
}
