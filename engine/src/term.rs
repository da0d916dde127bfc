//! Hash-consed bit-vector terms with normalisation and interval tracking.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    #[inline]
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop {
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    UMin,
    UMax,
    SMin,
    SMax,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Oeq,
    Olt,
    Ole,
    Uno,
    /// float resize: source width from the argument
    Conv,
    /// unsigned / signed int to float
    FromU,
    FromS,
    /// round to integral: ties away / ties even / floor / ceil / trunc
    RoundAway,
    RoundEven,
    Floor,
    Ceil,
    Trunc,
    /// to int, saturating (rust semantics)
    ToUSat,
    ToSSat,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Lin(u128, Box<[(u128, T)]>),
    B(Bop, T, T),
    Concat(Box<[T]>),
    Extract(T, u16),
    SExt(T),
    Ite(T, T, T),
    F(FOp, Box<[T]>),
}

#[derive(Clone)]
pub struct Node {
    pub w: u16,
    pub op: Op,
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
    pub shape: u64,
}

pub struct Terms {
    pub n: Vec<Node>,
    map: FxMap<(u16, Op), T>,
    pub nvars: u32,
    /// variable index -> term
    pub vars: Vec<T>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn to_s(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn hash_of<X: Hash>(x: &X) -> u64 {
    let mut h = Fx::default();
    x.hash(&mut h);
    h.finish()
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            n: Vec::with_capacity(1 << 16),
            map: FxMap::default(),
            nvars: 0,
            vars: vec![],
        };
        for i in 0..256u128 {
            let id = t.c(8, i);
            debug_assert_eq!(id, i as u32);
        }
        t
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.n[t as usize].w
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.n[t as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    #[inline]
    pub fn op(&self, t: T) -> &Op {
        &self.n[t as usize].op
    }

    fn intern(&mut self, w: u16, op: Op) -> T {
        if let Some(&t) = self.map.get(&(w, op.clone())) {
            return t;
        }
        let (ulo, uhi, slo, shi) = self.interval(w, &op);
        let shape = self.shape_of(w, &op);
        let id = self.n.len() as T;
        self.n.push(Node { w, op: op.clone(), ulo, uhi, slo, shi, shape });
        self.map.insert((w, op), id);
        id
    }

    fn shape_of(&self, w: u16, op: &Op) -> u64 {
        let sh = |t: T| self.n[t as usize].shape;
        match op {
            Op::Const(v) => hash_of(&(1u8, w, *v)),
            Op::Var(_) => hash_of(&(2u8, w)),
            Op::Lin(c, ts) => {
                let mut h = hash_of(&(3u8, w, *c));
                for (k, t) in ts.iter() {
                    h = hash_of(&(h, *k, sh(*t)));
                }
                h
            }
            Op::B(o, a, b) => hash_of(&(4u8, w, *o, sh(*a), sh(*b))),
            Op::Concat(p) => {
                let mut h = hash_of(&(5u8, w));
                for t in p.iter() {
                    h = hash_of(&(h, sh(*t)));
                }
                h
            }
            Op::Extract(t, lo) => hash_of(&(6u8, w, *lo, sh(*t))),
            Op::SExt(t) => hash_of(&(7u8, w, sh(*t))),
            Op::Ite(c, a, b) => hash_of(&(8u8, w, sh(*c), sh(*a), sh(*b))),
            Op::F(o, p) => {
                let mut h = hash_of(&(9u8, w, *o));
                for t in p.iter() {
                    h = hash_of(&(h, sh(*t)));
                }
                h
            }
        }
    }

    fn full(w: u16) -> (u128, u128, i128, i128) {
        if w >= 128 {
            (0, u128::MAX, i128::MIN, i128::MAX)
        } else {
            (0, mask(w), -(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        }
    }
    fn from_u(w: u16, lo: u128, hi: u128) -> (u128, u128, i128, i128) {
        let f = Self::full(w);
        let half = 1u128 << (w - 1);
        if hi < half {
            (lo, hi, lo as i128, hi as i128)
        } else if lo >= half {
            (lo, hi, to_s(lo, w), to_s(hi, w))
        } else {
            (lo, hi, f.2, f.3)
        }
    }
    fn from_s(w: u16, lo: i128, hi: i128) -> (u128, u128, i128, i128) {
        let f = Self::full(w);
        if lo >= 0 {
            (lo as u128, hi as u128, lo, hi)
        } else if hi < 0 {
            ((lo as u128) & mask(w), (hi as u128) & mask(w), lo, hi)
        } else {
            (f.0, f.1, lo, hi)
        }
    }
    /// Integer range of the linear form with signed coefficients; None when it overflows our i128 budget.
    pub fn lin_range(&self, w: u16, c: i128, ts: &[(u128, T)]) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (c, c);
        for &(k, t) in ts {
            let k = to_s(k, w);
            let (a, b) = self.int_range(t);
            let x = k.checked_mul(a)?;
            let y = k.checked_mul(b)?;
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// true if the atom is read as unsigned in integer readings of linear forms
    pub fn reads_unsigned(&self, t: T) -> bool {
        let n = &self.n[t as usize];
        if n.w >= 100 {
            return true;
        }
        let us = n.uhi - n.ulo;
        let ss = (n.shi - n.slo) as u128;
        us <= ss
    }
    pub fn int_range(&self, t: T) -> (i128, i128) {
        let n = &self.n[t as usize];
        if n.w >= 100 {
            return (i128::MIN / 4, i128::MAX / 4);
        }
        if self.reads_unsigned(t) {
            (n.ulo as i128, n.uhi as i128)
        } else {
            (n.slo, n.shi)
        }
    }

    fn interval(&self, w: u16, op: &Op) -> (u128, u128, i128, i128) {
        if w > 100 {
            if let Op::Const(v) = op {
                return (*v, *v, *v as i128, *v as i128);
            }
            return Self::full(w);
        }
        let f = Self::full(w);
        let nn = |t: T| &self.n[t as usize];
        match op {
            Op::Const(v) => (*v, *v, to_s(*v, w), to_s(*v, w)),
            Op::Var(_) => f,
            Op::Lin(c, ts) => {
                let m = 1i128 << w;
                let cs = to_s(*c, w);
                for c in [cs, *c as i128] {
                    if let Some((lo, hi)) = self.lin_range(w, c, ts) {
                        if lo >= 0 && hi < m {
                            return Self::from_u(w, lo as u128, hi as u128);
                        }
                        if lo >= -(m / 2) && hi < m / 2 {
                            return Self::from_s(w, lo, hi);
                        }
                    }
                }
                f
            }
            Op::B(o, a, b) => {
                let (a, b) = (nn(*a), nn(*b));
                match o {
                    Bop::Mul => {
                        if a.w <= 60 {
                            let hi = a.uhi * b.uhi;
                            if hi <= mask(w) {
                                return Self::from_u(w, a.ulo * b.ulo, hi);
                            }
                            let c = [a.slo * b.slo, a.slo * b.shi, a.shi * b.slo, a.shi * b.shi];
                            let lo = *c.iter().min().unwrap();
                            let hi = *c.iter().max().unwrap();
                            if lo >= f.2 && hi <= f.3 {
                                return Self::from_s(w, lo, hi);
                            }
                        }
                        f
                    }
                    Bop::UDiv => {
                        let d = b.ulo.max(1);
                        if b.ulo == 0 {
                            f
                        } else {
                            Self::from_u(w, a.ulo / b.uhi.max(1), a.uhi / d)
                        }
                    }
                    Bop::URem => {
                        if b.ulo == 0 {
                            f
                        } else {
                            Self::from_u(w, 0, a.uhi.min(b.uhi - 1))
                        }
                    }
                    Bop::And => Self::from_u(w, 0, a.uhi.min(b.uhi)),
                    Bop::Or | Bop::Xor => {
                        let m = a.uhi | b.uhi;
                        let bits = 128 - m.leading_zeros();
                        let hi = if bits == 0 { 0 } else { mask(bits as u16) };
                        let lo = if *o == Bop::Or { a.ulo.max(b.ulo) } else { 0 };
                        Self::from_u(w, lo, hi.min(mask(w)))
                    }
                    Bop::LShr => Self::from_u(w, 0, a.uhi),
                    Bop::AShr => {
                        if a.slo >= 0 {
                            Self::from_s(w, 0, a.shi)
                        } else {
                            Self::from_s(w, a.slo.min(0), a.shi.max(0).max(if a.shi < 0 { -1 } else { 0 }))
                        }
                    }
                    Bop::UMin => Self::from_u(w, a.ulo.min(b.ulo), a.uhi.min(b.uhi)),
                    Bop::UMax => Self::from_u(w, a.ulo.max(b.ulo), a.uhi.max(b.uhi)),
                    Bop::SMin => Self::from_s(w, a.slo.min(b.slo), a.shi.min(b.shi)),
                    Bop::SMax => Self::from_s(w, a.slo.max(b.slo), a.shi.max(b.shi)),
                    _ => f,
                }
            }
            Op::Concat(p) => {
                let (mut lo, mut hi) = (0u128, 0u128);
                for &t in p.iter() {
                    let n = nn(t);
                    lo = (lo << n.w) | n.ulo;
                    hi = (hi << n.w) | n.uhi;
                }
                Self::from_u(w, lo, hi)
            }
            Op::Extract(t, lo) => {
                let n = nn(*t);
                if n.w > 100 {
                    return f;
                }
                let a = n.ulo >> lo;
                let b = n.uhi >> lo;
                if (a >> w) == (b >> w) {
                    return Self::from_u(w, a & mask(w), b & mask(w));
                }
                let a = n.slo >> lo;
                let b = n.shi >> lo;
                if a >= f.2 && b <= f.3 {
                    return Self::from_s(w, a, b);
                }
                f
            }
            Op::SExt(t) => {
                let n = nn(*t);
                Self::from_s(w, n.slo, n.shi)
            }
            Op::Ite(_, a, b) => {
                let (a, b) = (nn(*a), nn(*b));
                (a.ulo.min(b.ulo), a.uhi.max(b.uhi), a.slo.min(b.slo), a.shi.max(b.shi))
            }
            Op::F(o, p) => match o {
                FOp::ToUSat | FOp::ToSSat => {
                    let _ = p;
                    f
                }
                _ => f,
            },
        }
    }

    // ---------------------------------------------------------------- constructors
    pub fn c(&mut self, w: u16, v: u128) -> T {
        self.intern(w, Op::Const(v & mask(w)))
    }
    pub fn cs(&mut self, w: u16, v: i128) -> T {
        self.c(w, v as u128)
    }
    pub fn tru(&mut self) -> T {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.c(1, 0)
    }
    pub fn var(&mut self, w: u16) -> T {
        let v = self.nvars;
        self.nvars += 1;
        let t = self.intern(w, Op::Var(v));
        self.vars.push(t);
        t
    }

    /// Build a linear form from raw parts (may contain Lin atoms, duplicates, zero coefs).
    pub fn lin(&mut self, w: u16, c: u128, parts: &[(u128, T)]) -> T {
        debug_assert!(w > 1);
        let m = mask(w);
        let mut c = c;
        let mut acc: Vec<(u128, T)> = Vec::with_capacity(parts.len() + 4);
        let mut stack: Vec<(u128, T)> = parts.to_vec();
        while let Some((k, t)) = stack.pop() {
            let k = k & m;
            if k == 0 {
                continue;
            }
            match &self.n[t as usize].op {
                Op::Const(v) => c = c.wrapping_add(k.wrapping_mul(*v)),
                Op::Lin(c2, ts) => {
                    // Flatten; keep k*(multi-term) as an atom so that products are not multiplied out.
                    let single = ts.len() == 1 || k == 1 || k == m;
                    if single {
                        c = c.wrapping_add(k.wrapping_mul(*c2));
                        for &(k2, t2) in ts.iter() {
                            stack.push((k.wrapping_mul(k2), t2));
                        }
                    } else {
                        // pull the constant out
                        if *c2 != 0 {
                            let ts2: Vec<(u128, T)> = ts.to_vec();
                            c = c.wrapping_add(k.wrapping_mul(*c2));
                            let inner = self.lin(w, 0, &ts2);
                            acc.push((k, inner));
                        } else {
                            acc.push((k, t));
                        }
                    }
                }
                Op::Concat(p) => {
                    let last = *p.last().unwrap();
                    if self.cv(last) == Some(0) {
                        let lw = self.w(last);
                        let rest: Vec<T> = p[..p.len() - 1].to_vec();
                        let r = self.concat(&rest);
                        // the bits above are shifted out: either extension is right
                        let r = if self.reads_unsigned(r) { self.zext(r, w) } else { self.sext(r, w) };
                        stack.push((k << lw, r));
                    } else {
                        acc.push((k, t));
                    }
                }
                _ => acc.push((k, t)),
            }
        }
        if acc.len() > 1 {
            let n = &self.n;
            acc.sort_unstable_by(|a, b| {
                (n[a.1 as usize].shape, a.1, a.0).cmp(&(n[b.1 as usize].shape, b.1, b.0))
            });
            let mut out: Vec<(u128, T)> = Vec::with_capacity(acc.len());
            for (k, t) in acc {
                if let Some(l) = out.last_mut() {
                    if l.1 == t {
                        l.0 = l.0.wrapping_add(k) & m;
                        continue;
                    }
                }
                out.push((k, t));
            }
            out.retain(|x| x.0 & m != 0);
            // order among equal shapes by coefficient so alpha-equivalent sums line up
            let n = &self.n;
            out.sort_by(|a, b| {
                (n[a.1 as usize].shape, a.0, a.1).cmp(&(n[b.1 as usize].shape, b.0, b.1))
            });
            acc = out;
        }
        let c = c & m;
        if acc.is_empty() {
            return self.c(w, c);
        }
        if acc.len() == 1 && c == 0 {
            let (k, t) = acc[0];
            if k == 1 {
                return t;
            }
            if k.is_power_of_two() {
                let s = k.trailing_zeros() as u16;
                let lowp = self.extract(t, 0, w - s);
                let z = self.c(s, 0);
                return self.concat(&[lowp, z]);
            }
        }
        self.intern(w, Op::Lin(c, acc.into_boxed_slice()))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_add(y));
        }
        if w == 1 {
            return self.bop(Bop::Xor, a, b);
        }
        self.lin(w, 0, &[(1, a), (1, b)])
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_sub(y));
        }
        if w == 1 {
            return self.bop(Bop::Xor, a, b);
        }
        self.lin(w, 0, &[(1, a), (mask(w), b)])
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return a;
        }
        self.lin(w, 0, &[(mask(w), a)])
    }
    pub fn addc(&mut self, a: T, v: i128) -> T {
        let w = self.w(a);
        if v == 0 {
            return a;
        }
        if w == 1 {
            let c = self.cs(1, v);
            return self.bop(Bop::Xor, a, c);
        }
        self.lin(w, v as u128, &[(1, a)])
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if w == 1 {
            let one = self.c(1, 1);
            return self.bop(Bop::Xor, a, one);
        }
        self.lin(w, mask(w), &[(mask(w), a)])
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (Some(x), None) => {
                if w == 1 {
                    return self.bop(Bop::And, a, b);
                }
                return self.lin(w, 0, &[(x, b)]);
            }
            (None, Some(_)) => return self.mul(b, a),
            _ => {}
        }
        if w == 1 {
            return self.bop(Bop::And, a, b);
        }
        let (a, b) = self.comm(a, b);
        self.intern(w, Op::B(Bop::Mul, a, b))
    }
    fn comm(&self, a: T, b: T) -> (T, T) {
        let ka = (self.cv(a).is_some(), self.n[a as usize].shape, a);
        let kb = (self.cv(b).is_some(), self.n[b as usize].shape, b);
        if ka <= kb {
            (a, b)
        } else {
            (b, a)
        }
    }

    pub fn concat(&mut self, parts: &[T]) -> T {
        // flatten and merge
        let mut out: Vec<T> = Vec::with_capacity(parts.len());
        let mut total = 0u16;
        for &p in parts {
            total += self.w(p);
            let sub: Vec<T> = match &self.n[p as usize].op {
                Op::Concat(q) => q.to_vec(),
                _ => vec![p],
            };
            for q in sub {
                if let Some(&l) = out.last() {
                    // merge consts
                    if let (Some(x), Some(y)) = (self.cv(l), self.cv(q)) {
                        let wl = self.w(l);
                        let wq = self.w(q);
                        if wl + wq <= 128 {
                            out.pop();
                            let m = self.c(wl + wq, (x << (wq % 128)) | y);
                            out.push(m);
                            continue;
                        }
                    }
                    // merge adjacent extracts of the same term
                    let la = self.as_ext(l);
                    let lb = self.as_ext(q);
                    if la.0 == lb.0 && la.1 == lb.1 + lb.2 && (la.0 != l || lb.0 != q) {
                        out.pop();
                        let m = self.extract(la.0, lb.1, la.2 + lb.2);
                        match &self.n[m as usize].op {
                            Op::Concat(q) => {
                                let q = q.to_vec();
                                out.extend(q)
                            }
                            _ => out.push(m),
                        }
                        continue;
                    }
                    // pieces of a conditional value that was taken apart byte by byte
                    if let (&Op::Ite(c1, a1, b1), &Op::Ite(c2, a2, b2)) = (&self.n[l as usize].op, &self.n[q as usize].op) {
                        if c1 == c2 {
                            let a = self.concat(&[a1, a2]);
                            let b = self.concat(&[b1, b2]);
                            let whole = |me: &Self, t: T| !matches!(me.n[t as usize].op, Op::Concat(_)) || me.w(t) > 128;
                            if whole(self, a) && whole(self, b) {
                                out.pop();
                                let m = self.ite(c1, a, b);
                                out.push(m);
                                continue;
                            }
                        }
                    }
                }
                out.push(q);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        // sign extension pattern is left as is
        self.intern(total, Op::Concat(out.into_boxed_slice()))
    }
    /// view as (term, lo, width)
    fn as_ext(&self, t: T) -> (T, u16, u16) {
        match self.n[t as usize].op {
            Op::Extract(x, lo) => (x, lo, self.n[t as usize].w),
            _ => (t, 0, self.n[t as usize].w),
        }
    }

    pub fn extract(&mut self, t: T, lo: u16, w: u16) -> T {
        let tw = self.w(t);
        debug_assert!(lo + w <= tw, "extract {} {} of {}", lo, w, tw);
        if lo == 0 && w == tw {
            return t;
        }
        let node = &self.n[t as usize];
        if let Op::Const(v) = node.op {
            return self.c(w, v >> lo);
        }
        if tw <= 100 && node.ulo == node.uhi {
            let v = node.ulo;
            return self.c(w, v >> lo);
        }
        match node.op.clone() {
            Op::Extract(x, l2) => return self.extract(x, lo + l2, w),
            Op::Concat(p) => {
                let mut out = vec![];
                let mut pos = tw;
                let hi = lo + w;
                for &q in p.iter() {
                    let qw = self.w(q);
                    let qlo = pos - qw;
                    let qhi = pos;
                    let a = qlo.max(lo);
                    let b = qhi.min(hi);
                    if a < b {
                        let e = self.extract(q, a - qlo, b - a);
                        out.push(e);
                    }
                    pos = qlo;
                }
                return self.concat(&out);
            }
            Op::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo < xw {
                    let e = self.extract(x, lo, xw - lo);
                    return self.sext(e, w);
                }
                let e = self.extract(x, xw - 1, 1);
                return self.sext(e, w);
            }
            Op::Lin(c, ts) if lo == 0 && w > 1 => {
                let mut parts = Vec::with_capacity(ts.len());
                for &(k, a) in ts.iter() {
                    let e = self.extract(a, 0, w);
                    parts.push((k & mask(w), e));
                }
                return self.lin(w, c & mask(w), &parts);
            }
            // coefficients that were reduced to the bits in use (67095150 for -13714 with 26 bits)
            Op::Lin(_, ts) if lo + w < tw && lo + w > 2 && tw <= 64 && ts.iter().any(|&(k, _)| to_s(k, tw).unsigned_abs() >= 1u128 << (lo + w - 1)) => {
                let x = self.extract(t, 0, lo + w);
                return self.extract(x, lo, w);
            }
            Op::B(Bop::Mul, a, b) if lo == 0 => {
                let a = self.extract(a, 0, w);
                let b = self.extract(b, 0, w);
                return self.mul(a, b);
            }
            Op::B(o @ (Bop::And | Bop::Or | Bop::Xor), a, b) => {
                let a = self.extract(a, lo, w);
                let b = self.extract(b, lo, w);
                return self.bop(o, a, b);
            }
            Op::Ite(c, a, b) => {
                if self.cv(a).is_some() || self.cv(b).is_some() {
                    let a = self.extract(a, lo, w);
                    let b = self.extract(b, lo, w);
                    return self.ite(c, a, b);
                }
            }
            _ => {}
        }
        let node = &self.n[t as usize];
        if tw <= 100 {
            let bits = (128 - node.uhi.leading_zeros()) as u16;
            if bits <= lo {
                return self.c(w, 0);
            }
            if bits < lo + w {
                let e = self.intern_extract(t, lo, bits - lo);
                return self.zext(e, w);
            }
        }
        self.intern_extract(t, lo, w)
    }
    fn intern_extract(&mut self, t: T, lo: u16, w: u16) -> T {
        if lo == 0 && w == self.w(t) {
            return t;
        }
        if lo == 0 && w <= 64 {
            // push truncation through min/max when both sides fit
            if let Op::B(o @ (Bop::UMin | Bop::UMax), a, b) = self.n[t as usize].op {
                if self.n[a as usize].uhi <= mask(w) && self.n[b as usize].uhi <= mask(w) {
                    let a = self.extract(a, 0, w);
                    let b = self.extract(b, 0, w);
                    return self.bop(o, a, b);
                }
            }
            if let Op::Ite(c, a, b) = self.n[t as usize].op {
                if self.n[a as usize].uhi <= mask(w) && self.n[b as usize].uhi <= mask(w) {
                    let a = self.extract(a, 0, w);
                    let b = self.extract(b, 0, w);
                    return self.ite(c, a, b);
                }
            }
        }
        self.intern(w, Op::Extract(t, lo))
    }

    fn widen_lin(&mut self, t: T, w: u16, signed: bool) -> Option<T> {
        let tw = self.w(t);
        if tw > 64 || w > 64 {
            return None;
        }
        let (c, ts) = match &self.n[t as usize].op {
            Op::Lin(c, ts) => (*c, ts.clone()),
            _ => return None,
        };
        let m = 1i128 << tw;
        for cc in [to_s(c, tw), c as i128] {
            if let Some((lo, hi)) = self.lin_range(tw, cc, &ts) {
                let ok = if signed { lo >= -(m / 2) && hi < m / 2 } else { lo >= 0 && hi < m };
                if ok {
                    let mut parts = Vec::with_capacity(ts.len());
                    for &(k, a) in ts.iter() {
                        let e = if self.reads_unsigned(a) { self.zext(a, w) } else { self.sext(a, w) };
                        parts.push((to_s(k, tw) as u128, e));
                    }
                    return Some(self.lin(w, cc as u128, &parts));
                }
            }
        }
        None
    }

    pub fn zext(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        debug_assert!(w > tw);
        if let Some(v) = self.cv(t) {
            return self.c(w, v);
        }
        if let Some(r) = self.widen_lin(t, w, false) {
            return r;
        }
        let z = self.c(w - tw, 0);
        self.concat(&[z, t])
    }
    pub fn sext(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if let Some(v) = self.cv(t) {
            return self.cs(w, to_s(v, tw));
        }
        if tw > 1 && self.n[t as usize].slo >= 0 {
            return self.zext(t, w);
        }
        if let Op::SExt(x) = self.n[t as usize].op {
            return self.sext(x, w);
        }
        if let Some(r) = self.widen_lin(t, w, true) {
            return r;
        }
        // arithmetic shift of a sum that keeps its sign
        if let Op::Extract(x, lo) = self.n[t as usize].op {
            if lo > 0 && lo + tw == self.w(x) && lo + w <= 64 && matches!(self.n[x as usize].op, Op::Lin(..)) {
                if let Some(x2) = self.widen_lin(x, lo + w, true) {
                    return self.extract(x2, lo, w);
                }
            }
        }
        // sext of a truncation that loses nothing: sext(extract(x,0,tw)) == x when x fits
        if let Op::Extract(x, 0) = self.n[t as usize].op {
            let xn = &self.n[x as usize];
            if xn.w == w && tw < 100 && xn.slo >= -(1i128 << (tw - 1)) && xn.shi < (1i128 << (tw - 1)) {
                return x;
            }
        }
        self.intern(w, Op::SExt(t))
    }
    pub fn resize_u(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if w < tw {
            self.extract(t, 0, w)
        } else {
            self.zext(t, w)
        }
    }

    pub fn shl_c(&mut self, t: T, s: u16) -> T {
        let w = self.w(t);
        if s == 0 {
            return t;
        }
        if s >= w {
            return self.c(w, 0);
        }
        if let Op::Lin(..) = self.n[t as usize].op {
            return self.lin(w, 0, &[(1u128 << s, t)]);
        }
        let e = self.extract(t, 0, w - s);
        let z = self.c(s, 0);
        self.concat(&[e, z])
    }
    pub fn lshr_c(&mut self, t: T, s: u16) -> T {
        let w = self.w(t);
        if s == 0 {
            return t;
        }
        if s >= w {
            return self.c(w, 0);
        }
        let e = self.extract(t, s, w - s);
        self.zext(e, w)
    }
    pub fn ashr_c(&mut self, t: T, s: u16) -> T {
        let w = self.w(t);
        if s == 0 {
            return t;
        }
        let s = s.min(w - 1);
        let e = self.extract(t, s, w - s);
        self.sext(e, w)
    }

    /// Segments of t as (lo,width,term-or-const) list, msb first, for or/and merging
    fn segs(&self, t: T) -> Vec<T> {
        match &self.n[t as usize].op {
            Op::Concat(p) => p.to_vec(),
            _ => vec![t],
        }
    }

    pub fn bop(&mut self, o: Bop, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", o);
        let m = mask(w);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let (sx, sy) = (to_s(x, w), to_s(y, w));
            let b1 = |v: bool| v as u128;
            let (rw, v): (u16, Option<u128>) = match o {
                Bop::Mul => (w, Some(x.wrapping_mul(y))),
                Bop::UDiv => (w, if y == 0 { None } else { Some(x / y) }),
                Bop::URem => (w, if y == 0 { None } else { Some(x % y) }),
                Bop::SDiv => (w, if y == 0 { None } else { Some(sx.wrapping_div(sy) as u128) }),
                Bop::SRem => (w, if y == 0 { None } else { Some(sx.wrapping_rem(sy) as u128) }),
                Bop::And => (w, Some(x & y)),
                Bop::Or => (w, Some(x | y)),
                Bop::Xor => (w, Some(x ^ y)),
                Bop::Shl => (w, Some(if y >= w as u128 { 0 } else { x << y })),
                Bop::LShr => (w, Some(if y >= w as u128 { 0 } else { x >> y })),
                Bop::AShr => (w, Some((sx >> y.min(w as u128 - 1)) as u128)),
                Bop::UMin => (w, Some(x.min(y))),
                Bop::UMax => (w, Some(x.max(y))),
                Bop::SMin => (w, Some(sx.min(sy) as u128)),
                Bop::SMax => (w, Some(sx.max(sy) as u128)),
                Bop::Eq => (1, Some(b1(x == y))),
                Bop::Ult => (1, Some(b1(x < y))),
                Bop::Slt => (1, Some(b1(sx < sy))),
            };
            if let Some(v) = v {
                return self.c(rw, v);
            }
        }
        match o {
            Bop::Mul => return self.mul(a, b),
            Bop::Shl => {
                if let Some(s) = cb {
                    return self.shl_c(a, s.min(w as u128) as u16);
                }
            }
            Bop::LShr => {
                if let Some(s) = cb {
                    return self.lshr_c(a, s.min(w as u128) as u16);
                }
            }
            Bop::AShr => {
                if let Some(s) = cb {
                    return self.ashr_c(a, s.min(w as u128) as u16);
                }
            }
            Bop::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        return self.lshr_c(a, y.trailing_zeros() as u16);
                    }
                    if self.n[a as usize].uhi < y {
                        return self.c(w, 0);
                    }
                }
                if a == b && self.n[a as usize].ulo > 0 {
                    return self.c(w, 1);
                }
            }
            Bop::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = y.trailing_zeros() as u16;
                        if s == 0 {
                            return self.c(w, 0);
                        }
                        let e = self.extract(a, 0, s);
                        return self.zext(e, w);
                    }
                    if self.n[a as usize].uhi < y {
                        return a;
                    }
                }
            }
            Bop::And | Bop::Or | Bop::Xor => return self.bitop(o, a, b),
            Bop::UMin | Bop::UMax | Bop::SMin | Bop::SMax => return self.minmax(o, a, b),
            Bop::Eq => return self.eq(a, b),
            Bop::Ult => {
                let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
                if w <= 100 {
                    if x.uhi < y.ulo {
                        return self.c(1, 1);
                    }
                    if x.ulo >= y.uhi {
                        return self.c(1, 0);
                    }
                }
                if a == b {
                    return self.c(1, 0);
                }
                if cb == Some(1) {
                    let z = self.c(w, 0);
                    return self.eq(a, z);
                }
                // narrow when both fit
                if w > 8 && w <= 100 {
                    let bits = 128 - (self.n[a as usize].uhi | self.n[b as usize].uhi).leading_zeros() as u16;
                    let bits = bits.max(1);
                    if bits < w && (self.is_zext(a) || self.is_zext(b)) {
                        let a2 = self.extract(a, 0, bits);
                        let b2 = self.extract(b, 0, bits);
                        if self.w(a2) < w {
                            return self.bop(Bop::Ult, a2, b2);
                        }
                    }
                }
                let _ = m;
            }
            Bop::Slt => {
                let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
                if w <= 100 {
                    if x.shi < y.slo {
                        return self.c(1, 1);
                    }
                    if x.slo >= y.shi {
                        return self.c(1, 0);
                    }
                    if x.slo >= 0 && y.slo >= 0 {
                        return self.bop(Bop::Ult, a, b);
                    }
                }
                if a == b {
                    return self.c(1, 0);
                }
            }
            _ => {}
        }
        let rw = match o {
            Bop::Ult | Bop::Slt | Bop::Eq => 1,
            _ => w,
        };
        self.intern(rw, Op::B(o, a, b))
    }
    fn is_zext(&self, t: T) -> bool {
        match &self.n[t as usize].op {
            Op::Concat(p) => self.cv(p[0]) == Some(0),
            Op::Const(_) => true,
            _ => false,
        }
    }

    fn bitop(&mut self, o: Bop, a: T, b: T) -> T {
        let w = self.w(a);
        let m = mask(w);
        if a == b {
            return if o == Bop::Xor { self.c(w, 0) } else { a };
        }
        let (a, b) = self.comm(a, b); // const last
        let cb = self.cv(b);
        if let Some(y) = cb {
            match o {
                Bop::And if y == 0 => return b,
                Bop::And if y == m => return a,
                Bop::Or if y == 0 => return a,
                Bop::Or if y == m => return b,
                Bop::Xor if y == 0 => return a,
                Bop::Xor if y == m && w > 1 => return self.not(a),
                _ => {}
            }
            if o == Bop::Xor && w == 1 {
                // not(not x)
                match self.n[a as usize].op.clone() {
                    Op::B(Bop::Xor, x, k) if self.cv(k) == Some(1) => return x,
                    _ => {}
                }
            }
            if w > 1 && w <= 128 {
                // split into runs of the constant
                if o == Bop::And || o == Bop::Or || matches!(self.n[a as usize].op, Op::Concat(_)) {
                    let runs = runs_of(y, w);
                    if runs.len() <= 8 {
                        let mut parts = vec![];
                        for (lo, len, bit) in runs.into_iter().rev() {
                            let p = match (o, bit) {
                                (Bop::And, false) => self.c(len, 0),
                                (Bop::And, true) => self.extract(a, lo, len),
                                (Bop::Or, true) => self.c(len, mask(len)),
                                (Bop::Or, false) => self.extract(a, lo, len),
                                (Bop::Xor, false) => self.extract(a, lo, len),
                                (_, true) => {
                                    let e = self.extract(a, lo, len);
                                    self.not(e)
                                }
                                _ => unreachable!(),
                            };
                            parts.push(p);
                        }
                        return self.concat(&parts);
                    }
                }
            }
        }
        // piecewise when both sides have aligned const segments
        let (sa, sb) = (self.segs(a), self.segs(b));
        if sa.len() > 1 || sb.len() > 1 {
            // cut positions
            let mut cuts: Vec<u16> = vec![];
            for s in [&sa, &sb] {
                let mut pos = w;
                for &p in s.iter() {
                    cuts.push(pos);
                    pos -= self.w(p);
                }
            }
            cuts.push(0);
            cuts.sort_unstable();
            cuts.dedup();
            let mut useful = true;
            let mut parts = vec![];
            let mut any_simpl = false;
            for i in (0..cuts.len() - 1).rev() {
                let (lo, hi) = (cuts[i], cuts[i + 1]);
                let x = self.extract(a, lo, hi - lo);
                let y = self.extract(b, lo, hi - lo);
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    any_simpl = true;
                } else if x != y {
                    // genuinely mixed piece
                    if cuts.len() > 10 {
                        useful = false;
                        break;
                    }
                }
                parts.push((x, y));
            }
            if useful && any_simpl && parts.len() > 1 {
                let mut out = vec![];
                for (x, y) in parts {
                    let r = self.bitop(o, x, y);
                    out.push(r);
                }
                return self.concat(&out);
            }
        }
        if w == 1 && cb.is_none() {
            // x & !x, x | !x
            let na = self.not(a);
            if na == b {
                return match o {
                    Bop::And => self.c(1, 0),
                    _ => self.c(1, 1),
                };
            }
        }
        self.intern(w, Op::B(o, a, b))
    }

    fn minmax(&mut self, o: Bop, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = self.comm(a, b);
        let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
        if w <= 100 {
            match o {
                Bop::SMin | Bop::SMax => {
                    if x.shi <= y.slo {
                        return if o == Bop::SMin { a } else { b };
                    }
                    if y.shi <= x.slo {
                        return if o == Bop::SMin { b } else { a };
                    }
                    if x.slo >= 0 && y.slo >= 0 {
                        let o2 = if o == Bop::SMin { Bop::UMin } else { Bop::UMax };
                        return self.minmax(o2, a, b);
                    }
                }
                _ => {
                    if x.uhi <= y.ulo {
                        return if o == Bop::UMin { a } else { b };
                    }
                    if y.uhi <= x.ulo {
                        return if o == Bop::UMin { b } else { a };
                    }
                }
            }
        }
        if self.cv(b).is_some() {
            // nested with constants
            if let Op::B(o2, p, q) = self.n[a as usize].op {
                if self.cv(q).is_some() {
                    if o2 == o {
                        let k = self.bop(o, q, b);
                        return self.minmax(o, p, k);
                    }
                    // canonical order: max outermost
                    let flip = match (o, o2) {
                        (Bop::SMin, Bop::SMax) => {
                            to_s(self.cv(q).unwrap(), w) <= to_s(self.cv(b).unwrap(), w)
                        }
                        (Bop::UMin, Bop::UMax) => self.cv(q).unwrap() <= self.cv(b).unwrap(),
                        _ => false,
                    };
                    if flip {
                        let inner = self.minmax(o, p, b);
                        return self.minmax(o2, inner, q);
                    }
                    // after intervals the inner op may have changed signedness:
                    // umin(smax(x, c>=0), d) == smax(smin(x,d), c) for c <= d
                    if o == Bop::UMin && o2 == Bop::SMax {
                        let (cq, cb) = (to_s(self.cv(q).unwrap(), w), to_s(self.cv(b).unwrap(), w));
                        if cq >= 0 && cb >= cq {
                            let inner = self.minmax(Bop::SMin, p, b);
                            return self.minmax(Bop::SMax, inner, q);
                        }
                    }
                }
            }
        }
        self.intern(w, Op::B(o, a, b))
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(1, 1);
        }
        let (a, b) = self.comm(a, b);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(1, (x == y) as u128);
        }
        if w == 1 {
            if let Some(v) = self.cv(b) {
                return if v == 1 { a } else { self.not(a) };
            }
            let x = self.bop(Bop::Xor, a, b);
            return self.not(x);
        }
        if w <= 100 {
            let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
            if x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo {
                return self.c(1, 0);
            }
        }
        // split concat against concat/const at common cut points
        let (sa, sb) = (self.segs(a), self.segs(b));
        if sa.len() > 1 && (sb.len() > 1 || self.cv(b).is_some()) || (sb.len() > 1 && self.cv(a).is_some()) {
            let mut pa = vec![];
            let mut pos = w;
            for &p in &sa {
                pa.push(pos);
                pos -= self.w(p);
            }
            pa.push(0);
            let mut pb = vec![];
            let mut pos = w;
            for &p in &sb {
                pb.push(pos);
                pos -= self.w(p);
            }
            pb.push(0);
            let mut cuts: Vec<u16> = if self.cv(b).is_some() {
                pa
            } else if self.cv(a).is_some() {
                pb
            } else {
                pa.into_iter().filter(|x| pb.contains(x)).collect()
            };
            cuts.sort_unstable();
            cuts.dedup();
            if cuts.len() > 2 {
                let mut r = self.c(1, 1);
                for i in (0..cuts.len() - 1).rev() {
                    let (lo, hi) = (cuts[i], cuts[i + 1]);
                    let x = self.extract(a, lo, hi - lo);
                    let y = self.extract(b, lo, hi - lo);
                    let e = self.eq(x, y);
                    r = self.bop(Bop::And, r, e);
                }
                return r;
            }
        }
        if let Op::SExt(x) = self.n[a as usize].op {
            if let Op::SExt(y) = self.n[b as usize].op {
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
            if let Some(v) = self.cv(b) {
                let xw = self.w(x);
                let c = self.c(xw, v);
                if to_s(v & mask(xw), xw) == to_s(v, w) {
                    return self.eq(x, c);
                }
                return self.c(1, 0);
            }
        }
        if let (Op::Lin(c, ts), Some(v)) = (self.n[a as usize].op.clone(), self.cv(b)) {
            if ts.len() == 1 && ts[0].0 == 1 {
                let k = self.c(w, v.wrapping_sub(c));
                return self.eq(ts[0].1, k);
            }
        }
        if let Op::Lin(..) = self.n[a as usize].op {
            if let Op::Lin(..) = self.n[b as usize].op {
                let d = self.sub(a, b);
                if let Some(v) = self.cv(d) {
                    return self.c(1, (v == 0) as u128);
                }
            }
        }
        self.intern(1, Op::B(Bop::Eq, a, b))
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        self.bop(Bop::Ult, a, b)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        self.bop(Bop::Slt, a, b)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bop(Bop::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bop(Bop::Or, a, b)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let Op::B(Bop::Xor, x, k) = self.n[c as usize].op {
            if self.cv(k) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // x < 0 ? 0 : umin(x, K) is a signed clamp
        if let (&Op::B(Bop::Slt, x, y), Some(0), &Op::B(Bop::UMin, p, k)) = (&self.n[c as usize].op, self.cv(a), &self.n[b as usize].op) {
            let (p, k) = if p == x { (p, k) } else { (k, p) };
            if p == x && self.cv(y) == Some(0) {
                if let Some(kv) = self.cv(k) {
                    if kv >> (w - 1) == 0 {
                        let z = self.c(w, 0);
                        let m = self.bop(Bop::SMax, x, z);
                        return self.bop(Bop::SMin, m, k);
                    }
                }
            }
        }
        // min / max recognition
        if let Op::B(o @ (Bop::Ult | Bop::Slt), x, y) = self.n[c as usize].op {
            let signed = o == Bop::Slt;
            let (mn, mx) = if signed { (Bop::SMin, Bop::SMax) } else { (Bop::UMin, Bop::UMax) };
            if x == a && y == b {
                return self.bop(mn, a, b);
            }
            if x == b && y == a {
                return self.bop(mx, a, b);
            }
            // ite(x < K, x, K-1) and ite(K < x, x, K+1) style off-by-one forms
            if let (Some(k), Some(bv)) = (self.cv(y), self.cv(b)) {
                if x == a && bv == k.wrapping_sub(1) & mask(w) && self.w(y) == w {
                    return self.bop(mn, a, b);
                }
            }
            if let (Some(k), Some(bv)) = (self.cv(x), self.cv(b)) {
                if y == a && bv == k.wrapping_add(1) & mask(w) && self.w(x) == w {
                    return self.bop(mx, a, b);
                }
            }
            if let (Some(k), Some(av)) = (self.cv(x), self.cv(a)) {
                // K < y ? K+? : y  => y>K ? a : y
                if y == b && (av == k || av == k.wrapping_add(1) & mask(w)) && self.w(x) == w {
                    return self.bop(mn, b, a);
                }
            }
            if let (Some(k), Some(av)) = (self.cv(y), self.cv(a)) {
                // x < K ? a : x
                if x == b && (av == k || av == k.wrapping_sub(1) & mask(w)) && self.w(y) == w {
                    return self.bop(mx, b, a);
                }
            }
        }
        self.intern(w, Op::Ite(c, a, b))
    }

    // ------------------------------------------------------------ floats
    pub fn fop(&mut self, o: FOp, w: u16, args: &[T]) -> T {
        if args.iter().all(|&a| self.cv(a).is_some()) {
            let aw: Vec<(u16, u128)> = args.iter().map(|&a| (self.w(a), self.cv(a).unwrap())).collect();
            if let Some(v) = crate::fp::eval(o, w, &aw) {
                return self.c(w, v);
            }
        }
        self.intern(w, Op::F(o, args.to_vec().into_boxed_slice()))
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&self, t: T, env: &dyn Fn(u32) -> u128, memo: &mut FxMap<T, u128>) -> Option<u128> {
        // iterative post-order
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = &self.n[x as usize];
            if !done {
                stack.push((x, true));
                self.children(x, &mut |c| {
                    if !memo.contains_key(&c) {
                        stack.push((c, false))
                    }
                });
                continue;
            }
            let g = |c: T| memo[&c];
            let w = n.w;
            let v: u128 = match &n.op {
                Op::Const(v) => *v,
                Op::Var(i) => env(*i) & mask(w),
                Op::Lin(c, ts) => {
                    let mut s = *c;
                    for (k, a) in ts.iter() {
                        s = s.wrapping_add(k.wrapping_mul(g(*a)));
                    }
                    s & mask(w)
                }
                Op::B(o, a, b) => {
                    let aw = self.w(*a);
                    let (x, y) = (g(*a), g(*b));
                    let (sx, sy) = (to_s(x, aw), to_s(y, aw));
                    (match o {
                        Bop::Mul => x.wrapping_mul(y),
                        Bop::UDiv => {
                            if y == 0 {
                                mask(w)
                            } else {
                                x / y
                            }
                        }
                        Bop::URem => {
                            if y == 0 {
                                x
                            } else {
                                x % y
                            }
                        }
                        Bop::SDiv => {
                            if y == 0 {
                                if sx < 0 {
                                    1
                                } else {
                                    mask(w)
                                }
                            } else {
                                sx.wrapping_div(sy) as u128
                            }
                        }
                        Bop::SRem => {
                            if y == 0 {
                                x
                            } else {
                                sx.wrapping_rem(sy) as u128
                            }
                        }
                        Bop::And => x & y,
                        Bop::Or => x | y,
                        Bop::Xor => x ^ y,
                        Bop::Shl => {
                            if y >= w as u128 {
                                0
                            } else {
                                x << y
                            }
                        }
                        Bop::LShr => {
                            if y >= w as u128 {
                                0
                            } else {
                                x >> y
                            }
                        }
                        Bop::AShr => (sx >> y.min(w as u128 - 1)) as u128,
                        Bop::UMin => x.min(y),
                        Bop::UMax => x.max(y),
                        Bop::SMin => sx.min(sy) as u128,
                        Bop::SMax => sx.max(sy) as u128,
                        Bop::Eq => (x == y) as u128,
                        Bop::Ult => (x < y) as u128,
                        Bop::Slt => (sx < sy) as u128,
                    }) & mask(w)
                }
                Op::Concat(p) => {
                    let mut s = 0u128;
                    for &q in p.iter() {
                        let qw = self.w(q);
                        s = if qw >= 128 { g(q) } else { (s << qw) | g(q) };
                    }
                    s & mask(w)
                }
                Op::Extract(a, lo) => (g(*a) >> lo) & mask(w),
                Op::SExt(a) => (to_s(g(*a), self.w(*a)) as u128) & mask(w),
                Op::Ite(c, a, b) => {
                    if g(*c) == 1 {
                        g(*a)
                    } else {
                        g(*b)
                    }
                }
                Op::F(o, p) => {
                    let a: Vec<(u16, u128)> = p.iter().map(|&q| (self.w(q), g(q))).collect();
                    crate::fp::eval(*o, w, &a)?
                }
            };
            memo.insert(x, v);
        }
        memo.get(&t).copied()
    }

    pub fn children(&self, t: T, f: &mut dyn FnMut(T)) {
        match &self.n[t as usize].op {
            Op::Const(_) | Op::Var(_) => {}
            Op::Lin(_, ts) => {
                for x in ts.iter() {
                    f(x.1)
                }
            }
            Op::B(_, a, b) => {
                f(*a);
                f(*b)
            }
            Op::Concat(p) | Op::F(_, p) => {
                for &x in p.iter() {
                    f(x)
                }
            }
            Op::Extract(a, _) | Op::SExt(a) => f(*a),
            Op::Ite(a, b, c) => {
                f(*a);
                f(*b);
                f(*c)
            }
        }
    }
}

fn runs_of(v: u128, w: u16) -> Vec<(u16, u16, bool)> {
    let mut out = vec![];
    let mut i = 0;
    while i < w {
        let b = (v >> i) & 1 == 1;
        let mut j = i + 1;
        while j < w && ((v >> j) & 1 == 1) == b {
            j += 1;
        }
        out.push((i, j - i, b));
        i = j;
    }
    out
}
