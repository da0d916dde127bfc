//! Symbolic interpreter for the compact IR.
use crate::llvm::*;
use crate::smt::{Res, Solver};
use crate::term::*;
use std::rc::Rc;

pub const UNINIT: T = u32::MAX;

#[derive(Clone)]
pub enum Val {
    N,
    S(T),
    V(Rc<[T]>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OKind {
    Global,
    Stack,
    Heap,
    Harness,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<T>,
    pub kind: OKind,
    pub readonly: bool,
    pub base_off: u32,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub prev: u32,
    pub ip: u32,
    pub slots: Vec<Val>,
    pub ret: Slot,
    pub ret_scalar: bool,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub enum Nd {
    /// symbolic block: tag, element width in bits of each var, variables
    Sym(u32, Vec<T>),
    Pick(u32, i128),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Rc<Vec<Option<Rc<Obj>>>>,
    pub pc: Vec<T>,
    pub nd: Vec<Nd>,
    pub outs: Vec<(u32, Vec<T>)>,
    /// 1: a panic ends the path quietly; 2: also, arithmetic overflow wraps as in a release build instead of panicking
    pub panic_ok: u8,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: i64,
    pub msg: String,
    pub inputs: Vec<(String, u32, Vec<u128>)>,
}

#[derive(Clone, Debug, Default)]
pub struct JobOut {
    pub id: String,
    pub paths: u64,
    pub steps: u64,
    pub blocks: u64,
    pub asserts: u64,
    pub trivially: u64,
    pub reach: Vec<i64>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub traces: Vec<(Vec<(String, u32, Vec<u128>)>, Vec<(u32, Vec<u8>)>)>,
    pub funcs: Vec<String>,
    pub forks: u64,
    pub merges: u64,
    pub terms: u64,
    pub secs: f64,
    pub assert_ids: Vec<i64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Unknown,
    Panic,
    Sym8,
    Sym16,
    SymU32,
    SymU64,
    Pick,
    Assume,
    Assert,
    Near,
    Between,
    Cpu,
    Same,
    Param,
    Reach,
    Alloc,
    Out,
    PanicOk,
    F16Int,
    F16Lin,
    Log,
    Malloc,
    Calloc,
    Free,
    Realloc,
    PosixMemalign,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    Nop,
    LAssume,
    Bcmp,
    Memcpy,
    Memset,
    Bswap,
    Bitrev,
    Ctpop,
    Ctlz,
    Cttz,
    Abs,
    Fabs,
    UMin,
    UMax,
    SMin,
    SMax,
    SAddSat,
    UAddSat,
    SSubSat,
    USubSat,
    SAddO,
    UAddO,
    SSubO,
    USubO,
    SMulO,
    UMulO,
    FpToUSat,
    FpToSSat,
    Fshl,
    Fshr,
    IsConst,
    Expect,
    MLoad,
    MStore,
    Pow,
    FRound,
    FFloor,
    FCeil,
    FTrunc,
    FRoundEven,
    Fma,
    Trap,
    UCmp,
    SCmp,
    MinNum,
    MaxNum,
    Sqrt,
    PackUs(u16),
    PackSs(u16),
    PhaddW,
    PmaddUbs,
    PmaddWd,
    PmulHrs,
    Pshufb,
    VpDpBusd,
    VpDpWssd,
    VPermI2,
    VPerm,
    CvtPs2Ph,
    RoundPs,
    PsrlImm,
    PsllImm,
    PsraImm,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    CvtPs2Dq,
    MathF32(u8),
    MathF64(u8),
}

pub fn known_ext(n: &str) -> bool {
    classify(n) != X::Unknown
}
fn classify(n: &str) -> X {
    match n {
        "vp_sym" => return X::Sym8,
        "vp_sym16" => return X::Sym16,
        "vp_u32" => return X::SymU32,
        "vp_u64" => return X::SymU64,
        "vp_pick" => return X::Pick,
        "vp_assume" => return X::Assume,
        "vp_assert" => return X::Assert,
        "vp_near" => return X::Near,
        "vp_between" => return X::Between,
        "vp_cpu" => return X::Cpu,
        "vp_same" => return X::Same,
        "vp_param" => return X::Param,
        "vp_reach" => return X::Reach,
        "vp_alloc" => return X::Alloc,
        "vp_out" => return X::Out,
        "vp_panic_ok" => return X::PanicOk,
        "vp_f16int" => return X::F16Int,
        "vp_f16lin" => return X::F16Lin,
        "vp_log" => return X::Log,
        "malloc" => return X::Malloc,
        "calloc" => return X::Calloc,
        "free" => return X::Free,
        "realloc" => return X::Realloc,
        "posix_memalign" => return X::PosixMemalign,
        "bcmp" | "memcmp" => return X::Bcmp,
        "powf" => return X::Pow,
        "llvm.trap" => return X::Trap,
        "expf" => return X::MathF32(0),
        "logf" => return X::MathF32(1),
        "sqrtf" => return X::MathF32(2),
        "sinf" => return X::MathF32(3),
        "cosf" => return X::MathF32(4),
        "cbrtf" => return X::MathF32(5),
        "pow" => return X::MathF64(0),
        _ => {}
    }
    if n.starts_with("llvm.") {
        let t: &[(&str, X)] = &[
            ("llvm.assume", X::LAssume),
            ("llvm.memcpy", X::Memcpy),
            ("llvm.memmove", X::Memcpy),
            ("llvm.memset", X::Memset),
            ("llvm.bswap", X::Bswap),
            ("llvm.bitreverse", X::Bitrev),
            ("llvm.ctpop", X::Ctpop),
            ("llvm.ctlz", X::Ctlz),
            ("llvm.cttz", X::Cttz),
            ("llvm.abs", X::Abs),
            ("llvm.fabs", X::Fabs),
            ("llvm.umin", X::UMin),
            ("llvm.umax", X::UMax),
            ("llvm.smin", X::SMin),
            ("llvm.smax", X::SMax),
            ("llvm.sadd.sat", X::SAddSat),
            ("llvm.uadd.sat", X::UAddSat),
            ("llvm.ssub.sat", X::SSubSat),
            ("llvm.usub.sat", X::USubSat),
            ("llvm.sadd.with", X::SAddO),
            ("llvm.uadd.with", X::UAddO),
            ("llvm.ssub.with", X::SSubO),
            ("llvm.usub.with", X::USubO),
            ("llvm.smul.with", X::SMulO),
            ("llvm.umul.with", X::UMulO),
            ("llvm.fptoui.sat", X::FpToUSat),
            ("llvm.fptosi.sat", X::FpToSSat),
            ("llvm.fshl", X::Fshl),
            ("llvm.fshr", X::Fshr),
            ("llvm.is.constant", X::IsConst),
            ("llvm.expect", X::Expect),
            ("llvm.masked.load", X::MLoad),
            ("llvm.masked.store", X::MStore),
            ("llvm.pow", X::Pow),
            ("llvm.roundeven", X::FRoundEven),
            ("llvm.rint", X::FRoundEven),
            ("llvm.nearbyint", X::FRoundEven),
            ("llvm.round", X::FRound),
            ("llvm.floor", X::FFloor),
            ("llvm.ceil", X::FCeil),
            ("llvm.trunc", X::FTrunc),
            ("llvm.fmuladd", X::Fma),
            ("llvm.fma", X::Fma),
            ("llvm.ucmp", X::UCmp),
            ("llvm.scmp", X::SCmp),
            ("llvm.minnum", X::MinNum),
            ("llvm.maxnum", X::MaxNum),
            ("llvm.sqrt", X::Sqrt),
            ("llvm.vector.reduce.add", X::ReduceAdd),
            ("llvm.vector.reduce.or", X::ReduceOr),
            ("llvm.vector.reduce.and", X::ReduceAnd),
            ("llvm.experimental.noalias", X::Nop),
            ("llvm.lifetime", X::Nop),
            ("llvm.prefetch", X::Nop),
            ("llvm.x86.sse.sfence", X::Nop),
        ];
        for (p, x) in t {
            if n.starts_with(p) {
                return *x;
            }
        }
        if n.contains("packuswb") {
            return X::PackUs(8);
        }
        if n.contains("packusdw") {
            return X::PackUs(16);
        }
        if n.contains("packsswb") {
            return X::PackSs(8);
        }
        if n.contains("packssdw") {
            return X::PackSs(16);
        }
        if n.contains("phadd.w") {
            return X::PhaddW;
        }
        if n.contains("pmadd.ub.sw") || n.contains("pmaddubs.w") {
            return X::PmaddUbs;
        }
        if n.contains("pmadd.wd") || n.contains("pmaddw.d") {
            return X::PmaddWd;
        }
        if n.contains("pmul.hr.sw") {
            return X::PmulHrs;
        }
        if n.contains("pshuf.b") {
            return X::Pshufb;
        }
        if n.contains("vpdpbusd.") {
            return X::VpDpBusd;
        }
        if n.contains("vpdpwssd.") {
            return X::VpDpWssd;
        }
        if n.contains("vpermi2var") {
            return X::VPermI2;
        }
        if n.contains("avx512.permvar") || n.contains("avx2.permd") || n.contains("avx2.permps") {
            return X::VPerm;
        }
        if n.contains("vcvtps2ph") {
            return X::CvtPs2Ph;
        }
        if n.contains("avx.round.ps") || n.contains("sse41.round.ps") {
            return X::RoundPs;
        }
        if n.contains(".cvtps2dq") || n.contains("cvt.ps2dq") {
            return X::CvtPs2Dq;
        }
        if n.contains(".psrli.") {
            return X::PsrlImm;
        }
        if n.contains(".pslli.") {
            return X::PsllImm;
        }
        if n.contains(".psrai.") {
            return X::PsraImm;
        }
        return X::Unknown;
    }
    if n == "vp_halloc" {
        return X::RustAlloc;
    }
    if n == "vp_hfree" {
        return X::RustDealloc;
    }
    if n.contains("rust_alloc_zeroed") {
        return X::RustAllocZeroed;
    }
    if n.contains("rust_dealloc") {
        return X::RustDealloc;
    }
    if n.contains("rust_realloc") {
        return X::RustRealloc;
    }
    if n.contains("rust_no_alloc_shim") {
        return X::Nop;
    }
    if n.contains("rust_alloc") && !n.contains("error_handler") {
        return X::RustAlloc;
    }
    if n.contains("panic")
        || n.contains("slice_index")
        || n.contains("slice_start_index")
        || n.contains("slice_end_index")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("capacity_overflow")
        || n.contains("handle_error")
        || n.contains("handle_alloc_error")
        || n.contains("len_mismatch_fail")
        || n.contains("assert_failed")
    {
        return X::Panic;
    }
    X::Unknown
}

pub struct Opts {
    pub max_paths: u64,
    pub max_steps: u64,
    pub cpu: u64,
    pub params: Vec<i64>,
    pub traces: u32,
    pub seed: u64,
    pub deadline: std::time::Instant,
}

pub struct Exec<'a> {
    pub p: &'a Program,
    pub t: Terms,
    pub solver: Solver,
    consts: Vec<Option<Val>>,
    exts: Vec<X>,
    f16_vars: Vec<(u16, T)>,
    f16_done: FxMap<T, bool>,
    undef: FxMap<u16, T>,
    pub out: JobOut,
    pub o: Opts,
    globals: Rc<Vec<Option<Rc<Obj>>>>,
    used: FxMap<u32, ()>,
    work: Vec<State>,
    vsets: FxMap<T, Rc<Vec<u32>>>,
    seen_viol: std::collections::HashSet<(String, i64, String)>,
    merge_fail: FxMap<(u32, u32), u32>,
    depth: u32,
    asserted: FxMap<T, ()>,
}

enum Flow {
    Next,
    /// control was transferred (frame pushed / block changed)
    Jump,
    /// path ended
    End,
}

type R<X> = Result<X, String>;

impl<'a> Exec<'a> {
    pub fn new(p: &'a Program, solver: Solver, o: Opts) -> Exec<'a> {
        let mut g: Vec<Option<Rc<Obj>>> = vec![];
        for (i, gl) in p.globals.iter().enumerate() {
            let cache = gl.name.contains("std_detect") && gl.name.contains("CACHE");
            if i == 0 || (gl.external && !cache) {
                g.push(None);
                continue;
            }
            let mut data: Vec<T> = gl.init.iter().map(|b| b.map(|x| x as T).unwrap_or(UNINIT)).collect();
            if cache {
                let v = o.cpu | (1 << 63);
                for w in 0..data.len() / 8 {
                    let x = if w == 0 { v } else { 1 << 63 };
                    for b in 0..8 {
                        data[w * 8 + b] = ((x >> (8 * b)) & 255) as T;
                    }
                }
            }
            g.push(Some(Rc::new(Obj {
                size: gl.size,
                data,
                kind: OKind::Global,
                readonly: gl.constant,
                base_off: 0,
            })));
        }
        Exec {
            p,
            t: Terms::new(),
            solver,
            consts: vec![None; p.consts.len()],
            exts: p.exts.iter().map(|n| classify(n)).collect(),
            f16_vars: vec![],
            f16_done: FxMap::default(),
            undef: FxMap::default(),
            out: JobOut::default(),
            o,
            globals: Rc::new(g),
            used: FxMap::default(),
            work: vec![],
            vsets: FxMap::default(),
            seen_viol: Default::default(),
            merge_fail: FxMap::default(),
            depth: 0,
            asserted: FxMap::default(),
        }
    }

    fn undef(&mut self, w: u16) -> T {
        if let Some(&t) = self.undef.get(&w) {
            return t;
        }
        let t = self.t.var(w);
        self.undef.insert(w, t);
        t
    }

    fn konst(&mut self, k: u32) -> Val {
        if let Some(v) = &self.consts[k as usize] {
            return v.clone();
        }
        let c = &self.p.consts[k as usize];
        let mut e = vec![];
        for &(w, v) in &c.e {
            e.push(match v {
                Some(x) => self.t.c(w, x),
                None => self.undef(w),
            });
        }
        let v = if c.scalar { Val::S(e[0]) } else { Val::V(e.into()) };
        self.consts[k as usize] = Some(v.clone());
        v
    }

    #[inline]
    fn get(&mut self, st: &State, o: Opnd) -> Val {
        match o {
            Opnd::R(s) => st.frames.last().unwrap().slots[s as usize].clone(),
            Opnd::K(k) => self.konst(k),
        }
    }
    fn sc(&mut self, st: &State, o: Opnd) -> R<T> {
        match self.get(st, o) {
            Val::S(t) => Ok(t),
            Val::V(v) if v.len() == 1 => Ok(v[0]),
            _ => Err("scalar expected".into()),
        }
    }
    fn vecv(&mut self, st: &State, o: Opnd) -> R<Rc<[T]>> {
        match self.get(st, o) {
            Val::S(t) => Ok(vec![t].into()),
            Val::V(v) => Ok(v),
            Val::N => Err("value expected".into()),
        }
    }
    #[inline]
    fn set(&mut self, st: &mut State, d: Slot, v: Val) {
        st.frames.last_mut().unwrap().slots[d as usize] = v;
    }

    fn map1(&mut self, v: Val, f: &mut dyn FnMut(&mut Terms, T) -> T) -> R<Val> {
        Ok(match v {
            Val::S(t) => Val::S(f(&mut self.t, t)),
            Val::V(v) => {
                let r: Vec<T> = v.iter().map(|&x| f(&mut self.t, x)).collect();
                Val::V(r.into())
            }
            Val::N => return Err("unset value".into()),
        })
    }
    fn map2(&mut self, a: Val, b: Val, f: &mut dyn FnMut(&mut Terms, T, T) -> T) -> R<Val> {
        Ok(match (a, b) {
            (Val::S(a), Val::S(b)) => Val::S(f(&mut self.t, a, b)),
            (Val::V(a), Val::V(b)) if a.len() == b.len() => {
                let r: Vec<T> = a.iter().zip(b.iter()).map(|(&x, &y)| f(&mut self.t, x, y)).collect();
                Val::V(r.into())
            }
            _ => return Err("operand shapes".into()),
        })
    }

    // ------------------------------------------------------------------ solver helpers
    fn vset(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.vsets.get(&t) {
            return v.clone();
        }
        let mut seen: FxMap<T, ()> = FxMap::default();
        let mut vs = vec![];
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            if let Op::Var(i) = self.t.n[x as usize].op {
                vs.push(i);
            }
            self.t.children(x, &mut |c| st.push(c));
        }
        vs.sort_unstable();
        let r = Rc::new(vs);
        self.vsets.insert(t, r.clone());
        r
    }

    fn query(&mut self, pc: &[T], c: T) -> Res {
        if self.t.cv(c) == Some(0) {
            return Res::Unsat;
        }
        if pc.is_empty() {
            return self.solver.check(&self.t, &[c]);
        }
        // slice the path condition to the constraints connected with c
        let mut cur: std::collections::BTreeSet<u32> = self.vset(c).iter().copied().collect();
        let sets: Vec<(T, Rc<Vec<u32>>)> = pc.iter().map(|&p| (p, self.vset(p))).collect();
        let mut used = vec![false; sets.len()];
        loop {
            let mut ch = false;
            for (i, (_, s)) in sets.iter().enumerate() {
                if !used[i] && s.iter().any(|v| cur.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cur.extend(s.iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<T> = vec![c];
        for (i, (p, _)) in sets.iter().enumerate() {
            if used[i] {
                q.push(*p);
            }
        }
        self.solver.check(&self.t, &q)
    }
    /// full query (used to obtain a model of the whole path)
    fn query_full(&mut self, pc: &[T], c: T) -> Res {
        let mut q = vec![c];
        q.extend_from_slice(pc);
        self.solver.check(&self.t, &q)
    }

    fn inputs_of(&self, st: &State, model: &dyn Fn(u32) -> u128) -> Vec<(String, u32, Vec<u128>)> {
        let mut out = vec![];
        let mut memo = FxMap::default();
        for n in &st.nd {
            match n {
                Nd::Pick(tag, v) => out.push(("pick".to_string(), *tag, vec![*v as u128])),
                Nd::Sym(tag, vs) => {
                    let vals = vs.iter().map(|&v| self.t.eval(v, model, &mut memo).unwrap_or(0)).collect();
                    out.push(("sym".to_string(), *tag, vals));
                }
            }
        }
        out
    }

    fn violation(&mut self, st: &State, kind: &str, id: i64, msg: String, cond: T) -> bool {
        let key = (kind.to_string(), id, msg.clone());
        if self.seen_viol.contains(&key) {
            return true;
        }
        match self.query_full(&st.pc, cond) {
            Res::Unsat => return false,
            Res::Unknown(e) => {
                self.out.errors.push(format!("undecided {} {} {}: {}", kind, id, msg, e));
                self.seen_viol.insert(key);
                return true;
            }
            Res::Sat(m) => {
                let mm: FxMap<u32, u128> = m.into_iter().collect();
                let inputs = self.inputs_of(st, &|i| mm.get(&i).copied().unwrap_or(0));
                self.seen_viol.insert(key);
                self.out.violations.push(Violation { kind: kind.into(), id, msg, inputs });
                true
            }
        }
    }

    fn assert_term(&mut self, st: &mut State, c: T, id: i64, msg: &str) -> R<()> {
        self.out.asserts += 1;
        if !self.out.assert_ids.contains(&id) {
            self.out.assert_ids.push(id);
        }
        if self.t.cv(c) == Some(1) {
            self.out.trivially += 1;
            return Ok(());
        }
        if st.pc.is_empty() {
            if self.asserted.contains_key(&c) {
                return Ok(());
            }
        }
        let n = self.t.not(c);
        match self.query(&st.pc.clone(), n) {
            Res::Unsat => {
                if st.pc.is_empty() {
                    self.asserted.insert(c, ());
                }
            }
            Res::Unknown(e) => {
                self.out.errors.push(format!("undecided assertion {} {}: {}", id, msg, e));
            }
            Res::Sat(_) => {
                self.violation(st, "assert", id, msg.to_string(), n);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ memory
    fn new_obj(&mut self, st: &mut State, size: u64, kind: OKind, base_off: u32, fill: T) -> u64 {
        let m = Rc::make_mut(&mut st.mem);
        let id = m.len() as u32;
        m.push(Some(Rc::new(Obj {
            size,
            data: vec![fill; size as usize],
            kind,
            readonly: false,
            base_off,
        })));
        obj_addr(id) + base_off as u64
    }

    /// split an address into object id and offset term; checks validity of the access [off, off+len)
    fn resolve(&mut self, st: &mut State, addr: T, len: u64, align: u32, write: bool) -> R<Option<(u32, Result<u64, T>)>> {
        let n = &self.t.n[addr as usize];
        let (lo, hi) = (n.ulo as u64, n.uhi as u64);
        let id = lo >> 32;
        let what = if write { "write" } else { "read" };
        if id != hi >> 32 {
            return Err(format!("address spans objects {:x}..{:x}", lo, hi));
        }
        let ok = (id as usize) < st.mem.len() && st.mem[id as usize].is_some();
        if !ok {
            if self.p.globals.get(id as usize).is_some_and(|g| g.external && id > 0) {
                return Err(format!("access to external global {}", self.p.globals[id as usize].name));
            }
            let one = self.t.c(1, 1);
            let loc = self.where_am_i(st);
            self.violation(st, "memory", 0, format!("invalid {} of {} bytes at {}", what, len, loc), one);
            return Ok(None);
        }
        let ob = st.mem[id as usize].as_ref().unwrap().clone();
        let base = obj_addr(id as u32) + ob.base_off as u64;
        if write && ob.readonly {
            let one = self.t.c(1, 1);
            let loc = self.where_am_i(st);
            self.violation(st, "memory", 1, format!("write to constant at {}", loc), one);
            return Ok(None);
        }
        if lo == hi {
            let bad_align = align > 1 && lo % align as u64 != 0;
            if lo < base || lo + len > base + ob.size || bad_align {
                let one = self.t.c(1, 1);
                let loc = self.where_am_i(st);
                let off = lo.wrapping_sub(base) as i64;
                let m = if bad_align {
                    format!("misaligned {} of {} bytes (align {}) in {}", what, len, align, loc)
                } else {
                    format!("out-of-bounds {} ({:?}) in {}", what, ob.kind, loc)
                };
                let _ = off;
                self.violation(st, "memory", 2, m, one);
                return Ok(None);
            }
            return Ok(Some((id as u32, Ok(lo - base))));
        }
        let off = self.t.addc(addr, -(base as i128));
        let (olo, ohi) = (self.t.n[off as usize].ulo, self.t.n[off as usize].uhi);
        if ohi + len as u128 > ob.size as u128 || olo > ohi {
            if len > ob.size {
                let one = self.t.c(1, 1);
                let loc = self.where_am_i(st);
                self.violation(st, "memory", 2, format!("out-of-bounds {} ({:?}) in {}", what, ob.kind, loc), one);
                return Ok(None);
            }
            let lim = self.t.c(64, (ob.size - len) as u128);
            let bad = self.t.ult(lim, off);
            match self.query(&st.pc.clone(), bad) {
                Res::Unsat => {}
                Res::Unknown(e) => return Err(format!("bounds query: {}", e)),
                Res::Sat(_) => {
                    let loc = self.where_am_i(st);
                    self.violation(st, "memory", 2, format!("out-of-bounds {} ({:?}) in {}", what, ob.kind, loc), bad);
                    let okc = self.t.not(bad);
                    if let Res::Unsat = self.query(&st.pc.clone(), okc) {
                        return Ok(None);
                    }
                    st.pc.push(okc);
                }
            }
        }
        Ok(Some((id as u32, Err(off))))
    }

    fn where_am_i(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(3) {
            if !s.is_empty() {
                s.push_str(" < ");
            }
            s.push_str(&short(&self.p.fn_names[f.f as usize]));
        }
        s
    }

    fn bytes_to(&mut self, b: &[T], bits: u16) -> T {
        // little endian bytes -> term
        if b.len() == 1 {
            let t = if b[0] == UNINIT { self.undef(8) } else { b[0] };
            return if bits == 8 { t } else { self.t.extract(t, 0, bits) };
        }
        let mut parts = Vec::with_capacity(b.len());
        for &x in b.iter().rev() {
            parts.push(if x == UNINIT { self.undef(8) } else { x });
        }
        let t = self.t.concat(&parts);
        if self.t.w(t) == bits {
            t
        } else {
            self.t.extract(t, 0, bits)
        }
    }
    fn to_bytes(&mut self, t: T, bits: u16, out: &mut Vec<T>) {
        let nb = (bits as usize).div_ceil(8);
        let t = if bits % 8 != 0 { self.t.zext(t, (nb * 8) as u16) } else { t };
        if nb == 1 {
            out.push(t);
            return;
        }
        for i in 0..nb {
            let e = self.t.extract(t, (8 * i) as u16, 8);
            out.push(e);
        }
    }

    /// candidate offsets for a symbolic offset
    fn candidates(&mut self, off: T, size: u64, len: u64) -> (u64, u64, u64) {
        let n = &self.t.n[off as usize];
        let lo = n.ulo as u64;
        let hi = (n.uhi as u64).min(size.saturating_sub(len));
        let step = self.gran(off);
        (lo, hi, step)
    }
    /// power of two dividing (t - ulo)
    fn gran(&self, t: T) -> u64 {
        let tz = |k: u128| if k == 0 { 63 } else { k.trailing_zeros().min(63) };
        let g = match self.t.op(t) {
            Op::Lin(_, ts) => {
                let mut g = 63;
                for (k, a) in ts.iter() {
                    let at = match self.t.op(*a) {
                        Op::Concat(p) => {
                            let l = *p.last().unwrap();
                            if self.t.cv(l) == Some(0) {
                                self.t.w(l) as u32
                            } else {
                                0
                            }
                        }
                        _ => 0,
                    };
                    g = g.min(tz(*k) + at);
                }
                g
            }
            Op::Concat(p) => {
                let l = *p.last().unwrap();
                if self.t.cv(l) == Some(0) {
                    self.t.w(l) as u32
                } else {
                    0
                }
            }
            _ => 0,
        };
        1 << g.min(62)
    }

    fn load_bytes(&mut self, st: &mut State, addr: T, len: u64, align: u32) -> R<Option<Vec<T>>> {
        if len == 0 {
            return Ok(Some(vec![]));
        }
        let r = match self.resolve(st, addr, len, align, false)? {
            None => return Ok(None),
            Some(x) => x,
        };
        let ob = st.mem[r.0 as usize].as_ref().unwrap().clone();
        match r.1 {
            Ok(off) => Ok(Some(ob.data[off as usize..(off + len) as usize].to_vec())),
            Err(off) => {
                let (lo, hi, step) = self.candidates(off, ob.size, len);
                let cnt = if hi >= lo { (hi - lo) / step + 1 } else { 0 };
                if cnt > 70_000 || cnt == 0 {
                    return Err(format!("symbolic read over {} offsets in {}", cnt, self.where_am_i(st)));
                }
                let mut out = vec![];
                for b in 0..len {
                    let mut leaves: Vec<T> = vec![];
                    for k in 0..cnt {
                        let x = ob.data[(lo + k * step + b) as usize];
                        leaves.push(if x == UNINIT { self.undef(8) } else { x });
                    }
                    out.push(leaves);
                }
                // join bytes so that ite trees are over whole values
                let w = (8 * len) as u16;
                if len <= 8 {
                    let vals: Vec<T> = (0..cnt as usize)
                        .map(|k| {
                            let b: Vec<T> = out.iter().map(|l| l[k]).collect();
                            self.bytes_to(&b, w)
                        })
                        .collect();
                    let v = match self.mux_var(off, lo, step, &vals) {
                        Some(v) => v,
                        None => self.mux(off, lo, step, &vals),
                    };
                    let mut r = vec![];
                    self.to_bytes(v, w, &mut r);
                    Ok(Some(r))
                } else {
                    let mut r = vec![];
                    for l in out {
                        r.push(self.mux(off, lo, step, &l));
                    }
                    Ok(Some(r))
                }
            }
        }
    }
    /// a table read whose index is a function of one small variable: the table over that variable
    fn mux_var(&mut self, off: T, lo: u64, step: u64, vals: &[T]) -> Option<T> {
        let vs = self.vset(off);
        if vs.len() != 1 {
            return None;
        }
        let (id, var) = (vs[0], self.var_term(off)?);
        let n = self.t.w(var);
        if n > 8 {
            return None;
        }
        let mut l = vec![];
        for k in 0..1u128 << n {
            let mut memo = FxMap::default();
            let o = self.t.eval(off, &|v| if v == id { k } else { 0 }, &mut memo)? as u64;
            // indices beyond the table cannot be reached (checked before)
            let j = (o.wrapping_sub(lo) / step) as usize;
            l.push(vals[j.min(vals.len() - 1)]);
        }
        // where the table is close to the identity: its index plus a few steps
        let w = self.t.w(l[0]);
        let d: Option<Vec<i128>> = l.iter().enumerate().map(|(k, &v)| self.t.cv(v).map(|v| v as i128 - k as i128)).collect();
        if let Some(d) = d {
            if w >= n {
                let runs = d.windows(2).filter(|p| p[0] != p[1]).count();
                if std::env::var("VP_MUX").is_ok() {
                    eprintln!("mux_var runs {} w {} n {} first {:?}", runs, w, n, &d[..10]);
                }
                if runs <= 24 {
                    let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
                    let mut c = self.t.c(w, d[d.len() - 1] as u128 & m);
                    for k in (1..d.len()).rev() {
                        if d[k] != d[k - 1] {
                            let at = self.t.c(n, k as u128);
                            let b = self.t.ult(var, at);
                            let e = self.t.c(w, d[k - 1] as u128 & m);
                            c = self.t.ite(b, e, c);
                        }
                    }
                    let z = self.t.zext(var, w);
                    return Some(self.t.add(z, c));
                }
            }
        }
        let z = self.t.zext(var, 64);
        Some(self.mux(z, 0, 1, &l))
    }
    fn var_term(&self, t: T) -> Option<T> {
        let mut seen: FxMap<T, ()> = FxMap::default();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_none() {
                if let Op::Var(_) = self.t.n[x as usize].op {
                    return Some(x);
                }
                self.t.children(x, &mut |c| st.push(c));
            }
        }
        None
    }
    fn mux(&mut self, off: T, lo: u64, step: u64, vals: &[T]) -> T {
        if vals.len() == 1 || vals.iter().all(|&v| v == vals[0]) {
            return vals[0];
        }
        let mid = vals.len() / 2;
        let k = self.t.c(64, (lo + step * mid as u64) as u128);
        let c = self.t.ult(off, k);
        let a = self.mux(off, lo, step, &vals[..mid]);
        let b = self.mux(off, lo + step * mid as u64, step, &vals[mid..]);
        self.t.ite(c, a, b)
    }

    fn store_bytes(&mut self, st: &mut State, addr: T, bytes: &[T], align: u32) -> R<bool> {
        let len = bytes.len() as u64;
        if len == 0 {
            return Ok(true);
        }
        let r = match self.resolve(st, addr, len, align, true)? {
            None => return Ok(false),
            Some(x) => x,
        };
        match r.1 {
            Ok(off) => {
                let m = Rc::make_mut(&mut st.mem);
                let ob = Rc::make_mut(m[r.0 as usize].as_mut().unwrap());
                ob.data[off as usize..(off + len) as usize].copy_from_slice(bytes);
            }
            Err(off) => {
                let size = st.mem[r.0 as usize].as_ref().unwrap().size;
                let (lo, hi, step) = self.candidates(off, size, len);
                let cnt = if hi >= lo { (hi - lo) / step + 1 } else { 0 };
                if cnt > 4096 || cnt == 0 {
                    return Err(format!("symbolic write over {} offsets", cnt));
                }
                for k in 0..cnt {
                    let o = lo + k * step;
                    let kc = self.t.c(64, o as u128);
                    let c = self.t.eq(off, kc);
                    for (b, &v) in bytes.iter().enumerate() {
                        let old = st.mem[r.0 as usize].as_ref().unwrap().data[o as usize + b];
                        let old = if old == UNINIT { self.undef(8) } else { old };
                        let v = if v == UNINIT { self.undef(8) } else { v };
                        let nv = self.t.ite(c, v, old);
                        let m = Rc::make_mut(&mut st.mem);
                        let ob = Rc::make_mut(m[r.0 as usize].as_mut().unwrap());
                        ob.data[o as usize + b] = nv;
                    }
                }
            }
        }
        Ok(true)
    }

    fn load_val(&mut self, st: &mut State, addr: T, l: &Lay, align: u32) -> R<Option<Val>> {
        let b = match self.load_bytes(st, addr, l.size as u64, align)? {
            None => return Ok(None),
            Some(b) => b,
        };
        let mut e: Vec<T> = Vec::with_capacity(l.e.len());
        if l.packed {
            let w = l.e[0].1;
            let all = self.bytes_to(&b, (l.size * 8) as u16);
            for i in 0..l.e.len() {
                let x = self.t.extract(all, i as u16 * w, w);
                e.push(x);
            }
        } else {
            for &(o, bits) in &l.e {
                let nb = (bits as usize).div_ceil(8);
                let x = self.bytes_to(&b[o as usize..o as usize + nb], bits);
                e.push(x);
            }
        }
        Ok(Some(if l.scalar { Val::S(e[0]) } else { Val::V(e.into()) }))
    }
    fn store_val(&mut self, st: &mut State, addr: T, v: Val, l: &Lay, align: u32) -> R<bool> {
        let e: Vec<T> = match v {
            Val::S(t) => vec![t],
            Val::V(v) => v.to_vec(),
            Val::N => return Err("store of unset".into()),
        };
        if l.packed {
            let mut parts: Vec<T> = e.clone();
            parts.reverse();
            let mut all = self.t.concat(&parts);
            if self.t.w(all) < (l.size * 8) as u16 {
                all = self.t.zext(all, (l.size * 8) as u16);
            }
            let mut b = vec![];
            self.to_bytes(all, (l.size * 8) as u16, &mut b);
            return self.store_bytes(st, addr, &b, align);
        }
        let mut gaps = false;
        let mut pos = 0u32;
        for &(o, bits) in &l.e {
            if o != pos {
                gaps = true;
            }
            pos = o + (bits as u32).div_ceil(8);
        }
        if !gaps {
            let mut b = Vec::with_capacity(l.size as usize);
            for (i, &(_, bits)) in l.e.iter().enumerate() {
                self.to_bytes(e[i], bits, &mut b);
            }
            return self.store_bytes(st, addr, &b, align);
        }
        for (i, &(o, bits)) in l.e.iter().enumerate() {
            let mut b = vec![];
            self.to_bytes(e[i], bits, &mut b);
            let a = self.t.addc(addr, o as i128);
            if !self.store_bytes(st, a, &b, 1)? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    // ------------------------------------------------------------------ running
    pub fn run_job(&mut self, entry: u32) {
        let f = self.p.funcs[entry as usize].as_ref().unwrap();
        let st = State {
            frames: vec![Frame {
                f: entry,
                blk: 0,
                prev: u32::MAX,
                ip: 0,
                slots: vec![Val::N; f.nslots as usize],
                ret: 0,
                ret_scalar: true,
                allocas: vec![],
            }],
            mem: self.globals.clone(),
            pc: vec![],
            nd: vec![],
            outs: vec![],
            panic_ok: 0,
        };
        self.used.insert(entry, ());
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.out.paths >= self.o.max_paths {
                self.out.errors.push("path limit".into());
                break;
            }
            match self.run(st, None) {
                Ok(v) => {
                    for s in v {
                        self.path_done(&s);
                    }
                }
                Err(e) => {
                    self.out.errors.push(e);
                    break;
                }
            }
        }
        self.out.terms = self.t.n.len() as u64;
        let mut fs: Vec<String> = self.used.keys().map(|&f| short(&self.p.fn_names[f as usize])).collect();
        fs.sort();
        fs.dedup();
        self.out.funcs = fs;
    }

    fn path_done(&mut self, st: &State) {
        self.out.paths += 1;
        if self.out.traces.len() as u32 >= self.o.traces || st.outs.is_empty() {
            return;
        }
        // a concrete input of this path, predicted outputs
        let mut seed = self.o.seed ^ (self.out.paths.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for attempt in 0..8 {
            let mut vals: FxMap<u32, u128> = FxMap::default();
            for i in 0..self.t.nvars {
                let r = rnd();
                let v = match (attempt, r & 7) {
                    (0, 0) => 0u128,
                    (0, 1) => u128::MAX,
                    _ => ((r as u128) << 64) | rnd() as u128 | ((r as u128) >> 3),
                };
                vals.insert(i, v);
            }
            if attempt == 7 {
                let one = self.t.c(1, 1);
                if let Res::Sat(m) = self.query_full(&st.pc.clone(), one) {
                    for (k, v) in m {
                        vals.insert(k, v);
                    }
                }
            }
            let env = |i: u32| vals.get(&i).copied().unwrap_or(0);
            let mut memo = FxMap::default();
            if !st.pc.iter().all(|&p| self.t.eval(p, &env, &mut memo) == Some(1)) {
                continue;
            }
            let inputs = self.inputs_of(st, &env);
            let mut outs = vec![];
            let mut ok = true;
            for (tag, ts) in &st.outs {
                let mut b = vec![];
                for &x in ts {
                    match if x == UNINIT { Some(0) } else { self.t.eval(x, &env, &mut memo) } {
                        Some(v) => b.push(v as u8),
                        None => {
                            ok = false;
                            b.push(0)
                        }
                    }
                }
                outs.push((*tag, b));
            }
            if ok {
                self.out.traces.push((inputs, outs));
            }
            return;
        }
    }

    /// runs until the path ends or (if stop is set) control enters block stop.1 at frame depth stop.0
    fn run(&mut self, st: State, stop: Option<(usize, u32)>) -> R<Vec<State>> {
        let mut done = vec![];
        let mut local = vec![st];
        while let Some(mut st) = local.pop() {
            loop {
                let (f, blk, ip) = {
                    let fr = st.frames.last().unwrap();
                    (fr.f, fr.blk, fr.ip)
                };
                let func = self.p.funcs[f as usize].as_ref().unwrap();
                let b = &func.blocks[blk as usize];
                if (ip as usize) < b.insts.len() {
                    self.out.steps += 1;
                    if self.out.steps & 0xfff == 0 {
                        if self.out.steps > self.o.max_steps {
                            return Err("step limit".into());
                        }
                        if std::time::Instant::now() > self.o.deadline {
                            return Err("time limit".into());
                        }
                    }
                    st.frames.last_mut().unwrap().ip += 1;
                    match self.inst(&mut st, &b.insts[ip as usize], &mut local, stop)? {
                        Flow::Next | Flow::Jump => continue,
                        Flow::End => break,
                    }
                }
                // terminator
                self.out.blocks += 1;
                match &b.term {
                    Termi::Br(n) => {
                        self.enter(&mut st, *n)?;
                    }
                    Termi::Cond(c, a, bb) => {
                        if st.panic_ok == 2 {
                            let (pa, pb) = (self.overflow_panic(func, *a), self.overflow_panic(func, *bb));
                            if pa != pb {
                                self.enter(&mut st, if pa { *bb } else { *a })?;
                                continue;
                            }
                        }
                        let c = self.sc(&st, *c)?;
                        if let Some(v) = self.t.cv(c) {
                            self.enter(&mut st, if v == 1 { *a } else { *bb })?;
                        } else {
                            let nc = self.t.not(c);
                            let pc = st.pc.clone();
                            let ft = self.feasible(&pc, c)?;
                            let ff = if ft { self.feasible(&pc, nc)? } else { true };
                            if ft && ff {
                                let ip = func.ipdom[blk as usize];
                                match self.branch(st, c, *a, *bb, ip, stop)? {
                                    (mut v, true) => {
                                        // merged or sub-run states: continue them
                                        local.append(&mut v);
                                        // states already at our own stop
                                        let mut rest = vec![];
                                        for s in local.drain(..) {
                                            if self.at_stop(&s, stop) {
                                                done.push(s)
                                            } else {
                                                rest.push(s)
                                            }
                                        }
                                        local = rest;
                                    }
                                    (v, false) => {
                                        for s in v {
                                            if self.at_stop(&s, stop) {
                                                done.push(s)
                                            } else {
                                                local.push(s)
                                            }
                                        }
                                    }
                                }
                                break;
                            } else {
                                self.enter(&mut st, if ft { *a } else { *bb })?;
                            }
                        }
                    }
                    Termi::Switch(c, d, cs) => {
                        let c = self.sc(&st, *c)?;
                        if let Some(v) = self.t.cv(c) {
                            let t = cs.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*d);
                            self.enter(&mut st, t)?;
                        } else {
                            let w = self.t.w(c);
                            let mut none = self.t.c(1, 1);
                            let pc = st.pc.clone();
                            for &(k, tgt) in cs {
                                let kc = self.t.c(w, k);
                                let e = self.t.eq(c, kc);
                                let ne = self.t.not(e);
                                none = self.t.and(none, ne);
                                if self.feasible(&pc, e)? {
                                    let mut s2 = st.clone();
                                    s2.pc.push(e);
                                    self.enter(&mut s2, tgt)?;
                                    self.out.forks += 1;
                                    if self.at_stop(&s2, stop) {
                                        done.push(s2)
                                    } else {
                                        local.push(s2);
                                    }
                                }
                            }
                            if self.feasible(&pc, none)? {
                                st.pc.push(none);
                                self.enter(&mut st, *d)?;
                                if self.at_stop(&st, stop) {
                                    done.push(st)
                                } else {
                                    local.push(st);
                                }
                            }
                            break;
                        }
                    }
                    Termi::Ret(v) => {
                        let rv = match v {
                            Some(o) => self.get(&st, *o),
                            None => Val::N,
                        };
                        let fr = st.frames.pop().unwrap();
                        if !fr.allocas.is_empty() {
                            let m = Rc::make_mut(&mut st.mem);
                            for a in fr.allocas {
                                m[a as usize] = None;
                            }
                            while m.len() > self.globals.len() && m.last().unwrap().is_none() {
                                m.pop();
                            }
                        }
                        if st.frames.is_empty() {
                            done.push(st);
                            break;
                        }
                        if !matches!(rv, Val::N) {
                            self.set(&mut st, fr.ret, rv);
                        }
                        continue;
                    }
                    Termi::Unreachable => {
                        let one = self.t.c(1, 1);
                        let loc = self.where_am_i(&st);
                        self.violation(&st, "unreachable", 0, format!("unreachable code reached in {}", loc), one);
                        break;
                    }
                    Termi::Bad(s) => return Err(format!("terminator {}", s)),
                }
                if self.at_stop(&st, stop) {
                    done.push(st);
                    break;
                }
            }
        }
        Ok(done)
    }

    fn at_stop(&self, st: &State, stop: Option<(usize, u32)>) -> bool {
        match stop {
            None => st.frames.is_empty(),
            Some((d, b)) => {
                st.frames.len() == d && {
                    let f = st.frames.last().unwrap();
                    f.blk == b && f.ip == 0
                }
            }
        }
    }

    fn feasible(&mut self, pc: &[T], c: T) -> R<bool> {
        match self.query(pc, c) {
            Res::Unsat => Ok(false),
            Res::Sat(_) => Ok(true),
            Res::Unknown(e) => Err(format!("undecided branch: {}", e)),
        }
    }

    fn enter(&mut self, st: &mut State, n: u32) -> R<()> {
        let (f, blk) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk)
        };
        let b = &self.p.funcs[f as usize].as_ref().unwrap().blocks[n as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|x| x.0 == blk).ok_or("phi")?.1;
                vals.push((*d, self.get(st, o)));
            }
            for (d, v) in vals {
                self.set(st, d, v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.prev = blk;
        fr.blk = n;
        fr.ip = 0;
        Ok(())
    }

    /// block that does nothing but raise rustc's arithmetic overflow panic
    fn overflow_panic(&self, f: &Func, b: u32) -> bool {
        let mut b = b;
        for _ in 0..3 {
            let k = &f.blocks[b as usize];
            for i in &k.insts {
                match i {
                    Inst::Call(_, Callee::Ext(n), ..) => {
                        let n = &self.p.exts[*n as usize];
                        return n.contains("panic_const_") && n.contains("_overflow");
                    }
                    _ => {}
                }
            }
            match k.term {
                Termi::Br(n) if k.insts.is_empty() => b = n,
                _ => return false,
            }
        }
        false
    }

    /// Both sides feasible. Tries to run both to the immediate post-dominator and merge.
    fn branch(&mut self, st: State, c: T, a: u32, b: u32, ip: u32, _stop: Option<(usize, u32)>) -> R<(Vec<State>, bool)> {
        let nc = self.t.not(c);
        let key = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk)
        };
        let mut s1 = st.clone();
        s1.pc.push(c);
        let mut s2 = st.clone();
        s2.pc.push(nc);
        self.enter(&mut s1, a)?;
        self.enter(&mut s2, b)?;
        let fails = self.merge_fail.get(&key).copied().unwrap_or(0);
        if ip == u32::MAX || fails >= 3 || self.depth > 60 {
            self.out.forks += 1;
            return Ok((vec![s2, s1], false));
        }
        let d = st.frames.len();
        let mut res = vec![];
        self.depth += 1;
        let nv = self.out.paths;
        for s in [s1, s2] {
            if self.at_stop(&s, Some((d, ip))) {
                res.push(s);
            } else {
                let mut r = self.run(s, Some((d, ip)))?;
                res.append(&mut r);
            }
        }
        self.depth -= 1;
        let _ = nv;
        if res.is_empty() {
            return Ok((vec![], true));
        }
        // merge greedily
        let base = st.pc.len();
        let mut out: Vec<State> = vec![];
        for s in res {
            let mut placed = false;
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, &s, base) {
                    *o = m;
                    placed = true;
                    self.out.merges += 1;
                    break;
                }
            }
            if !placed {
                out.push(s);
            }
        }
        if out.len() > 1 {
            *self.merge_fail.entry(key).or_insert(0) += 1;
            self.out.forks += 1;
        }
        Ok((out, true))
    }

    fn merge(&mut self, a: &State, b: &State, base: usize) -> Option<State> {
        if a.frames.len() != b.frames.len()
            || a.nd.len() != b.nd.len()
            || a.outs.len() != b.outs.len()
            || a.panic_ok != b.panic_ok
        {
            return None;
        }
        let k = a.frames.len();
        {
            let (fa, fb) = (&a.frames[k - 1], &b.frames[k - 1]);
            if fa.f != fb.f || fa.blk != fb.blk || fa.ip != fb.ip || fa.allocas != fb.allocas {
                return None;
            }
        }
        let mut ca = self.t.c(1, 1);
        for &x in &a.pc[base..] {
            ca = self.t.and(ca, x);
        }
        let mut cb = self.t.c(1, 1);
        for &x in &b.pc[base..] {
            cb = self.t.and(cb, x);
        }
        let mut r = a.clone();
        // slots of the top frame (outer frames cannot have changed)
        {
            let fb = &b.frames[k - 1];
            for i in 0..fb.slots.len() {
                let va = r.frames[k - 1].slots[i].clone();
                let nv = match (&va, &fb.slots[i]) {
                    (Val::S(x), Val::S(y)) => {
                        if x == y {
                            continue;
                        }
                        if self.t.w(*x) != self.t.w(*y) {
                            return None;
                        }
                        if self.is_ptrish(*x) != self.is_ptrish(*y) || (self.is_ptrish(*x) && !self.same_obj(*x, *y)) {
                            // values that may be dead after the join: keep unmerged marker
                            Val::N
                        } else {
                            Val::S(self.t.ite(ca, *x, *y))
                        }
                    }
                    (Val::V(x), Val::V(y)) => {
                        if Rc::ptr_eq(x, y) || x == y {
                            continue;
                        }
                        if x.len() != y.len() {
                            return None;
                        }
                        let z: Vec<T> = x.iter().zip(y.iter()).map(|(&p, &q)| self.t.ite(ca, p, q)).collect();
                        Val::V(z.into())
                    }
                    // set on one side only: not live after the join unless dominated, keep either
                    (Val::N, y) => (*y).clone(),
                    (_, Val::N) => continue,
                    _ => return None,
                };
                r.frames[k - 1].slots[i] = nv;
            }
        }
        // memory
        if !Rc::ptr_eq(&a.mem, &b.mem) {
            let n = a.mem.len().max(b.mem.len());
            let m = Rc::make_mut(&mut r.mem);
            while m.len() < n {
                m.push(None);
            }
            for i in 0..n {
                let oa = a.mem.get(i).cloned().flatten();
                let obj = b.mem.get(i).cloned().flatten();
                match (oa, obj) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if Rc::ptr_eq(&x, &y) {
                            continue;
                        }
                        if x.size != y.size || x.kind != y.kind {
                            return None;
                        }
                        let mut z = (*x).clone();
                        for j in 0..z.data.len() {
                            let (p, q) = (x.data[j], y.data[j]);
                            if p != q {
                                let p = if p == UNINIT { self.undef(8) } else { p };
                                let q = if q == UNINIT { self.undef(8) } else { q };
                                z.data[j] = self.t.ite(ca, p, q);
                            }
                        }
                        m[i] = Some(Rc::new(z));
                    }
                    _ => return None,
                }
            }
        }
        let or = self.t.or(ca, cb);
        r.pc.truncate(base);
        if self.t.cv(or) != Some(1) {
            r.pc.push(or);
        }
        Some(r)
    }
    fn is_ptrish(&self, t: T) -> bool {
        let n = &self.t.n[t as usize];
        n.w == 64 && n.ulo >= (1 << 32) && n.uhi < (1u128 << 63)
    }
    fn same_obj(&self, a: T, b: T) -> bool {
        let (x, y) = (&self.t.n[a as usize], &self.t.n[b as usize]);
        x.ulo >> 32 == y.uhi >> 32 && y.ulo >> 32 == x.uhi >> 32
    }

    fn shift(&mut self, o: Bop, a: T, b: T) -> T {
        self.t.bop(o, a, b)
    }

    fn inst(&mut self, st: &mut State, i: &Inst, local: &mut Vec<State>, stop: Option<(usize, u32)>) -> R<Flow> {
        match i {
            Inst::Bin(d, k, a, b) => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let v = match k {
                    BinK::Add => self.map2(x, y, &mut |t, x, y| t.add(x, y))?,
                    BinK::Sub => self.map2(x, y, &mut |t, x, y| t.sub(x, y))?,
                    BinK::B(o) => {
                        let o = *o;
                        if matches!(o, Bop::Shl | Bop::LShr | Bop::AShr) {
                            self.map2(x, y, &mut |t, x, y| t.bop(o, x, y))?
                        } else {
                            self.map2(x, y, &mut |t, x, y| t.bop(o, x, y))?
                        }
                    }
                };
                self.set(st, *d, v);
            }
            Inst::FBin(d, o, a, b) => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let o = *o;
                let v = self.map2(x, y, &mut |t, x, y| {
                    let w = t.w(x);
                    t.fop(o, w, &[x, y])
                })?;
                self.set(st, *d, v);
            }
            Inst::FNeg(d, a) => {
                let x = self.get(st, *a);
                let v = self.map1(x, &mut |t, x| {
                    let w = t.w(x);
                    let m = t.c(w, 1u128 << (w - 1));
                    t.bop(Bop::Xor, x, m)
                })?;
                self.set(st, *d, v);
            }
            Inst::ICmp(d, p, a, b) => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let p = *p;
                let v = self.map2(x, y, &mut |t, x, y| icmp(t, p, x, y))?;
                self.set(st, *d, v);
            }
            Inst::FCmp(d, p, a, b) => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let p = *p;
                let v = self.map2(x, y, &mut |t, x, y| fcmp(t, p, x, y))?;
                self.set(st, *d, v);
            }
            Inst::Cast(d, k, w, a) => {
                let x = self.get(st, *a);
                let (k, w) = (*k, *w);
                let v = self.map1(x, &mut |t, x| match k {
                    CastK::Trunc => t.extract(x, 0, w),
                    CastK::ZExt => t.zext(x, w),
                    CastK::SExt => t.sext(x, w),
                    CastK::F(o) => t.fop(o, w, &[x]),
                })?;
                self.set(st, *d, v);
            }
            Inst::BitCast(d, scalar, w, n, a) => {
                let x = self.vecv(st, *a)?;
                let v = self.bitcast(&x, *w, *n);
                let v = if *scalar { Val::S(v[0]) } else { Val::V(v.into()) };
                self.set(st, *d, v);
            }
            Inst::Gep(d, b, off, idx) => {
                let base = self.sc(st, *b)?;
                let mut parts = vec![(1u128, base)];
                for (s, o) in idx {
                    let x = self.sc(st, *o)?;
                    let x = if self.t.w(x) < 64 { self.t.sext(x, 64) } else { x };
                    parts.push((*s as u128, x));
                }
                let r = self.t.lin(64, *off as u128, &parts);
                self.set(st, *d, Val::S(r));
            }
            Inst::Load(d, p, l, al) => {
                let a = self.sc(st, *p)?;
                match self.load_val(st, a, l, *al)? {
                    None => return Ok(Flow::End),
                    Some(v) => self.set(st, *d, v),
                }
            }
            Inst::Store(v, p, l, al) => {
                let a = self.sc(st, *p)?;
                let v = self.get(st, *v);
                if !self.store_val(st, a, v, l, *al)? {
                    return Ok(Flow::End);
                }
            }
            Inst::Alloca(d, size, al) => {
                let bo = if *al > 1 { 0 } else { 1 };
                let a = self.new_obj(st, *size, OKind::Stack, bo, UNINIT);
                let id = (a >> 32) as u32;
                st.frames.last_mut().unwrap().allocas.push(id);
                let t = self.t.c(64, a as u128);
                self.set(st, *d, Val::S(t));
            }
            Inst::Select(d, c, a, b) => {
                let c = self.get(st, *c);
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let v = match c {
                    Val::S(c) => {
                        if let Some(k) = self.t.cv(c) {
                            if k == 1 {
                                x
                            } else {
                                y
                            }
                        } else {
                            if let (Val::S(p), Val::S(q)) = (&x, &y) {
                                if self.is_ptrish(*p) && self.is_ptrish(*q) && !self.same_obj(*p, *q) {
                                    // pointer select between objects: fork
                                    let nc = self.t.not(c);
                                    let mut s2 = st.clone();
                                    s2.pc.push(nc);
                                    s2.frames.last_mut().unwrap().slots[*d as usize] = y;
                                    st.pc.push(c);
                                    self.set(st, *d, x);
                                    self.out.forks += 1;
                                    let _ = stop;
                                    local.push(s2);
                                    return Ok(Flow::Next);
                                }
                            }
                            self.map2(x, y, &mut |t, x, y| t.ite(c, x, y))?
                        }
                    }
                    Val::V(cv) => match (x, y) {
                        (Val::V(x), Val::V(y)) => {
                            let r: Vec<T> = (0..cv.len()).map(|i| self.t.ite(cv[i], x[i], y[i])).collect();
                            Val::V(r.into())
                        }
                        _ => return Err("select".into()),
                    },
                    Val::N => return Err("select".into()),
                };
                self.set(st, *d, v);
            }
            Inst::ExtElt(d, a, i) => {
                let x = self.vecv(st, *a)?;
                let i = self.sc(st, *i)?;
                match self.t.cv(i) {
                    Some(k) => self.set(st, *d, Val::S(x[k as usize])),
                    None => return Err("symbolic extractelement".into()),
                }
            }
            Inst::InsElt(d, a, e, i) => {
                let mut x = self.vecv(st, *a)?.to_vec();
                let i = self.sc(st, *i)?;
                let e = self.sc(st, *e)?;
                let k = self.t.cv(i).ok_or("symbolic insertelement")?;
                x[k as usize] = e;
                self.set(st, *d, Val::V(x.into()));
            }
            Inst::Shuf(d, a, b, m) => {
                let x = self.vecv(st, *a)?;
                let y = self.vecv(st, *b)?;
                let w = self.t.w(x[0]);
                let n = x.len() as i32;
                let mut r = Vec::with_capacity(m.len());
                for &k in m {
                    r.push(if k < 0 {
                        self.undef(w)
                    } else if k < n {
                        x[k as usize]
                    } else {
                        y[(k - n) as usize]
                    });
                }
                self.set(st, *d, Val::V(r.into()));
            }
            Inst::ExtVal(d, a, s, n, scalar) => {
                let x = self.vecv(st, *a)?;
                let v = if *scalar {
                    Val::S(x[*s as usize])
                } else {
                    Val::V(x[*s as usize..(*s + *n) as usize].to_vec().into())
                };
                self.set(st, *d, v);
            }
            Inst::InsVal(d, a, v, s) => {
                let mut x = self.vecv(st, *a)?.to_vec();
                let v = self.vecv(st, *v)?;
                for (i, &e) in v.iter().enumerate() {
                    x[*s as usize + i] = e;
                }
                self.set(st, *d, Val::V(x.into()));
            }
            Inst::Copy(d, a) => {
                let v = self.get(st, *a);
                self.set(st, *d, v);
            }
            Inst::Call(d, c, args, lay) => {
                let fid = match c {
                    Callee::Fn(f) => Ok(*f),
                    Callee::Ext(e) => Err(*e),
                    Callee::Ind(o) => {
                        let a = self.sc(st, *o)?;
                        let v = self.t.cv(a).ok_or("symbolic function pointer")? as u64;
                        let hi = v >> 32;
                        if hi >= EXT_ID {
                            Err((hi - EXT_ID) as u32)
                        } else if hi >= FN_ID {
                            Ok((hi - FN_ID) as u32)
                        } else {
                            let one = self.t.c(1, 1);
                            self.violation(st, "memory", 3, "call through invalid pointer".into(), one);
                            return Ok(Flow::End);
                        }
                    }
                };
                match fid {
                    Ok(f) => {
                        self.used.insert(f, ());
                        let func = self.p.funcs[f as usize].as_ref().unwrap();
                        let mut slots = vec![Val::N; func.nslots as usize];
                        for (i, a) in args.iter().enumerate() {
                            if (i as u32) < func.nparams {
                                slots[i] = self.get(st, *a);
                            }
                        }
                        if st.frames.len() > 400 {
                            return Err("call depth".into());
                        }
                        st.frames.push(Frame {
                            f,
                            blk: 0,
                            prev: u32::MAX,
                            ip: 0,
                            slots,
                            ret: *d,
                            ret_scalar: lay.scalar,
                            allocas: vec![],
                        });
                        return Ok(Flow::Jump);
                    }
                    Err(e) => return self.external(st, *d, e, args, lay, local),
                }
            }
            Inst::Rmw(d, op, p, v, l) => {
                let a = self.sc(st, *p)?;
                let old = match self.load_val(st, a, l, 1)? {
                    None => return Ok(Flow::End),
                    Some(Val::S(x)) => x,
                    _ => return Err("rmw".into()),
                };
                let x = self.sc(st, *v)?;
                let n = match op {
                    0 => x,
                    1 => self.t.add(old, x),
                    2 => self.t.sub(old, x),
                    3 => self.t.and(old, x),
                    5 => self.t.or(old, x),
                    6 => self.t.bop(Bop::Xor, old, x),
                    _ => return Err("rmw op".into()),
                };
                if !self.store_val(st, a, Val::S(n), l, 1)? {
                    return Ok(Flow::End);
                }
                self.set(st, *d, Val::S(old));
            }
            Inst::CmpXchg(d, p, c, n, l) => {
                let a = self.sc(st, *p)?;
                let old = match self.load_val(st, a, l, 1)? {
                    None => return Ok(Flow::End),
                    Some(Val::S(x)) => x,
                    _ => return Err("cmpxchg".into()),
                };
                let (c, n) = (self.sc(st, *c)?, self.sc(st, *n)?);
                let e = self.t.eq(old, c);
                let nv = self.t.ite(e, n, old);
                if !self.store_val(st, a, Val::S(nv), l, 1)? {
                    return Ok(Flow::End);
                }
                self.set(st, *d, Val::V(vec![old, e].into()));
            }
            Inst::Nop => {}
            Inst::Bad(s) => return Err(format!("unsupported instruction {}", s)),
        }
        Ok(Flow::Next)
    }

    fn bitcast(&mut self, x: &[T], w: u16, n: u32) -> Vec<T> {
        let sw = self.t.w(x[0]);
        if sw == w && x.len() == n as usize {
            return x.to_vec();
        }
        if sw > w && sw % w == 0 {
            let k = sw / w;
            let mut r = Vec::with_capacity(n as usize);
            for &e in x {
                for j in 0..k {
                    let y = self.t.extract(e, j * w, w);
                    r.push(y);
                }
            }
            return r;
        }
        if w > sw && w % sw == 0 {
            let k = (w / sw) as usize;
            let mut r = Vec::with_capacity(n as usize);
            for ch in x.chunks(k) {
                let mut p: Vec<T> = ch.to_vec();
                p.reverse();
                let y = self.t.concat(&p);
                r.push(y);
            }
            return r;
        }
        let mut p: Vec<T> = x.to_vec();
        p.reverse();
        let all = self.t.concat(&p);
        (0..n as u16).map(|i| self.t.extract(all, i * w, w)).collect()
    }

    /// value of t on this path; forks the other feasible values
    fn concretize(&mut self, st: &mut State, t: T, local: &mut Vec<State>) -> R<u64> {
        if let Some(v) = self.t.cv(t) {
            return Ok(v as u64);
        }
        let n = &self.t.n[t as usize];
        if n.ulo == n.uhi {
            return Ok(n.ulo as u64);
        }
        let one = self.t.c(1, 1);
        let m = match self.query_full(&st.pc.clone(), one) {
            Res::Sat(m) => m,
            Res::Unsat => return Err("infeasible path".into()),
            Res::Unknown(e) => return Err(e),
        };
        let mm: FxMap<u32, u128> = m.into_iter().collect();
        let mut memo = FxMap::default();
        let v = self.t.eval(t, &|i| mm.get(&i).copied().unwrap_or(0), &mut memo).ok_or("eval")?;
        let w = self.t.w(t);
        let k = self.t.c(w, v);
        let e = self.t.eq(t, k);
        let ne = self.t.not(e);
        let pc = st.pc.clone();
        if self.feasible(&pc, ne)? {
            let mut s2 = st.clone();
            s2.pc.push(ne);
            s2.frames.last_mut().unwrap().ip -= 1;
            self.out.forks += 1;
            if self.out.forks > 5000 {
                return Err("too many concretisations".into());
            }
            local.push(s2);
            st.pc.push(e);
        }
        Ok(v as u64)
    }

    fn panic_location(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::S(t) = a {
                if let Some(v) = self.t.cv(*t) {
                    let id = (v >> 32) as usize;
                    if id == 0 || id >= st.mem.len() {
                        continue;
                    }
                    if let Some(o) = &st.mem[id] {
                        if o.kind != OKind::Global || o.size != 24 {
                            continue;
                        }
                        let rd = |o: &Obj, a: usize, n: usize, t: &Terms| -> Option<u64> {
                            let mut x = 0u64;
                            for i in 0..n {
                                let b = o.data[a + i];
                                if b == UNINIT {
                                    return None;
                                }
                                x |= (t.cv(b)? as u64) << (8 * i);
                            }
                            Some(x)
                        };
                        let p = rd(o, 0, 8, &self.t);
                        let n = rd(o, 8, 8, &self.t);
                        let line = rd(o, 16, 4, &self.t);
                        if let (Some(p), Some(n), Some(line)) = (p, n, line) {
                            let fid = (p >> 32) as usize;
                            if fid > 0 && fid < st.mem.len() {
                                if let Some(fo) = &st.mem[fid] {
                                    if n <= fo.size {
                                        let s: Vec<u8> =
                                            fo.data[..n as usize].iter().map(|&b| self.t.cv(b).unwrap_or(63) as u8).collect();
                                        return format!("{}:{}", String::from_utf8_lossy(&s), line);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    /// value of a half float times 2^24 as a 64-bit integer (finite, non-negative ones; others give -1)
    fn f16_fixed(&mut self, h: T) -> T {
        let e = self.t.extract(h, 10, 6);
        let m = self.t.extract(h, 0, 10);
        let m = self.t.zext(m, 64);
        let one = self.t.c(64, 1);
        let e64 = self.t.zext(e, 64);
        let sh = self.t.sub(e64, one);
        let f = self.t.addc(m, 1024);
        let f = self.t.bop(Bop::Shl, f, sh);
        let z = self.t.c(6, 0);
        let c0 = self.t.eq(e, z);
        let v = self.t.ite(c0, m, f);
        let k = self.t.c(6, 31);
        let ok = self.t.ult(e, k);
        let bad = self.t.cs(64, -1);
        self.t.ite(ok, v, bad)
    }
    /// |h * 2^24 * max - n * 2^24| <= ppm / 10^6 * max * 2^24 + 1/2^24
    fn f16_close(&mut self, h: T, n: T, max: i128, ppm: i128) -> T {
        let x = self.f16_fixed(h);
        let k = self.t.cs(64, max);
        let a = self.t.mul(x, k);
        let g = self.t.cs(64, 1 << 24);
        let b = self.t.mul(n, g);
        let dd = self.t.sub(a, b);
        let tol = ppm * max * (1 << 24) / 1_000_000;
        let (hi, lo) = (self.t.cs(64, tol), self.t.cs(64, -tol));
        let c1 = self.t.sle(dd, hi);
        let c2 = self.t.sle(lo, dd);
        self.t.and(c1, c2)
    }
    fn f16_leaves(&self, t: T, out: &mut Vec<(FOp, T)>) -> bool {
        match self.t.op(t) {
            Op::Const(_) => true,
            Op::F(o @ (FOp::FromU | FOp::FromS), a) => {
                if !out.contains(&(*o, a[0])) {
                    out.push((*o, a[0]));
                }
                true
            }
            Op::F(_, a) => {
                let a = a.clone();
                a.iter().all(|&x| self.f16_leaves(x, out))
            }
            _ => false,
        }
    }
    fn f16_subst(&mut self, t: T, n: T, v: T) -> T {
        match self.t.op(t).clone() {
            Op::F(o, a) => {
                let w = self.t.w(t);
                let a: Vec<T> = a.iter().map(|&x| if matches!(o, FOp::FromU | FOp::FromS) { if x == n { v } else { x } } else { self.f16_subst(x, n, v) }).collect();
                self.t.fop(o, w, &a)
            }
            _ => t,
        }
    }
    /// the integer n of which the half float h is the image f(n), f being float arithmetic that a lemma
    /// (for all n in 0..=max) shows to be n / max within ppm millionths
    fn f16_int(&mut self, st: &mut State, h: T, max: i128, ppm: i128, id: i64) -> R<T> {
        if let Some(v) = self.t.cv(h) {
            let x = crate::fp::f16_to_f32(v as u16) as f64 * max as f64;
            return Ok(self.t.cs(64, x.round() as i128));
        }
        if let Op::Ite(c, a, b) = *self.t.op(h) {
            let x = self.f16_int(st, a, max, ppm, id)?;
            let y = self.f16_int(st, b, max, ppm, id)?;
            return Ok(self.t.ite(c, x, y));
        }
        let mut l = vec![];
        if !self.f16_leaves(h, &mut l) || l.len() != 1 {
            return Err(format!("half float is not a function of one integer ({} operands)", l.len()));
        }
        let (o, n) = l[0];
        let w = self.t.w(n);
        let m = if w >= 64 { self.t.extract(n, 0, 64) } else if o == FOp::FromU { self.t.zext(n, 64) } else { self.t.sext(n, 64) };
        let z = self.t.cs(64, 0);
        let k = self.t.cs(64, max);
        let c1 = self.t.sle(z, m);
        let c2 = self.t.sle(m, k);
        let c = self.t.and(c1, c2);
        self.assert_term(st, c, id, "half float outside 0..1")?;
        // lemma over a fresh integer
        let bits = 128 - (max as u128).leading_zeros() as u16;
        if w < bits {
            return Err("half float of a narrow integer".into());
        }
        let v = match self.f16_vars.iter().find(|x| x.0 == bits) {
            Some(x) => x.1,
            None => {
                let v = self.t.var(bits);
                self.f16_vars.push((bits, v));
                v
            }
        };
        let vw = self.t.zext(v, w);
        let g = self.f16_subst(h, n, vw);
        let v64 = self.t.zext(v, 64);
        let close = self.f16_close(g, v64, max, ppm);
        let ok = match self.f16_done.get(&close) {
            Some(&x) => x,
            None => {
                let top = self.t.c(bits, max as u128);
                let inr = self.t.ule(v, top);
                let nc = self.t.not(close);
                let r = match self.solver.check(&self.t, &[inr, nc]) {
                    Res::Unsat => true,
                    Res::Sat(_) => false,
                    Res::Unknown(e) => return Err(format!("undecided half float lemma: {}", e)),
                };
                self.out.asserts += 1;
                self.f16_done.insert(close, r);
                r
            }
        };
        if !ok {
            let c = self.f16_close(h, m, max, ppm);
            self.assert_term(st, c, id, "half float is not the integer divided by the maximum")?;
        }
        Ok(m)
    }

    fn external(&mut self, st: &mut State, d: Slot, e: u32, args: &[Opnd], lay: &Lay, local: &mut Vec<State>) -> R<Flow> {
        let x = self.exts[e as usize];
        let p = self.p;
        let name = &p.exts[e as usize];
        macro_rules! s {
            ($k:expr) => {
                self.sc(st, args[$k])?
            };
        }
        macro_rules! cst {
            ($k:expr) => {{
                let t = self.sc(st, args[$k])?;
                self.concretize(st, t, local)?
            }};
        }
        macro_rules! v {
            ($k:expr) => {
                self.get(st, args[$k])
            };
        }
        macro_rules! vv {
            ($k:expr) => {
                self.vecv(st, args[$k])?
            };
        }
        macro_rules! bin {
            ($f:expr) => {{
                let (a, b) = (v!(0), v!(1));
                let r = self.map2(a, b, &mut $f)?;
                self.set(st, d, r);
            }};
        }
        macro_rules! fun {
            ($o:expr) => {{
                let a = v!(0);
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    t.fop($o, w, &[x])
                })?;
                self.set(st, d, r);
            }};
        }
        match x {
            X::Unknown => return Err(format!("external function {} called from {}", name, self.where_am_i(st))),
            X::Nop => {}
            X::Trap | X::Panic => {
                if st.panic_ok != 0 {
                    self.out.paths += 1;
                    return Ok(Flow::End);
                }
                let av: Vec<Val> = args.iter().map(|a| self.get(st, *a)).collect();
                let loc = self.panic_location(st, &av);
                let wh = self.where_am_i(st);
                let one = self.t.c(1, 1);
                self.violation(st, "panic", 0, format!("panic ({}) at {} in {}", short(name), loc, wh), one);
                self.out.paths += 1;
                return Ok(Flow::End);
            }
            X::Sym8 | X::Sym16 => {
                let ptr = s!(0);
                let n = cst!(1);
                let mut bytes = vec![];
                let mut vars = vec![];
                let tag;
                if x == X::Sym8 {
                    tag = cst!(2) as u32;
                    for _ in 0..n {
                        let v = self.t.var(8);
                        vars.push(v);
                        bytes.push(v);
                    }
                } else {
                    let bits = cst!(2) as u16;
                    tag = cst!(3) as u32;
                    for _ in 0..n {
                        let v = self.t.var(bits);
                        vars.push(v);
                        let z = self.t.zext(v, 16);
                        self.to_bytes(z, 16, &mut bytes);
                    }
                }
                st.nd.push(Nd::Sym(tag, vars));
                if !self.store_bytes(st, ptr, &bytes, 1)? {
                    return Ok(Flow::End);
                }
            }
            X::SymU32 => {
                let (lo, hi, tag) = (cst!(0) as u32, cst!(1) as u32, cst!(2) as u32);
                let span = (hi - lo) as u128;
                if span == 0 {
                    let r = self.t.c(32, lo as u128);
                    self.set(st, d, Val::S(r));
                    st.nd.push(Nd::Sym(tag, vec![r]));
                    return Ok(Flow::Next);
                }
                let bits = (128 - span.leading_zeros()) as u16;
                let v = self.t.var(bits);
                let z = self.t.zext(v, 32);
                let r = self.t.addc(z, lo as i128);
                if span + 1 != 1u128 << bits {
                    let k = self.t.c(bits, span);
                    let c = self.t.ule(v, k);
                    st.pc.push(c);
                }
                st.nd.push(Nd::Sym(tag, vec![r]));
                self.set(st, d, Val::S(r));
            }
            X::SymU64 => {
                let tag = cst!(0) as u32;
                let v = self.t.var(64);
                st.nd.push(Nd::Sym(tag, vec![v]));
                self.set(st, d, Val::S(v));
            }
            X::Pick => {
                let (lo, hi, tag) = (cst!(0) as i64, cst!(1) as i64, cst!(2) as u32);
                for k in (lo + 1..=hi).rev() {
                    let mut s2 = st.clone();
                    s2.nd.push(Nd::Pick(tag, k as i128));
                    let t = self.t.cs(64, k as i128);
                    s2.frames.last_mut().unwrap().slots[d as usize] = Val::S(t);
                    local.push(s2);
                }
                st.nd.push(Nd::Pick(tag, lo as i128));
                let t = self.t.cs(64, lo as i128);
                self.set(st, d, Val::S(t));
            }
            X::Assume | X::LAssume => {
                let c = s!(0);
                let c = if self.t.w(c) == 1 {
                    c
                } else {
                    let z = self.t.c(self.t.w(c), 0);
                    let e = self.t.eq(c, z);
                    self.t.not(e)
                };
                if x == X::Assume {
                    match self.t.cv(c) {
                        Some(1) => {}
                        Some(_) => return Ok(Flow::End),
                        None => {
                            let pc = st.pc.clone();
                            if !self.feasible(&pc, c)? {
                                return Ok(Flow::End);
                            }
                            st.pc.push(c);
                        }
                    }
                }
            }
            X::Assert => {
                let c = s!(0);
                let c = if self.t.w(c) == 1 {
                    c
                } else {
                    let z = self.t.c(self.t.w(c), 0);
                    let e = self.t.eq(c, z);
                    self.t.not(e)
                };
                let id = cst!(1) as i64;
                self.assert_term(st, c, id, "assertion")?;
            }
            X::Near => {
                // |a-b| <= tol ; i64 a, b, tol
                let (a, b) = (s!(0), s!(1));
                let tol = cst!(2) as i64;
                let id = cst!(3) as i64;
                let dd = self.t.sub(a, b);
                let hi = self.t.cs(64, tol as i128);
                let lo = self.t.cs(64, -(tol as i128));
                let c1 = self.t.sle(dd, hi);
                let c2 = self.t.sle(lo, dd);
                self.assert_term(st, c1, id, "not above")?;
                self.assert_term(st, c2, id, "not below")?;
            }
            X::Between => {
                let (a, lo, hi) = (s!(0), s!(1), s!(2));
                let id = cst!(3) as i64;
                let c1 = self.t.sle(a, hi);
                let c2 = self.t.sle(lo, a);
                self.assert_term(st, c1, id, "not above")?;
                self.assert_term(st, c2, id, "not below")?;
            }
            X::Cpu => {
                let v = cst!(0) | (1 << 63);
                for i in 1..self.p.globals.len() {
                    let gl = &self.p.globals[i];
                    if gl.name.contains("std_detect") && gl.name.contains("CACHE") {
                        let m = Rc::make_mut(&mut st.mem);
                        let o = Rc::make_mut(m[i].as_mut().unwrap());
                        for b in 0..8 {
                            o.data[b] = ((v >> (8 * b)) & 255) as T;
                        }
                    }
                }
            }
            X::Same => {
                let (a, b) = (s!(0), s!(1));
                let n = cst!(2);
                let id = cst!(3) as i64;
                let x = match self.load_bytes(st, a, n, 1)? {
                    Some(x) => x,
                    None => return Ok(Flow::End),
                };
                let y = match self.load_bytes(st, b, n, 1)? {
                    Some(x) => x,
                    None => return Ok(Flow::End),
                };
                for i in 0..n as usize {
                    let p = if x[i] == UNINIT { self.undef(8) } else { x[i] };
                    let q = if y[i] == UNINIT { self.undef(8) } else { y[i] };
                    let c = self.t.eq(p, q);
                    self.assert_term(st, c, id, "bytes equal")?;
                }
            }
            X::Param => {
                let k = cst!(0) as usize;
                let v = self.o.params.get(k).copied().unwrap_or(0);
                let t = self.t.cs(64, v as i128);
                self.set(st, d, Val::S(t));
            }
            X::Reach => {
                let id = cst!(0) as i64;
                if !self.out.reach.contains(&id) {
                    let one = self.t.c(1, 1);
                    match self.query_full(&st.pc.clone(), one) {
                        Res::Sat(_) => self.out.reach.push(id),
                        Res::Unsat => {}
                        Res::Unknown(e) => return Err(e),
                    }
                }
            }
            X::Alloc => {
                let (n, al) = (cst!(0), cst!(1));
                let a = self.new_obj(st, n, OKind::Harness, al as u32, UNINIT);
                let t = self.t.c(64, a as u128);
                self.set(st, d, Val::S(t));
            }
            X::Out => {
                let ptr = s!(0);
                let n = cst!(1);
                let tag = cst!(2) as u32;
                match self.load_bytes(st, ptr, n, 1)? {
                    Some(b) => st.outs.push((tag, b)),
                    None => return Ok(Flow::End),
                }
            }
            X::PanicOk => {
                let v = cst!(0);
                st.panic_ok = v as u8;
            }
            X::F16Int => {
                let h = s!(0);
                let (max, ppm, id) = (cst!(1), cst!(2), cst!(3) as i64);
                let r = self.f16_int(st, h, max as i128, ppm as i128, id)?;
                self.set(st, d, Val::S(r));
            }
            X::F16Lin => {
                let h = s!(0);
                let r = self.f16_fixed(h);
                self.set(st, d, Val::S(r));
            }
            X::Log => {
                let v = s!(0);
                eprintln!("log {:?} {:?}", self.t.cv(v), self.t.n[v as usize].op);
            }
            X::Malloc | X::RustAlloc | X::RustAllocZeroed | X::Calloc => {
                let (n, al, zero) = match x {
                    X::Malloc => (cst!(0), 16, false),
                    X::Calloc => (cst!(0).wrapping_mul(cst!(1)), 16, true),
                    X::RustAlloc => (cst!(0), cst!(1), false),
                    _ => (cst!(0), cst!(1), true),
                };
                if n > 1 << 26 {
                    return Err(format!("allocation of {} bytes", n));
                }
                let fill = if zero { 0 } else { UNINIT };
                // minimal alignment that was asked for
                let a = self.new_obj(st, n, OKind::Heap, al as u32, fill);
                let t = self.t.c(64, a as u128);
                self.set(st, d, Val::S(t));
            }
            X::PosixMemalign => {
                let ptr = s!(0);
                let al = cst!(1);
                let n = cst!(2);
                let a = self.new_obj(st, n, OKind::Heap, al as u32, UNINIT);
                let t = self.t.c(64, a as u128);
                let l = Lay { scalar: true, e: vec![(0, 64)], size: 8, packed: false };
                if !self.store_val(st, ptr, Val::S(t), &l, 1)? {
                    return Ok(Flow::End);
                }
                let z = self.t.c(32, 0);
                self.set(st, d, Val::S(z));
            }
            X::Free | X::RustDealloc => {
                let a = cst!(0);
                if a != 0 {
                    let id = (a >> 32) as usize;
                    let ok = id < st.mem.len()
                        && st.mem[id].as_ref().map(|o| {
                            matches!(o.kind, OKind::Heap | OKind::Harness) && obj_addr(id as u32) + o.base_off as u64 == a
                        }) == Some(true);
                    if !ok {
                        let one = self.t.c(1, 1);
                        self.violation(st, "memory", 4, "invalid free".into(), one);
                        return Ok(Flow::End);
                    }
                    let m = Rc::make_mut(&mut st.mem);
                    m[id] = None;
                }
            }
            X::Realloc | X::RustRealloc => {
                let a = cst!(0);
                let n = if x == X::Realloc { cst!(1) } else { cst!(3) };
                let al = if x == X::Realloc { 16 } else { cst!(2) };
                let id = (a >> 32) as usize;
                let old = if id < st.mem.len() { st.mem[id].clone() } else { None };
                let old = old.ok_or("realloc of invalid pointer")?;
                let na = self.new_obj(st, n, OKind::Heap, al as u32, UNINIT);
                let nid = (na >> 32) as usize;
                let m = Rc::make_mut(&mut st.mem);
                m[id] = None;
                let o = Rc::make_mut(m[nid].as_mut().unwrap());
                let k = (n.min(old.size)) as usize;
                o.data[..k].copy_from_slice(&old.data[..k]);
                let t = self.t.c(64, na as u128);
                self.set(st, d, Val::S(t));
            }
            X::Bcmp => {
                let (a, b) = (s!(0), s!(1));
                let n = cst!(2);
                let x = match self.load_bytes(st, a, n, 1)? {
                    Some(x) => x,
                    None => return Ok(Flow::End),
                };
                let y = match self.load_bytes(st, b, n, 1)? {
                    Some(x) => x,
                    None => return Ok(Flow::End),
                };
                if name == "memcmp" {
                    return Err("memcmp".into());
                }
                let mut eqs = self.t.c(1, 1);
                for i in 0..n as usize {
                    let p = if x[i] == UNINIT { self.undef(8) } else { x[i] };
                    let q = if y[i] == UNINIT { self.undef(8) } else { y[i] };
                    let c = self.t.eq(p, q);
                    eqs = self.t.and(eqs, c);
                }
                let ne = self.t.not(eqs);
                let r = self.t.zext(ne, 32);
                self.set(st, d, Val::S(r));
            }
            X::Memcpy => {
                let (dst, src) = (s!(0), s!(1));
                let n = cst!(2);
                let b = match self.load_bytes(st, src, n, 1)? {
                    Some(b) => b,
                    None => return Ok(Flow::End),
                };
                if !self.store_bytes(st, dst, &b, 1)? {
                    return Ok(Flow::End);
                }
            }
            X::Memset => {
                let dst = s!(0);
                let v = s!(1);
                let n = cst!(2);
                let b = vec![v; n as usize];
                if !self.store_bytes(st, dst, &b, 1)? {
                    return Ok(Flow::End);
                }
            }
            X::Bswap => {
                let a = v!(0);
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    let p: Vec<T> = (0..w / 8).map(|i| t.extract(x, 8 * i, 8)).collect();
                    t.concat(&p)
                })?;
                self.set(st, d, r);
            }
            X::Bitrev => {
                let a = v!(0);
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    let p: Vec<T> = (0..w).map(|i| t.extract(x, i, 1)).collect();
                    t.concat(&p)
                })?;
                self.set(st, d, r);
            }
            X::Ctpop => {
                let a = v!(0);
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    let mut s = t.c(w, 0);
                    for i in 0..w {
                        let b = t.extract(x, i, 1);
                        let z = t.zext(b, w);
                        s = t.add(s, z);
                    }
                    s
                })?;
                self.set(st, d, r);
            }
            X::Ctlz | X::Cttz => {
                let a = v!(0);
                let lead = x == X::Ctlz;
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    let mut r = t.c(w, w as u128);
                    for i in 0..w {
                        // the last assignment has the highest priority
                        let pos = if lead { i } else { w - 1 - i };
                        let b = t.extract(x, pos, 1);
                        let k = t.c(w, if lead { w - 1 - pos } else { pos } as u128);
                        r = t.ite(b, k, r);
                    }
                    r
                })?;
                self.set(st, d, r);
            }
            X::Abs => {
                let a = v!(0);
                let r = self.map1(a, &mut |t, x| {
                    let n = t.neg(x);
                    t.bop(Bop::SMax, x, n)
                })?;
                // abs(INT_MIN) = INT_MIN also holds for smax(x,-x)
                self.set(st, d, r);
            }
            X::Fabs => {
                let a = v!(0);
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    let m = t.c(w, mask(w) >> 1);
                    t.and(x, m)
                })?;
                self.set(st, d, r);
            }
            X::UMin => bin!(|t: &mut Terms, a, b| t.bop(Bop::UMin, a, b)),
            X::UMax => bin!(|t: &mut Terms, a, b| t.bop(Bop::UMax, a, b)),
            X::SMin => bin!(|t: &mut Terms, a, b| t.bop(Bop::SMin, a, b)),
            X::SMax => bin!(|t: &mut Terms, a, b| t.bop(Bop::SMax, a, b)),
            X::SAddSat => bin!(|t: &mut Terms, a, b| ssat(t, a, b, false)),
            X::SSubSat => bin!(|t: &mut Terms, a, b| ssat(t, a, b, true)),
            X::UAddSat => bin!(|t: &mut Terms, a, b| {
                let w = t.w(a);
                let (x, y) = (t.zext(a, w + 1), t.zext(b, w + 1));
                let s = t.add(x, y);
                let m = t.c(w + 1, mask(w));
                let s = t.bop(Bop::UMin, s, m);
                t.extract(s, 0, w)
            }),
            X::USubSat => bin!(|t: &mut Terms, a, b| {
                // a - min(a, b)
                let m = t.bop(Bop::UMax, a, b);
                t.sub(m, b)
            }),
            X::SAddO | X::UAddO | X::SSubO | X::USubO | X::SMulO | X::UMulO => {
                let (a, b) = (vv!(0), vv!(1));
                let mut vals = vec![];
                let mut ovs = vec![];
                for i in 0..a.len() {
                    let (a, b) = (a[i], b[i]);
                    let w = self.t.w(a);
                    let mul = matches!(x, X::SMulO | X::UMulO);
                    let w2 = if mul { 2 * w } else { w + 1 };
                    let signed = matches!(x, X::SAddO | X::SSubO | X::SMulO);
                    let t = &mut self.t;
                    // decided by the operands' ranges in the common case
                    let fits = {
                        let (na, nb) = (&t.n[a as usize], &t.n[b as usize]);
                        if w > 64 {
                            false
                        } else if signed {
                            let (a0, a1, b0, b1) = (na.slo, na.shi, nb.slo, nb.shi);
                            let c = match x {
                                X::SAddO => [a0 + b0, a1 + b1, 0, 0],
                                X::SSubO => [a0 - b1, a1 - b0, 0, 0],
                                _ => [a0 * b0, a0 * b1, a1 * b0, a1 * b1],
                            };
                            c.iter().all(|v| *v >= -(1i128 << (w - 1)) && *v < (1i128 << (w - 1)))
                        } else {
                            let m = mask(w);
                            match x {
                                X::UAddO => na.uhi + nb.uhi <= m,
                                X::UMulO => na.uhi.checked_mul(nb.uhi).map_or(false, |v| v <= m),
                                _ => na.ulo >= nb.uhi,
                            }
                        }
                    };
                    if fits {
                        let r = match x {
                            X::SAddO | X::UAddO => t.add(a, b),
                            X::SSubO | X::USubO => t.sub(a, b),
                            _ => t.mul(a, b),
                        };
                        vals.push(r);
                        ovs.push(t.c(1, 0));
                        continue;
                    }
                    let (p, q) =
                        if signed { (t.sext(a, w2), t.sext(b, w2)) } else { (t.zext(a, w2), t.zext(b, w2)) };
                    let (r, wide) = match x {
                        X::SAddO | X::UAddO => (t.add(a, b), t.add(p, q)),
                        X::SSubO | X::USubO => (t.sub(a, b), t.sub(p, q)),
                        _ => (t.mul(a, b), t.mul(p, q)),
                    };
                    let back = if signed { t.sext(r, w2) } else { t.zext(r, w2) };
                    let ov = if x == X::USubO {
                        t.ult(a, b)
                    } else if signed && w2 <= 128 {
                        // range test: friendlier for integer reasoning
                        let lo = t.cs(w2, -(1i128 << (w - 1)));
                        let hi = t.cs(w2, (1i128 << (w - 1)) - 1);
                        let x1 = t.slt(wide, lo);
                        let x2 = t.slt(hi, wide);
                        t.or(x1, x2)
                    } else if w2 <= 128 {
                        let hi = t.c(w2, mask(w));
                        t.ult(hi, wide)
                    } else {
                        let e = t.eq(back, wide);
                        t.not(e)
                    };
                    vals.push(r);
                    ovs.push(ov);
                }
                vals.extend(ovs);
                self.set(st, d, Val::V(vals.into()));
            }
            X::FpToUSat | X::FpToSSat => {
                let a = v!(0);
                let w = lay.e[0].1;
                let o = if x == X::FpToUSat { FOp::ToUSat } else { FOp::ToSSat };
                let r = self.map1(a, &mut |t, x| t.fop(o, w, &[x]))?;
                self.set(st, d, r);
            }
            X::Fshl | X::Fshr => {
                let (a, b, s) = (vv!(0), vv!(1), vv!(2));
                let mut r = vec![];
                for i in 0..a.len() {
                    let w = self.t.w(a[i]);
                    let k = match self.t.cv(s[i]) {
                        Some(k) => (k % w as u128) as u16,
                        None => return Err("symbolic funnel shift".into()),
                    };
                    let c = self.t.concat(&[a[i], b[i]]);
                    let lo = if x == X::Fshl { w - k } else { k };
                    r.push(if x == X::Fshl && k == 0 { a[i] } else { self.t.extract(c, lo, w) });
                }
                let v = if lay.scalar { Val::S(r[0]) } else { Val::V(r.into()) };
                self.set(st, d, v);
            }
            X::IsConst => {
                let z = self.t.c(1, 0);
                self.set(st, d, Val::S(z));
            }
            X::Expect => {
                let a = v!(0);
                self.set(st, d, a);
            }
            X::MLoad => {
                // (ptr, align, mask, passthru)
                let ptr = s!(0);
                let m = vv!(2);
                let pt = vv!(3);
                let w = self.t.w(pt[0]);
                let nb = (w / 8) as u64;
                let mut r = vec![];
                for i in 0..m.len() {
                    let a = self.t.addc(ptr, (i as u64 * nb) as i128);
                    match self.t.cv(m[i]) {
                        Some(0) => r.push(pt[i]),
                        Some(_) => match self.load_bytes(st, a, nb, 1)? {
                            Some(b) => r.push(self.bytes_to(&b, w)),
                            None => return Ok(Flow::End),
                        },
                        None => return Err("symbolic load mask".into()),
                    }
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::MStore => {
                // (value, ptr, align, mask)
                let v = vv!(0);
                let ptr = s!(1);
                let m = vv!(3);
                let w = self.t.w(v[0]);
                let nb = (w / 8) as u64;
                for i in 0..m.len() {
                    match self.t.cv(m[i]) {
                        Some(0) => {}
                        Some(_) => {
                            let a = self.t.addc(ptr, (i as u64 * nb) as i128);
                            let mut b = vec![];
                            self.to_bytes(v[i], w, &mut b);
                            if !self.store_bytes(st, a, &b, 1)? {
                                return Ok(Flow::End);
                            }
                        }
                        None => return Err("symbolic store mask".into()),
                    }
                }
            }
            X::Pow => {
                let (a, b) = (s!(0), s!(1));
                match (self.t.cv(a), self.t.cv(b)) {
                    (Some(p), Some(q)) => {
                        let w = self.t.w(a);
                        let r = if w == 32 {
                            f32::from_bits(p as u32).powf(f32::from_bits(q as u32)).to_bits() as u128
                        } else {
                            f64::from_bits(p as u64).powf(f64::from_bits(q as u64)).to_bits() as u128
                        };
                        let r = self.t.c(w, r);
                        self.set(st, d, Val::S(r));
                    }
                    _ => return Err("symbolic pow".into()),
                }
            }
            X::MathF32(k) => {
                let a = s!(0);
                let p = self.t.cv(a).ok_or("symbolic math function")?;
                let v = f32::from_bits(p as u32);
                let r = match k {
                    0 => v.exp(),
                    1 => v.ln(),
                    2 => v.sqrt(),
                    3 => v.sin(),
                    4 => v.cos(),
                    _ => v.cbrt(),
                };
                let r = self.t.c(32, r.to_bits() as u128);
                self.set(st, d, Val::S(r));
            }
            X::MathF64(_) => {
                let (a, b) = (s!(0), s!(1));
                match (self.t.cv(a), self.t.cv(b)) {
                    (Some(p), Some(q)) => {
                        let r = f64::from_bits(p as u64).powf(f64::from_bits(q as u64));
                        let r = self.t.c(64, r.to_bits() as u128);
                        self.set(st, d, Val::S(r));
                    }
                    _ => return Err("symbolic pow".into()),
                }
            }
            X::Sqrt => {
                let a = s!(0);
                let p = self.t.cv(a).ok_or("symbolic sqrt")?;
                let w = self.t.w(a);
                let r = if w == 32 {
                    f32::from_bits(p as u32).sqrt().to_bits() as u128
                } else {
                    f64::from_bits(p as u64).sqrt().to_bits() as u128
                };
                let r = self.t.c(w, r);
                self.set(st, d, Val::S(r));
            }
            X::FRound => fun!(FOp::RoundAway),
            X::FFloor => fun!(FOp::Floor),
            X::FCeil => fun!(FOp::Ceil),
            X::FTrunc => fun!(FOp::Trunc),
            X::FRoundEven => fun!(FOp::RoundEven),
            X::Fma => {
                let (a, b, c) = (vv!(0), vv!(1), vv!(2));
                let mut r = vec![];
                for i in 0..a.len() {
                    match (self.t.cv(a[i]), self.t.cv(b[i]), self.t.cv(c[i])) {
                        (Some(p), Some(q), Some(s)) => {
                            let w = self.t.w(a[i]);
                            let v = if w == 32 {
                                f32::from_bits(p as u32)
                                    .mul_add(f32::from_bits(q as u32), f32::from_bits(s as u32))
                                    .to_bits() as u128
                            } else {
                                f64::from_bits(p as u64)
                                    .mul_add(f64::from_bits(q as u64), f64::from_bits(s as u64))
                                    .to_bits() as u128
                            };
                            r.push(self.t.c(w, v));
                        }
                        _ => return Err("symbolic fma".into()),
                    }
                }
                let v = if lay.scalar { Val::S(r[0]) } else { Val::V(r.into()) };
                self.set(st, d, v);
            }
            X::MinNum | X::MaxNum => bin!(|t: &mut Terms, a, b| {
                let w = t.w(a);
                let lt = if x == X::MinNum { t.fop(FOp::Olt, 1, &[a, b]) } else { t.fop(FOp::Olt, 1, &[b, a]) };
                let _ = w;
                let un = t.fop(FOp::Uno, 1, &[b, b]);
                let c = t.or(lt, un);
                t.ite(c, a, b)
            }),
            X::UCmp | X::SCmp => {
                let w = lay.e[0].1;
                let sg = x == X::SCmp;
                bin!(|t: &mut Terms, a, b| {
                    let (l, g) = if sg { (t.slt(a, b), t.slt(b, a)) } else { (t.ult(a, b), t.ult(b, a)) };
                    let m1 = t.cs(w, -1);
                    let p1 = t.c(w, 1);
                    let z = t.c(w, 0);
                    let r = t.ite(g, p1, z);
                    t.ite(l, m1, r)
                })
            }
            X::ReduceAdd | X::ReduceOr | X::ReduceAnd => {
                let a = vv!(0);
                let mut r = a[0];
                for &e in &a[1..] {
                    r = match x {
                        X::ReduceAdd => self.t.add(r, e),
                        X::ReduceOr => self.t.or(r, e),
                        _ => self.t.and(r, e),
                    };
                }
                self.set(st, d, Val::S(r));
            }
            // ------------------------------------------------------------ x86
            X::PackUs(ow) | X::PackSs(ow) => {
                let us = matches!(x, X::PackUs(_));
                let (a, b) = (vv!(0), vv!(1));
                let iw = 2 * ow;
                let per = (128 / iw) as usize;
                let mut r = vec![];
                for lane in 0..a.len() / per {
                    for s in [&a, &b] {
                        for i in 0..per {
                            let e = s[lane * per + i];
                            let (lo, hi) =
                                if us { (0, mask(ow) as i128) } else { (-(1i128 << (ow - 1)), (1i128 << (ow - 1)) - 1) };
                            let h = self.t.cs(iw, hi);
                            let l = self.t.cs(iw, lo);
                            let v = self.t.bop(Bop::SMin, e, h);
                            let v = self.t.bop(Bop::SMax, v, l);
                            r.push(self.t.extract(v, 0, ow));
                        }
                    }
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::PhaddW => {
                let (a, b) = (vv!(0), vv!(1));
                let mut r = vec![];
                for lane in 0..a.len() / 8 {
                    for s in [&a, &b] {
                        for i in 0..4 {
                            r.push(self.t.add(s[lane * 8 + 2 * i], s[lane * 8 + 2 * i + 1]));
                        }
                    }
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::PmaddUbs => {
                let (a, b) = (vv!(0), vv!(1));
                let mut r = vec![];
                for i in 0..a.len() / 2 {
                    let t = &mut self.t;
                    let m = |t: &mut Terms, k: usize| {
                        let x = t.zext(a[k], 18);
                        let y = t.sext(b[k], 18);
                        t.mul(x, y)
                    };
                    let (p, q) = (m(t, 2 * i), m(t, 2 * i + 1));
                    let s = t.add(p, q);
                    let hi = t.cs(18, 32767);
                    let lo = t.cs(18, -32768);
                    let s = t.bop(Bop::SMin, s, hi);
                    let s = t.bop(Bop::SMax, s, lo);
                    r.push(t.extract(s, 0, 16));
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::PmaddWd => {
                let (a, b) = (vv!(0), vv!(1));
                let mut r = vec![];
                for i in 0..a.len() / 2 {
                    let t = &mut self.t;
                    let m = |t: &mut Terms, k: usize| {
                        let x = t.sext(a[k], 32);
                        let y = t.sext(b[k], 32);
                        t.mul(x, y)
                    };
                    let (p, q) = (m(t, 2 * i), m(t, 2 * i + 1));
                    r.push(t.add(p, q));
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::PmulHrs => bin!(|t: &mut Terms, a, b| {
                let x = t.sext(a, 32);
                let y = t.sext(b, 32);
                let m = t.mul(x, y);
                let m = t.addc(m, 1 << 14);
                t.extract(m, 15, 16)
            }),
            X::Pshufb => {
                let (a, c) = (vv!(0), vv!(1));
                let mut r = vec![];
                for i in 0..a.len() {
                    let lane = i / 16 * 16;
                    match self.t.cv(c[i]) {
                        Some(k) => r.push(if k & 0x80 != 0 { 0 } else { a[lane + (k & 15) as usize] }),
                        None => return Err("symbolic pshufb".into()),
                    }
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::VpDpBusd => {
                // acc <n x i32>, a, b as <n x i32> or <4n x i8>
                let (acc, a, b) = (vv!(0), vv!(1), vv!(2));
                let n = acc.len();
                let a = self.bitcast(&a, 8, 4 * n as u32);
                let b = self.bitcast(&b, 8, 4 * n as u32);
                let mut r = vec![];
                for i in 0..n {
                    let mut s = acc[i];
                    for k in 0..4 {
                        let x = self.t.zext(a[4 * i + k], 32);
                        let y = self.t.sext(b[4 * i + k], 32);
                        let m = self.t.mul(x, y);
                        s = self.t.add(s, m);
                    }
                    r.push(s);
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::VpDpWssd => {
                let (acc, a, b) = (vv!(0), vv!(1), vv!(2));
                let n = acc.len();
                let a = self.bitcast(&a, 16, 2 * n as u32);
                let b = self.bitcast(&b, 16, 2 * n as u32);
                let mut r = vec![];
                for i in 0..n {
                    let mut s = acc[i];
                    for k in 0..2 {
                        let x = self.t.sext(a[2 * i + k], 32);
                        let y = self.t.sext(b[2 * i + k], 32);
                        let m = self.t.mul(x, y);
                        s = self.t.add(s, m);
                    }
                    r.push(s);
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::VPermI2 => {
                let (a, ix, b) = (vv!(0), vv!(1), vv!(2));
                let n = a.len();
                let mut r = vec![];
                for i in 0..n {
                    let k = self.t.cv(ix[i]).ok_or("symbolic permute")? as usize & (2 * n - 1);
                    r.push(if k < n { a[k] } else { b[k - n] });
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::VPerm => {
                let (a, ix) = (vv!(0), vv!(1));
                let n = a.len();
                let mut r = vec![];
                for i in 0..n {
                    let k = self.t.cv(ix[i]).ok_or("symbolic permute")? as usize & (n - 1);
                    r.push(a[k]);
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::CvtPs2Ph => {
                let a = vv!(0);
                let imm = cst!(1);
                if imm & 3 != 0 && imm & 4 == 0 {
                    return Err(format!("vcvtps2ph rounding mode {}", imm));
                }
                let n = lay.e.len();
                let mut r = vec![];
                for i in 0..n {
                    r.push(if i < a.len() { self.t.fop(FOp::Conv, 16, &[a[i]]) } else { self.t.c(16, 0) });
                }
                self.set(st, d, Val::V(r.into()));
            }
            X::RoundPs => {
                let a = v!(0);
                let imm = cst!(1);
                let o = match imm & 7 {
                    0 | 4 => FOp::RoundEven,
                    1 => FOp::Floor,
                    2 => FOp::Ceil,
                    3 => FOp::Trunc,
                    _ => FOp::RoundEven,
                };
                let r = self.map1(a, &mut |t, x| t.fop(o, 32, &[x]))?;
                self.set(st, d, r);
            }
            X::CvtPs2Dq => {
                let a = v!(0);
                // in-range values only (out of range gives the indefinite value; not modelled: saturates)
                let r = self.map1(a, &mut |t, x| {
                    let y = t.fop(FOp::RoundEven, 32, &[x]);
                    t.fop(FOp::ToSSat, 32, &[y])
                })?;
                self.set(st, d, r);
            }
            X::PsrlImm | X::PsllImm | X::PsraImm => {
                let a = v!(0);
                let k = cst!(1);
                let o = match x {
                    X::PsrlImm => Bop::LShr,
                    X::PsllImm => Bop::Shl,
                    _ => Bop::AShr,
                };
                let r = self.map1(a, &mut |t, x| {
                    let w = t.w(x);
                    let s = t.c(w, (k as u128).min(w as u128));
                    t.bop(o, x, s)
                })?;
                self.set(st, d, r);
            }
        }
        Ok(Flow::Next)
    }
}

fn ssat(t: &mut Terms, a: T, b: T, sub: bool) -> T {
    let w = t.w(a);
    let (x, y) = (t.sext(a, w + 1), t.sext(b, w + 1));
    let s = if sub { t.sub(x, y) } else { t.add(x, y) };
    let hi = t.cs(w + 1, (1i128 << (w - 1)) - 1);
    let lo = t.cs(w + 1, -(1i128 << (w - 1)));
    let s = t.bop(Bop::SMin, s, hi);
    let s = t.bop(Bop::SMax, s, lo);
    t.extract(s, 0, w)
}

fn icmp(t: &mut Terms, p: Pred, a: T, b: T) -> T {
    match p {
        Pred::Eq => t.eq(a, b),
        Pred::Ne => {
            let e = t.eq(a, b);
            t.not(e)
        }
        Pred::Ult => t.ult(a, b),
        Pred::Ule => t.ule(a, b),
        Pred::Ugt => t.ult(b, a),
        Pred::Uge => t.ule(b, a),
        Pred::Slt => t.slt(a, b),
        Pred::Sle => t.sle(a, b),
        Pred::Sgt => t.slt(b, a),
        Pred::Sge => t.sle(b, a),
    }
}

fn fcmp(t: &mut Terms, p: u8, a: T, b: T) -> T {
    // 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true
    match p {
        0 => t.c(1, 0),
        15 => t.c(1, 1),
        1 => t.fop(FOp::Oeq, 1, &[a, b]),
        2 => t.fop(FOp::Olt, 1, &[b, a]),
        3 => t.fop(FOp::Ole, 1, &[b, a]),
        4 => t.fop(FOp::Olt, 1, &[a, b]),
        5 => t.fop(FOp::Ole, 1, &[a, b]),
        6 => {
            let x = t.fop(FOp::Olt, 1, &[a, b]);
            let y = t.fop(FOp::Olt, 1, &[b, a]);
            t.or(x, y)
        }
        7 => {
            let u = t.fop(FOp::Uno, 1, &[a, b]);
            t.not(u)
        }
        8 => t.fop(FOp::Uno, 1, &[a, b]),
        _ => {
            // negation of the opposite ordered predicate
            let q = match p {
                9 => 6,
                10 => 5,
                11 => 4,
                12 => 3,
                13 => 2,
                _ => 1,
            };
            let x = fcmp(t, q, a, b);
            t.not(x)
        }
    }
}

pub fn short(n: &str) -> String {
    // legacy mangling: _ZN3foo3barE -> foo::bar
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            parts.push(&r[i..i + k]);
            i += k;
        }
        if parts.len() > 1 && parts.last().unwrap().starts_with('h') && parts.last().unwrap().len() == 17 {
            parts.pop();
        }
        return parts.join("::");
    }
    n.to_string()
}
