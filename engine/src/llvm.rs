//! Loads LLVM bitcode (produced by rustc from /repo + the harness) and lowers the reachable functions into a
//! compact IR in which every constant is numeric (globals and functions have fixed virtual addresses).
use crate::ffi as L;
use crate::term::{Bop, FOp};
use std::collections::HashMap;
use std::ffi::{CStr, CString};

pub type Slot = u32;

const VK_UNDEF: i32 = 14;
const VK_ARRAY: i32 = 11;
const VK_STRUCT: i32 = 12;
const VK_VECTOR: i32 = 13;
const VK_AGGZERO: i32 = 15;
const VK_DARRAY: i32 = 16;
const VK_DVECTOR: i32 = 17;
const VK_INT: i32 = 18;
const VK_FP: i32 = 19;
const VK_NULL: i32 = 20;
const VK_MD: i32 = 22;
const VK_ASM: i32 = 23;
const VK_POISON: i32 = 25;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opnd {
    R(Slot),
    K(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CVal {
    /// scalar (not vector / aggregate)
    pub scalar: bool,
    /// (width, value); None = undef/poison
    pub e: Vec<(u16, Option<u128>)>,
}

/// One leaf scalar of a first class type.
#[derive(Clone, Debug, PartialEq)]
pub struct Lay {
    pub scalar: bool,
    /// (byte offset, bits)
    pub e: Vec<(u32, u16)>,
    /// total store size in bytes
    pub size: u32,
    /// vector of sub-byte elements: bit packed
    pub packed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    F(FOp),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Opnd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Slot, BinK, Opnd, Opnd),
    FBin(Slot, FOp, Opnd, Opnd),
    FNeg(Slot, Opnd),
    ICmp(Slot, Pred, Opnd, Opnd),
    FCmp(Slot, u8, Opnd, Opnd),
    Cast(Slot, CastK, u16, Opnd),
    /// bitcast: (dst scalar?, dst elem width, dst n)
    BitCast(Slot, bool, u16, u32, Opnd),
    Gep(Slot, Opnd, i64, Vec<(i64, Opnd)>),
    Load(Slot, Opnd, Lay, u32),
    Store(Opnd, Opnd, Lay, u32),
    Alloca(Slot, u64, u32),
    Select(Slot, Opnd, Opnd, Opnd),
    ExtElt(Slot, Opnd, Opnd),
    InsElt(Slot, Opnd, Opnd, Opnd),
    Shuf(Slot, Opnd, Opnd, Vec<i32>),
    ExtVal(Slot, Opnd, u32, u32, bool),
    InsVal(Slot, Opnd, Opnd, u32),
    Copy(Slot, Opnd),
    Call(Slot, Callee, Vec<Opnd>, Lay),
    Rmw(Slot, u8, Opnd, Opnd, Lay),
    CmpXchg(Slot, Opnd, Opnd, Opnd, Lay),
    Nop,
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    B(Bop),
}

#[derive(Clone, Debug)]
pub enum Termi {
    Br(u32),
    Cond(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    /// (dst, [(pred, val)])
    pub phis: Vec<(Slot, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub term: Termi,
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    /// per block: immediate post dominator (u32::MAX if none)
    pub ipdom: Vec<u32>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    /// None = uninitialised / undef byte
    pub init: Vec<Option<u8>>,
    pub external: bool,
}

pub const OBJ_BASE: u64 = 1 << 30;
pub const FN_ID: u64 = 0x4000_0000;
#[inline]
pub fn obj_addr(id: u32) -> u64 {
    ((id as u64) << 32) + OBJ_BASE
}
#[inline]
pub fn fn_addr(fid: u32) -> u64 {
    ((FN_ID + fid as u64) << 32) + OBJ_BASE
}
/// functions that stay external get addresses in this range
pub const EXT_ID: u64 = 0x6000_0000;

pub struct Program {
    pub funcs: Vec<Option<Func>>,
    pub fn_names: Vec<String>,
    pub exts: Vec<String>,
    pub globals: Vec<Global>,
    pub consts: Vec<CVal>,
    pub entry: HashMap<String, u32>,
    pub ninsts: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct V(usize);

pub struct Loader {
    ctx: L::Ctx,
    mods: Vec<L::Md>,
    std_mods: std::collections::HashSet<usize>,
    td: L::Td,
    fn_def: HashMap<String, usize>,
    gl_def: HashMap<String, usize>,
    fid: HashMap<usize, u32>,
    fvals: Vec<usize>,
    ext_id: HashMap<String, u32>,
    gid: HashMap<usize, u32>,
    gl_ext: HashMap<String, u32>,
    cmap: HashMap<CVal, u32>,
    ccache: HashMap<usize, u32>,
    laycache: HashMap<usize, Lay>,
    gqueue: Vec<usize>,
    fqueue: Vec<u32>,
    pub p: Program,
}

extern "C" fn diag(_: *mut u8, _: *mut u8) {}

fn vname(v: L::Val) -> String {
    unsafe {
        let mut n = 0usize;
        let p = L::LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
fn pstr(v: L::Val) -> String {
    unsafe {
        let p = L::LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        L::LLVMDisposeMessage(p);
        s
    }
}

impl Loader {
    pub fn new(files: &[String]) -> Result<Loader, String> {
        unsafe {
            let ctx = L::LLVMContextCreate();
            L::LLVMContextSetDiagnosticHandler(ctx, Some(diag), std::ptr::null_mut());
            let mut mods = vec![];
            let mut std_mods = std::collections::HashSet::new();
            for f in files {
                let c = CString::new(f.as_str()).unwrap();
                let mut buf = std::ptr::null_mut();
                let mut msg = std::ptr::null_mut();
                if L::LLVMCreateMemoryBufferWithContentsOfFile(c.as_ptr(), &mut buf, &mut msg) != 0 {
                    return Err(format!("cannot read {}", f));
                }
                let mut m = std::ptr::null_mut();
                if L::LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
                    return Err(format!("cannot parse {}", f));
                }
                mods.push(m);
                if f.contains("/std_") {
                    std_mods.insert(m as usize);
                }
            }
            let td = L::LLVMGetModuleDataLayout(mods[0]);
            let mut me = Loader {
                ctx,
                mods,
                std_mods,
                td,
                fn_def: HashMap::new(),
                gl_def: HashMap::new(),
                fid: HashMap::new(),
                fvals: vec![],
                ext_id: HashMap::new(),
                gid: HashMap::new(),
                gl_ext: HashMap::new(),
                cmap: HashMap::new(),
                ccache: HashMap::new(),
                laycache: HashMap::new(),
                gqueue: vec![],
                fqueue: vec![],
                p: Program {
                    funcs: vec![],
                    fn_names: vec![],
                    exts: vec![],
                    globals: vec![],
                    consts: vec![],
                    entry: HashMap::new(),
                    ninsts: 0,
                },
            };
            // object id 0 reserved
            me.p.globals.push(Global { name: "<null>".into(), size: 0, constant: true, init: vec![], external: true });
            for i in 0..me.mods.len() {
                let m = me.mods[i];
                let mut f = L::LLVMGetFirstFunction(m);
                while !f.is_null() {
                    let lk = L::LLVMGetLinkage(f);
                    // internal = 8, private = 9
                    // the standard library's panic and allocation entry points keep their built-in meaning
                    let skip = me.std_mods.contains(&(m as usize)) && crate::exec::known_ext(&vname(f));
                    if L::LLVMIsDeclaration(f) == 0 && lk != 8 && lk != 9 && !skip {
                        me.fn_def.entry(vname(f)).or_insert(f as usize);
                    }
                    f = L::LLVMGetNextFunction(f);
                }
                let mut g = L::LLVMGetFirstGlobal(m);
                while !g.is_null() {
                    let lk = L::LLVMGetLinkage(g);
                    if L::LLVMIsDeclaration(g) == 0 && lk != 8 && lk != 9 {
                        me.gl_def.entry(vname(g)).or_insert(g as usize);
                    }
                    g = L::LLVMGetNextGlobal(g);
                }
                let mut a = L::LLVMGetFirstGlobalAlias(m);
                while !a.is_null() {
                    let t = L::LLVMAliasGetAliasee(a);
                    if L::LLVMGetValueKind(t) == 5 {
                        me.fn_def.entry(vname(a)).or_insert(t as usize);
                    }
                    a = L::LLVMGetNextGlobalAlias(a);
                }
            }
            Ok(me)
        }
    }

    pub fn has_entry(&self, n: &str) -> bool {
        self.fn_def.contains_key(n)
    }
    pub fn entries(&self) -> Vec<String> {
        self.fn_def.keys().cloned().collect()
    }

    pub fn add_entry(&mut self, n: &str) -> Result<(), String> {
        let f = *self.fn_def.get(n).ok_or_else(|| format!("no such entry {}", n))?;
        let id = self.func_id(f as L::Val).map_err(|e| format!("entry {} is external {}", n, e))?;
        self.p.entry.insert(n.to_string(), id);
        Ok(())
    }

    /// Ok(fid) for a defined function, Err(ext id) for an external one
    fn func_id(&mut self, f: L::Val) -> Result<u32, u32> {
        let mut f = f;
        unsafe {
            if L::LLVMGetValueKind(f) == 6 {
                f = L::LLVMAliasGetAliasee(f);
            }
            let std = self.std_mods.contains(&(L::LLVMGetGlobalParent(f) as usize));
            if L::LLVMIsDeclaration(f) != 0 || std && crate::exec::known_ext(&vname(f)) {
                let n = vname(f);
                if let Some(&d) = self.fn_def.get(&n) {
                    f = d as L::Val;
                } else {
                    if let Some(&e) = self.ext_id.get(&n) {
                        return Err(e);
                    }
                    let e = self.p.exts.len() as u32;
                    self.p.exts.push(n.clone());
                    self.ext_id.insert(n, e);
                    return Err(e);
                }
            }
        }
        if let Some(&i) = self.fid.get(&(f as usize)) {
            return Ok(i);
        }
        let i = self.p.funcs.len() as u32;
        self.fid.insert(f as usize, i);
        self.fvals.push(f as usize);
        self.p.funcs.push(None);
        self.p.fn_names.push(vname(f));
        self.fqueue.push(i);
        Ok(i)
    }

    fn global_id(&mut self, g: L::Val) -> u32 {
        unsafe {
            let mut g = g;
            if L::LLVMIsDeclaration(g) != 0 {
                let n = vname(g);
                if let Some(&d) = self.gl_def.get(&n) {
                    g = d as L::Val;
                } else {
                    if let Some(&i) = self.gl_ext.get(&n) {
                        return i;
                    }
                    let sz = L::LLVMABISizeOfType(self.td, L::LLVMGlobalGetValueType(g)) as u64;
                    let id = self.p.globals.len() as u32;
                    self.p.globals.push(Global {
                        name: n.clone(),
                        size: sz,
                        constant: false,
                        init: vec![Some(0); sz as usize],
                        external: !n.contains("rust_no_alloc_shim"),
                    });
                    self.gl_ext.insert(n, id);
                    return id;
                }
            }
            if let Some(&i) = self.gid.get(&(g as usize)) {
                return i;
            }
            let id = self.p.globals.len() as u32;
            let sz = L::LLVMABISizeOfType(self.td, L::LLVMGlobalGetValueType(g)) as u64;
            self.p.globals.push(Global {
                name: vname(g),
                size: sz,
                constant: L::LLVMIsGlobalConstant(g) != 0,
                init: vec![],
                external: false,
            });
            self.gid.insert(g as usize, id);
            self.gqueue.push(g as usize);
            id
        }
    }

    pub fn finish(&mut self) {
        loop {
            if let Some(f) = self.fqueue.pop() {
                let func = self.lower(self.fvals[f as usize] as L::Val);
                self.p.ninsts += func.blocks.iter().map(|b| b.insts.len() + b.phis.len() + 1).sum::<usize>();
                self.p.funcs[f as usize] = Some(func);
                continue;
            }
            if let Some(g) = self.gqueue.pop() {
                unsafe {
                    let gv = g as L::Val;
                    let ty = L::LLVMGlobalGetValueType(gv);
                    let init = L::LLVMGetInitializer(gv);
                    let id = self.gid[&g];
                    let mut bytes = vec![None; self.p.globals[id as usize].size as usize];
                    self.init_bytes(init, ty, 0, &mut bytes);
                    self.p.globals[id as usize].init = bytes;
                }
                continue;
            }
            break;
        }
    }

    fn init_bytes(&mut self, v: L::Val, ty: L::Ty, off: usize, out: &mut [Option<u8>]) {
        unsafe {
            let k = L::LLVMGetTypeKind(ty);
            let vk = L::LLVMGetValueKind(v);
            if vk == VK_AGGZERO {
                // zero aggregate
                let sz = L::LLVMABISizeOfType(self.td, ty) as usize;
                for b in &mut out[off..off + sz] {
                    *b = Some(0);
                }
                return;
            }
            if vk == VK_UNDEF || vk == VK_POISON {
                return;
            }
            match k {
                10 => {
                    let n = L::LLVMCountStructElementTypes(ty);
                    for i in 0..n {
                        let t = L::LLVMStructGetTypeAtIndex(ty, i);
                        let o = L::LLVMOffsetOfElement(self.td, ty, i) as usize;
                        let e = L::LLVMGetAggregateElement(v, i);
                        self.init_bytes(e, t, off + o, out);
                    }
                }
                11 => {
                    let n = L::LLVMGetArrayLength2(ty);
                    let t = L::LLVMGetElementType(ty);
                    let sz = L::LLVMABISizeOfType(self.td, t) as usize;
                    for i in 0..n as usize {
                        let e = L::LLVMGetAggregateElement(v, i as u32);
                        self.init_bytes(e, t, off + i * sz, out);
                    }
                }
                _ => {
                    let lay = self.layout(ty);
                    let c = self.const_val(v);
                    for (i, &(o, bits)) in lay.e.iter().enumerate() {
                        if let Some(x) = c.e[i].1 {
                            for b in 0..(bits as usize).div_ceil(8) {
                                out[off + o as usize + b] = Some((x >> (8 * b)) as u8);
                            }
                        }
                    }
                }
            }
        }
    }

    fn scalar_w(&self, t: L::Ty) -> Option<u16> {
        unsafe {
            Some(match L::LLVMGetTypeKind(t) {
                1 => 16,
                2 => 32,
                3 => 64,
                8 => L::LLVMGetIntTypeWidth(t) as u16,
                12 => 64,
                _ => return None,
            })
        }
    }

    pub fn layout(&mut self, t: L::Ty) -> Lay {
        if let Some(l) = self.laycache.get(&(t as usize)) {
            return l.clone();
        }
        let l = unsafe {
            let k = L::LLVMGetTypeKind(t);
            if k == 0 {
                Lay { scalar: false, e: vec![], size: 0, packed: false }
            } else if let Some(w) = self.scalar_w(t) {
                Lay { scalar: true, e: vec![(0, w)], size: (w as u32).div_ceil(8), packed: false }
            } else if k == 13 {
                let n = L::LLVMGetVectorSize(t);
                let w = self.scalar_w(L::LLVMGetElementType(t)).unwrap();
                if w % 8 == 0 {
                    Lay {
                        scalar: false,
                        e: (0..n).map(|i| (i * (w as u32 / 8), w)).collect(),
                        size: n * w as u32 / 8,
                        packed: false,
                    }
                } else {
                    Lay {
                        scalar: false,
                        e: (0..n).map(|i| (i, w)).collect(),
                        size: (n * w as u32).div_ceil(8),
                        packed: true,
                    }
                }
            } else {
                let mut e = vec![];
                let size = L::LLVMABISizeOfType(self.td, t) as u32;
                if k == 10 {
                    for i in 0..L::LLVMCountStructElementTypes(t) {
                        let s = L::LLVMStructGetTypeAtIndex(t, i);
                        let o = L::LLVMOffsetOfElement(self.td, t, i) as u32;
                        for (a, b) in self.layout(s).e {
                            e.push((o + a, b));
                        }
                    }
                } else if k == 11 {
                    let n = L::LLVMGetArrayLength2(t) as u32;
                    let s = L::LLVMGetElementType(t);
                    let sz = L::LLVMABISizeOfType(self.td, s) as u32;
                    let sub = self.layout(s);
                    for i in 0..n {
                        for &(a, b) in &sub.e {
                            e.push((i * sz + a, b));
                        }
                    }
                } else {
                    e.push((0, 64));
                }
                Lay { scalar: false, e, size, packed: false }
            }
        };
        self.laycache.insert(t as usize, l.clone());
        l
    }

    fn const_val(&mut self, v: L::Val) -> CVal {
        unsafe {
            let ty = L::LLVMTypeOf(v);
            let lay = self.layout(ty);
            let vk = L::LLVMGetValueKind(v);
            let one = |x: u128| CVal { scalar: true, e: vec![(lay.e[0].1, Some(x))] };
            match vk {
                VK_UNDEF | VK_POISON => CVal { scalar: lay.scalar, e: lay.e.iter().map(|x| (x.1, None)).collect() },
                VK_AGGZERO | VK_NULL => {
                    CVal { scalar: lay.scalar, e: lay.e.iter().map(|x| (x.1, Some(0))).collect() }
                }
                VK_INT => {
                    let w = lay.e[0].1;
                    if !lay.scalar {
                        // splat vector ConstantInt
                        let n = lay.e.len();
                        let mut e = vec![];
                        for i in 0..n {
                            let x = L::LLVMGetAggregateElement(v, i as u32);
                            e.extend(self.const_val(x).e);
                        }
                        return CVal { scalar: false, e };
                    }
                    if w <= 64 {
                        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                        one((L::LLVMConstIntGetZExtValue(v) & m) as u128)
                    } else {
                        let s = pstr(v);
                        let t = s.split_whitespace().last().unwrap().to_string();
                        let val = if let Some(n) = t.strip_prefix('-') {
                            (n.parse::<u128>().unwrap_or(0)).wrapping_neg()
                        } else {
                            t.parse::<u128>().unwrap_or_else(|_| panic!("wide const {}", s))
                        };
                        one(val & crate::term::mask(w))
                    }
                }
                VK_FP => {
                    let w = lay.e[0].1;
                    if !lay.scalar {
                        let n = lay.e.len();
                        let mut e = vec![];
                        for i in 0..n {
                            let x = L::LLVMGetAggregateElement(v, i as u32);
                            e.extend(self.const_val(x).e);
                        }
                        return CVal { scalar: false, e };
                    }
                    let b = L::LLVMConstBitCast(v, L::LLVMIntTypeInContext(self.ctx, w as u32));
                    let x = L::LLVMConstIntGetZExtValue(b);
                    one(x as u128)
                }
                VK_ARRAY | VK_STRUCT | VK_VECTOR | VK_DARRAY | VK_DVECTOR => {
                    let n = match L::LLVMGetTypeKind(ty) {
                        10 => L::LLVMCountStructElementTypes(ty),
                        11 => L::LLVMGetArrayLength2(ty) as u32,
                        _ => L::LLVMGetVectorSize(ty),
                    };
                    let mut e = vec![];
                    for i in 0..n {
                        let x = L::LLVMGetAggregateElement(v, i);
                        e.extend(self.const_val(x).e);
                    }
                    CVal { scalar: false, e }
                }
                5 | 6 => match self.func_id(v) {
                    Ok(f) => one(fn_addr(f) as u128),
                    Err(x) => one((((EXT_ID + x as u64) << 32) + OBJ_BASE) as u128),
                },
                8 => {
                    let g = self.global_id(v);
                    one(obj_addr(g) as u128)
                }
                10 => {
                    let op = L::LLVMGetConstOpcode(v);
                    let a = L::LLVMGetOperand(v, 0);
                    match op {
                        29 => {
                            let base = self.const_val(a).e[0].1.unwrap_or(0);
                            let (off, idx) = self.gep_parts(v);
                            let mut x = (base as u64).wrapping_add(off as u64);
                            for (s, o) in idx {
                                let c = self.const_val(o);
                                let (w, k) = c.e[0];
                                x = x.wrapping_add(
                                    (s as u64).wrapping_mul(crate::term::to_s(k.unwrap_or(0), w) as u64),
                                );
                            }
                            one(x as u128)
                        }
                        39 | 40 | 41 | 30 | 60 => {
                            let x = self.const_val(a);
                            if lay.scalar && x.scalar {
                                one(x.e[0].1.unwrap_or(0) & crate::term::mask(lay.e[0].1))
                            } else {
                                panic!("const cast {}", pstr(v))
                            }
                        }
                        8 | 10 => {
                            let x = self.const_val(a).e[0].1.unwrap_or(0);
                            let b = L::LLVMGetOperand(v, 1);
                            let y = self.const_val(b).e[0].1.unwrap_or(0);
                            let r = if op == 8 { x.wrapping_add(y) } else { x.wrapping_sub(y) };
                            one(r & crate::term::mask(lay.e[0].1))
                        }
                        _ => panic!("const expr {}", pstr(v)),
                    }
                }
                _ => panic!("const kind {} {}", vk, pstr(v)),
            }
        }
    }

    fn konst(&mut self, v: L::Val) -> u32 {
        if let Some(&i) = self.ccache.get(&(v as usize)) {
            return i;
        }
        let c = self.const_val(v);
        let i = self.intern_const(c);
        self.ccache.insert(v as usize, i);
        i
    }
    fn intern_const(&mut self, c: CVal) -> u32 {
        if let Some(&i) = self.cmap.get(&c) {
            return i;
        }
        let i = self.p.consts.len() as u32;
        self.p.consts.push(c.clone());
        self.cmap.insert(c, i);
        i
    }

    /// constant offset and (scale, index value) list
    fn gep_parts(&mut self, v: L::Val) -> (i64, Vec<(i64, L::Val)>) {
        unsafe {
            let n = L::LLVMGetNumOperands(v) as u32;
            let mut ty = L::LLVMGetGEPSourceElementType(v);
            let mut off = 0i64;
            let mut idx = vec![];
            for i in 1..n {
                let o = L::LLVMGetOperand(v, i);
                let cst = if L::LLVMGetValueKind(o) == VK_INT && L::LLVMGetTypeKind(L::LLVMTypeOf(o)) == 8 {
                    let w = L::LLVMGetIntTypeWidth(L::LLVMTypeOf(o)) as u16;
                    Some(crate::term::to_s(L::LLVMConstIntGetZExtValue(o) as u128, w) as i64)
                } else {
                    None
                };
                if i > 1 {
                    if L::LLVMGetTypeKind(ty) == 10 {
                        let k = cst.expect("struct index");
                        off += L::LLVMOffsetOfElement(self.td, ty, k as u32) as i64;
                        ty = L::LLVMStructGetTypeAtIndex(ty, k as u32);
                        continue;
                    }
                    ty = L::LLVMGetElementType(ty);
                }
                let sz = L::LLVMABISizeOfType(self.td, ty) as i64;
                match cst {
                    Some(k) => off = off.wrapping_add(k.wrapping_mul(sz)),
                    None => idx.push((sz, o)),
                }
            }
            (off, idx)
        }
    }

    fn lower(&mut self, f: L::Val) -> Func {
        unsafe {
            let mut slots: HashMap<usize, Slot> = HashMap::new();
            let np = L::LLVMCountParams(f);
            for i in 0..np {
                slots.insert(L::LLVMGetParam(f, i) as usize, i);
            }
            let mut n = np;
            let mut bbs: HashMap<usize, u32> = HashMap::new();
            let mut order = vec![];
            let mut b = L::LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bbs.insert(b as usize, order.len() as u32);
                order.push(b);
                let mut i = L::LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    slots.insert(i as usize, n);
                    n += 1;
                    i = L::LLVMGetNextInstruction(i);
                }
                b = L::LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            for &b in &order {
                let mut phis = vec![];
                let mut insts = vec![];
                let mut term = Termi::Bad("missing".into());
                let mut i = L::LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let op = L::LLVMGetInstructionOpcode(i);
                    let d = slots[&(i as usize)];
                    match op {
                        44 => {
                            let k = L::LLVMCountIncoming(i);
                            let mut inc = vec![];
                            for j in 0..k {
                                let p = bbs[&(L::LLVMGetIncomingBlock(i, j) as usize)];
                                let v = self.opnd(L::LLVMGetIncomingValue(i, j), &slots);
                                inc.push((p, v));
                            }
                            phis.push((d, inc));
                        }
                        1 => {
                            term = if L::LLVMGetNumOperands(i) == 0 {
                                Termi::Ret(None)
                            } else {
                                Termi::Ret(Some(self.opnd(L::LLVMGetOperand(i, 0), &slots)))
                            }
                        }
                        2 => {
                            let s0 = bbs[&(L::LLVMGetSuccessor(i, 0) as usize)];
                            term = if L::LLVMIsConditional(i) != 0 {
                                let s1 = bbs[&(L::LLVMGetSuccessor(i, 1) as usize)];
                                Termi::Cond(self.opnd(L::LLVMGetCondition(i), &slots), s0, s1)
                            } else {
                                Termi::Br(s0)
                            }
                        }
                        3 => {
                            let c = self.opnd(L::LLVMGetOperand(i, 0), &slots);
                            let def = bbs[&(L::LLVMGetSuccessor(i, 0) as usize)];
                            let ns = L::LLVMGetNumSuccessors(i);
                            let mut cs = vec![];
                            for j in 1..ns {
                                let v = L::LLVMGetOperand(i, 2 * j);
                                let k = self.const_val(v).e[0].1.unwrap();
                                cs.push((k, bbs[&(L::LLVMGetSuccessor(i, j) as usize)]));
                            }
                            term = Termi::Switch(c, def, cs);
                        }
                        7 => term = Termi::Unreachable,
                        5 => {
                            // invoke: treated as call followed by a branch to the normal destination
                            let x = self.call(i, d, &slots);
                            insts.push(x);
                            term = Termi::Br(bbs[&(L::LLVMGetSuccessor(i, 0) as usize)]);
                        }
                        59 | 58 => {
                            term = Termi::Unreachable;
                        }
                        _ => {
                            let x = self.inst(i, op, d, &slots);
                            insts.push(x);
                        }
                    }
                    i = L::LLVMGetNextInstruction(i);
                }
                blocks.push(Block { phis, insts, term });
            }
            let ipdom = ipdoms(&blocks);
            Func { name: vname(f), nparams: np, nslots: n, blocks, ipdom }
        }
    }

    fn opnd(&mut self, v: L::Val, slots: &HashMap<usize, Slot>) -> Opnd {
        if let Some(&s) = slots.get(&(v as usize)) {
            return Opnd::R(s);
        }
        unsafe {
            let vk = L::LLVMGetValueKind(v);
            if vk == VK_MD || vk == VK_ASM {
                // metadata / inline asm operand
                return Opnd::K(self.intern_const(CVal { scalar: true, e: vec![(1, None)] }));
            }
        }
        Opnd::K(self.konst(v))
    }

    fn call(&mut self, i: L::Val, d: Slot, slots: &HashMap<usize, Slot>) -> Inst {
        unsafe {
            let c = L::LLVMGetCalledValue(i);
            let vk = L::LLVMGetValueKind(c);
            let callee = if vk == 5 || vk == 6 {
                match self.func_id(c) {
                    Ok(f) => Callee::Fn(f),
                    Err(e) => Callee::Ext(e),
                }
            } else if vk == VK_ASM {
                return Inst::Bad(format!("inline asm {}", pstr(i)));
            } else {
                Callee::Ind(self.opnd(c, slots))
            };
            let n = L::LLVMGetNumArgOperands(i);
            let mut args = vec![];
            if let Callee::Ext(e) = callee {
                let nm = &self.p.exts[e as usize];
                if nm.starts_with("llvm.dbg") || nm.contains("noalias.scope") || nm.starts_with("llvm.lifetime") {
                    return Inst::Nop;
                }
            }
            for j in 0..n {
                args.push(self.opnd(L::LLVMGetOperand(i, j), slots));
            }
            let lay = self.layout(L::LLVMTypeOf(i));
            Inst::Call(d, callee, args, lay)
        }
    }

    fn inst(&mut self, i: L::Val, op: i32, d: Slot, slots: &HashMap<usize, Slot>) -> Inst {
        unsafe {
            macro_rules! o {
                ($k:expr) => {
                    self.opnd(L::LLVMGetOperand(i, $k), slots)
                };
            }
            let ty = L::LLVMTypeOf(i);
            match op {
                8 => Inst::Bin(d, BinK::Add, o!(0), o!(1)),
                10 => Inst::Bin(d, BinK::Sub, o!(0), o!(1)),
                12 => Inst::Bin(d, BinK::B(Bop::Mul), o!(0), o!(1)),
                14 => Inst::Bin(d, BinK::B(Bop::UDiv), o!(0), o!(1)),
                15 => Inst::Bin(d, BinK::B(Bop::SDiv), o!(0), o!(1)),
                17 => Inst::Bin(d, BinK::B(Bop::URem), o!(0), o!(1)),
                18 => Inst::Bin(d, BinK::B(Bop::SRem), o!(0), o!(1)),
                20 => Inst::Bin(d, BinK::B(Bop::Shl), o!(0), o!(1)),
                21 => Inst::Bin(d, BinK::B(Bop::LShr), o!(0), o!(1)),
                22 => Inst::Bin(d, BinK::B(Bop::AShr), o!(0), o!(1)),
                23 => Inst::Bin(d, BinK::B(Bop::And), o!(0), o!(1)),
                24 => Inst::Bin(d, BinK::B(Bop::Or), o!(0), o!(1)),
                25 => Inst::Bin(d, BinK::B(Bop::Xor), o!(0), o!(1)),
                9 => Inst::FBin(d, FOp::Add, o!(0), o!(1)),
                11 => Inst::FBin(d, FOp::Sub, o!(0), o!(1)),
                13 => Inst::FBin(d, FOp::Mul, o!(0), o!(1)),
                16 => Inst::FBin(d, FOp::Div, o!(0), o!(1)),
                66 => Inst::FNeg(d, o!(0)),
                26 => {
                    let t = L::LLVMGetAllocatedType(i);
                    let sz = L::LLVMABISizeOfType(self.td, t) as u64;
                    let c = self.const_val(L::LLVMGetOperand(i, 0)).e[0].1.unwrap() as u64;
                    Inst::Alloca(d, sz * c, L::LLVMGetAlignment(i))
                }
                27 => {
                    let l = self.layout(ty);
                    Inst::Load(d, o!(0), l, L::LLVMGetAlignment(i))
                }
                28 => {
                    let t = L::LLVMTypeOf(L::LLVMGetOperand(i, 0));
                    let l = self.layout(t);
                    Inst::Store(o!(0), o!(1), l, L::LLVMGetAlignment(i))
                }
                29 => {
                    if L::LLVMGetTypeKind(ty) == 13 {
                        return Inst::Bad(format!("vector gep {}", pstr(i)));
                    }
                    let (off, idx) = self.gep_parts(i);
                    let mut v = vec![];
                    for (s, x) in idx {
                        v.push((s, self.opnd(x, slots)));
                    }
                    Inst::Gep(d, o!(0), off, v)
                }
                30..=38 => {
                    let l = self.layout(ty);
                    let w = l.e[0].1;
                    let k = match op {
                        30 => CastK::Trunc,
                        31 => CastK::ZExt,
                        32 => CastK::SExt,
                        33 => CastK::F(FOp::ToUSat),
                        34 => CastK::F(FOp::ToSSat),
                        35 => CastK::F(FOp::FromU),
                        36 => CastK::F(FOp::FromS),
                        _ => CastK::F(FOp::Conv),
                    };
                    Inst::Cast(d, k, w, o!(0))
                }
                39 | 40 | 60 => {
                    let w = self.layout(ty).e[0].1;
                    if w == 64 {
                        Inst::Copy(d, o!(0))
                    } else {
                        Inst::Cast(d, if w < 64 { CastK::Trunc } else { CastK::ZExt }, w, o!(0))
                    }
                }
                41 => {
                    let l = self.layout(ty);
                    Inst::BitCast(d, l.scalar, l.e[0].1, l.e.len() as u32, o!(0))
                }
                42 => {
                    let p = match L::LLVMGetICmpPredicate(i) {
                        32 => Pred::Eq,
                        33 => Pred::Ne,
                        34 => Pred::Ugt,
                        35 => Pred::Uge,
                        36 => Pred::Ult,
                        37 => Pred::Ule,
                        38 => Pred::Sgt,
                        39 => Pred::Sge,
                        40 => Pred::Slt,
                        _ => Pred::Sle,
                    };
                    Inst::ICmp(d, p, o!(0), o!(1))
                }
                43 => Inst::FCmp(d, L::LLVMGetFCmpPredicate(i) as u8, o!(0), o!(1)),
                46 => Inst::Select(d, o!(0), o!(1), o!(2)),
                45 => self.call(i, d, slots),
                50 => Inst::ExtElt(d, o!(0), o!(1)),
                51 => Inst::InsElt(d, o!(0), o!(1), o!(2)),
                52 => {
                    let n = L::LLVMGetNumMaskElements(i);
                    let m = (0..n).map(|k| L::LLVMGetMaskValue(i, k)).collect();
                    Inst::Shuf(d, o!(0), o!(1), m)
                }
                53 | 54 => {
                    let n = L::LLVMGetNumIndices(i);
                    let p = L::LLVMGetIndices(i);
                    let mut t = L::LLVMTypeOf(L::LLVMGetOperand(i, 0));
                    let mut start = 0u32;
                    for k in 0..n {
                        let x = *p.add(k as usize);
                        if L::LLVMGetTypeKind(t) == 10 {
                            for q in 0..x {
                                let s = L::LLVMStructGetTypeAtIndex(t, q);
                                start += self.layout(s).e.len() as u32;
                            }
                            t = L::LLVMStructGetTypeAtIndex(t, x);
                        } else {
                            t = L::LLVMGetElementType(t);
                            start += x * self.layout(t).e.len() as u32;
                        }
                    }
                    if op == 53 {
                        let l = self.layout(ty);
                        Inst::ExtVal(d, o!(0), start, l.e.len() as u32, l.scalar)
                    } else {
                        Inst::InsVal(d, o!(0), o!(1), start)
                    }
                }
                68 => Inst::Copy(d, o!(0)),
                55 => Inst::Nop,
                57 => {
                    let l = self.layout(ty);
                    Inst::Rmw(d, L::LLVMGetAtomicRMWBinOp(i) as u8, o!(0), o!(1), l)
                }
                56 => {
                    let l = self.layout(L::LLVMTypeOf(L::LLVMGetOperand(i, 1)));
                    Inst::CmpXchg(d, o!(0), o!(1), o!(2), l)
                }
                _ => Inst::Bad(format!("opcode {} {}", op, pstr(i))),
            }
        }
    }
}

pub fn succs(t: &Termi) -> Vec<u32> {
    match t {
        Termi::Br(a) => vec![*a],
        Termi::Cond(_, a, b) => vec![*a, *b],
        Termi::Switch(_, d, c) => {
            let mut v = vec![*d];
            v.extend(c.iter().map(|x| x.1));
            v
        }
        _ => vec![],
    }
}

/// Immediate post-dominators. Blocks that end in `unreachable` are ignored (treated as not reaching the exit).
fn ipdoms(blocks: &[Block]) -> Vec<u32> {
    let n = blocks.len();
    let exit = n; // virtual exit
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        for s in succs(&b.term) {
            preds[s as usize].push(i);
        }
        if let Termi::Ret(_) = b.term {
            preds[exit].push(i);
        }
    }
    // reverse post order on the reversed graph
    let mut seen = vec![false; n + 1];
    let mut post = vec![];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, k)) = st.pop() {
        if k < preds[x].len() {
            st.push((x, k + 1));
            let y = preds[x][k];
            if !seen[y] {
                seen[y] = true;
                st.push((y, 0));
            }
        } else {
            post.push(x);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in post.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in post.iter().rev() {
            if x == exit {
                continue;
            }
            let mut ss: Vec<usize> = succs(&blocks[x].term).into_iter().map(|s| s as usize).collect();
            if let Termi::Ret(_) = blocks[x].term {
                ss.push(exit);
            }
            let mut new = usize::MAX;
            for s in ss {
                if idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[a] < num[b] {
                            a = idom[a];
                        }
                        while num[b] < num[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|i| if idom[i] == usize::MAX || idom[i] == exit { u32::MAX } else { idom[i] as u32 })
        .collect()
}
