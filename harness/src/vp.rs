//! Interface between the harness and its two interpreters: the symbolic executor and the native runner.
extern "C" {
    pub fn vp_sym(p: *mut u8, n: usize, tag: u32);
    pub fn vp_sym16(p: *mut u16, n: usize, bits: u32, tag: u32);
    pub fn vp_u32(lo: u32, hi: u32, tag: u32) -> u32;
    pub fn vp_u64(tag: u32) -> u64;
    pub fn vp_pick(lo: i64, hi: i64, tag: u32) -> i64;
    pub fn vp_assume(c: bool);
    pub fn vp_assert(c: bool, id: u32);
    pub fn vp_near(a: i64, b: i64, tol: i64, id: u32);
    pub fn vp_between(a: i64, lo: i64, hi: i64, id: u32);
    pub fn vp_cpu(mask: u64);
    pub fn vp_halloc(n: usize, align: usize) -> *mut u8;
    pub fn vp_hfree(p: *mut u8, n: usize, align: usize);
    pub fn vp_same(a: *const u8, b: *const u8, n: usize, id: u32);
    pub fn vp_param(k: u32) -> i64;
    pub fn vp_reach(id: u32);
    pub fn vp_alloc(n: usize, align: usize) -> *mut u8;
    pub fn vp_out(p: *const u8, n: usize, tag: u32);
    pub fn vp_panic_ok(v: u32);
    /// n, the half float being n / max within ppm millionths of 1
    pub fn vp_f16int(h: u16, max: u32, ppm: u32, id: u32) -> i64;
    /// the half float times 2^24; -1 if it is negative, infinite or not a number
    pub fn vp_f16lin(h: u16) -> i64;
    pub fn vp_log(v: i64);
}
pub fn param(k: u32) -> i64 {
    unsafe { vp_param(k) }
}
pub fn near(a: i64, b: i64, tol: i64, id: u32) {
    unsafe { vp_near(a, b, tol, id) }
}
pub fn check(c: bool, id: u32) {
    unsafe { vp_assert(c, id) }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn reach(id: u32) {
    unsafe { vp_reach(id) }
}
pub fn pick(lo: i64, hi: i64, tag: u32) -> i64 {
    unsafe { vp_pick(lo, hi, tag) }
}
/// exactly sized buffer of n symbolic bytes
pub fn sym8(n: usize, tag: u32) -> &'static mut [u8] {
    unsafe {
        let p = vp_alloc(n, 1);
        vp_sym(p, n, tag);
        core::slice::from_raw_parts_mut(p, n)
    }
}
pub fn sym16(n: usize, bits: u32, tag: u32) -> &'static mut [u16] {
    unsafe {
        let p = vp_alloc(n * 2, 2) as *mut u16;
        vp_sym16(p, n, bits, tag);
        core::slice::from_raw_parts_mut(p, n)
    }
}
pub fn out8(b: &[u8], tag: u32) {
    unsafe { vp_out(b.as_ptr(), b.len(), tag) }
}
pub fn out16(b: &[u16], tag: u32) {
    unsafe { vp_out(b.as_ptr() as *const u8, b.len() * 2, tag) }
}

pub fn between(a: i64, lo: i64, hi: i64, id: u32) {
    unsafe { vp_between(a, lo, hi, id) }
}
/// native runs put every heap block next to a guard page
pub struct GuardAlloc;
unsafe impl std::alloc::GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        vp_halloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        vp_hfree(p, l.size(), l.align())
    }
}
#[global_allocator]
static GLOBAL: GuardAlloc = GuardAlloc;
