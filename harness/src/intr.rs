extern "C" {
    pub fn intr_init(v: *const i64, n: i32);
    fn sym_int(lo: i64, hi: i64) -> i64;
    fn v_le(a: i64, b: i64) -> bool;
    fn v_eq(a: i64, b: i64) -> bool;
    #[link_name = "vassume"]
    fn vassume_(c: i32);
    #[link_name = "vassert"]
    fn vassert_(c: i32, id: i64);
    #[link_name = "vreach"]
    fn vreach_(id: i64);
    #[link_name = "vobs"]
    fn vobs_(v: i64);
    #[link_name = "vdbg"]
    fn vdbg_(v: i64);
    #[link_name = "vdone"]
    fn vdone_();
}
/// end of the path; nothing is dropped
#[inline(always)]
pub fn done() { unsafe { vdone_() } }
#[inline(always)]
pub fn sym(lo: i64, hi: i64) -> i64 { unsafe { sym_int(lo, hi) } }
#[inline(always)]
pub fn vassume(c: bool) { unsafe { vassume_(c as i32) } }
#[inline(always)]
pub fn vassert(c: bool, id: i64) { unsafe { vassert_(c as i32, id) } }
#[inline(always)]
pub fn vreach(id: i64) { unsafe { vreach_(id) } }
#[inline(always)]
pub fn vobs(v: i64) { unsafe { vobs_(v) } }
#[inline(always)]
pub fn vdbg(v: i64) { unsafe { vdbg_(v) } }

/// opaque comparisons for the oracles
#[inline(always)]
pub fn le(a: i64, b: i64) -> bool { unsafe { v_le(a, b) } }
#[inline(always)]
pub fn lt(a: i64, b: i64) -> bool { unsafe { v_le(a + 1, b) } }
#[inline(always)]
pub fn ge(a: i64, b: i64) -> bool { le(b, a) }
#[inline(always)]
pub fn gt(a: i64, b: i64) -> bool { lt(b, a) }
#[inline(always)]
pub fn eq(a: i64, b: i64) -> bool { unsafe { v_eq(a, b) } }
