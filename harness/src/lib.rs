//! Harnesses: each `h_*` function states one property over symbolic inputs.  The same source is
//! compiled to LLVM IR (symbolic execution) and natively (replay of counterexamples).
#![allow(non_snake_case)]
use h3_rs::algos::*;
use h3_rs::base_cells::*;
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3_rs::h3_index::*;
use h3_rs::iterators::*;

extern "C" {
    fn __vf_nd(tag: u64, lo: u64, hi: u64) -> u64;
    fn __vf_param(i: u64) -> u64;
    fn __vf_assume(c: bool);
    fn __vf_check(c: bool, id: u64);
    fn __vf_cover(c: bool, id: u64);
    fn __vf_out(id: u64, v: u64);
}
/// A symbolic value in lo..=hi, identified by its tag.
#[inline(always)]
pub fn nd(tag: u64, lo: u64, hi: u64) -> u64 { unsafe { __vf_nd(tag, lo, hi) } }
/// A case-split constant chosen by the driver.
#[inline(always)]
pub fn param(i: u64) -> u64 { unsafe { __vf_param(i) } }
#[inline(always)]
pub fn assume(c: bool) { unsafe { __vf_assume(c) } }
#[inline(always)]
pub fn check(c: bool, id: u64) { unsafe { __vf_check(c, id) } }
/// Reachability witness: the driver requires some input to satisfy c here.
#[inline(always)]
pub fn cover(c: bool, id: u64) { unsafe { __vf_cover(c, id) } }
/// A result compared between native runs and concrete runs of the symbolic executor.
#[inline(always)]
pub fn out(id: u64, v: u64) { unsafe { __vf_out(id, v) } }

// ------------------------------------------------------------------------------------------------
// Specification functions, written from the H3 index layout and not from the implementation.

/// The twelve pentagonal base cells.
#[inline(never)]
pub fn spec_pent(bc: u64) -> bool {
    matches!(bc, 4 | 14 | 24 | 38 | 49 | 58 | 63 | 72 | 83 | 97 | 107 | 117)
}
#[inline(always)]
pub fn f_res(h: u64) -> u64 { (h >> 52) & 15 }
#[inline(always)]
pub fn f_bc(h: u64) -> u64 { (h >> 45) & 127 }
#[inline(always)]
pub fn f_digit(h: u64, r: u64) -> u64 { (h >> (45 - 3 * r)) & 7 }
#[inline(never)]
pub fn spec_valid(h: u64) -> bool {
    if (h >> 63) != 0 || (h >> 59) & 15 != 1 || (h >> 56) & 7 != 0 { return false; }
    let res = f_res(h);
    let bc = f_bc(h);
    if bc > 121 { return false; }
    let mut lead = 0u64;
    let mut ok = true;
    let mut r = 1u64;
    while r <= 15 {
        let d = f_digit(h, r);
        if r <= res {
            ok &= d != 7;
            if lead == 0 { lead = d; }
        } else {
            ok &= d == 7;
        }
        r += 1;
    }
    ok && !(spec_pent(bc) && lead == 1)
}
/// First non-zero digit, 0 when there is none.
#[inline(never)]
pub fn spec_lead(h: u64) -> u64 {
    let res = f_res(h);
    let mut lead = 0;
    let mut r = 1u64;
    while r <= 15 {
        if r <= res && lead == 0 { lead = f_digit(h, r); }
        r += 1;
    }
    lead
}
#[inline(always)]
pub fn spec_is_pent(h: u64) -> bool { spec_pent(f_bc(h)) && spec_lead(h) == 0 }
#[inline(always)]
pub fn pow7(n: u64) -> u64 { let mut p = 1u64; let mut i = 0; while i < n { p *= 7; i += 1; } p }
#[inline(always)]
pub fn spec_size(pent: bool, n: u64) -> u64 { if pent { 1 + 5 * ((pow7(n) - 1) / 6) } else { pow7(n) } }

/// A valid cell of the given base cell and resolution with symbolic digits.
#[inline(always)]
pub fn mk_cell(tag: u64, res: u64, bc: u64) -> u64 {
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut lead = 0u64;
    // fine to coarse: creation order is the variable order of the decision diagrams
    let mut r = 15u64;
    while r >= 1 {
        let d = if r <= res { nd(tag + r, 0, 6) } else { 7 };
        if r <= res && d != 0 { lead = d; }
        h |= d << (45 - 3 * r);
        r -= 1;
    }
    assume(!(spec_pent(bc) && lead == 1));
    h
}
/// Every 64-bit value, as the concatenation of the index's fields.
#[inline(always)]
pub fn any_u64(tag: u64) -> u64 {
    let mut h = nd(tag + 20, 0, 1) << 63;
    h |= nd(tag + 19, 0, 15) << 59;
    h |= nd(tag + 18, 0, 7) << 56;
    h |= nd(tag + 17, 0, 15) << 52;
    h |= nd(tag + 16, 0, 127) << 45;
    let mut r = 15u64;
    while r >= 1 { h |= nd(tag + r, 0, 7) << (45 - 3 * r); r -= 1; }
    h
}
/// Every valid cell: any resolution, base cell and digits.
#[inline(always)]
pub fn any_cell(tag: u64) -> u64 {
    let res = nd(tag + 17, 0, 15);
    let bc = nd(tag + 16, 0, 121);
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut lead = 0u64;
    let mut r = 15u64;
    while r >= 1 {
        let d = nd(tag + r, 0, 6);
        let d = if r <= res { d } else { 7 };
        if r <= res && d != 0 { lead = d; }
        h |= d << (45 - 3 * r);
        r -= 1;
    }
    assume(!(spec_pent(bc) && lead == 1));
    h
}
/// Every valid cell of a resolution: any base cell and digits.
#[inline(always)]
pub fn cell_at(tag: u64, res: u64) -> u64 {
    let bc = nd(tag + 16, 0, 121);
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut lead = 0u64;
    let mut r = 15u64;
    while r >= 1 {
        let d = if r <= res { nd(tag + r, 0, 6) } else { 7 };
        if r <= res && d != 0 { lead = d; }
        h |= d << (45 - 3 * r);
        r -= 1;
    }
    assume(!(spec_pent(bc) && lead == 1));
    h
}
macro_rules! dir { ($d:expr) => { H3_GET_INDEX_DIGIT($d as u64, 15) } }
/// 60 degree counter-clockwise rotation of a direction digit: 1 5 4 6 2 3
#[inline(always)]
pub fn ccw(d: u64) -> u64 { match d { 1 => 5, 5 => 4, 4 => 6, 6 => 2, 2 => 3, 3 => 1, x => x } }
#[inline(always)]
pub fn rotn(d: u64, n: u64) -> u64 { let mut d = d; let mut i = 0; while i < n { d = ccw(d); i += 1; } d }
#[inline(always)]
pub fn nb(h: u64, d: u64, rot: i32) -> (Result<u64, Error>, i32) {
    let mut r = rot;
    let x = h3NeighborRotations(h, dir!(d), &mut r);
    (x, r)
}

pub mod index;
pub mod hier;
pub mod grid;
pub mod disk;
pub mod geom;
pub mod geo;
pub mod misc;
pub mod total;
#[cfg(hk_iter)]
pub mod hk_iter;
#[cfg(hk_coord)]
pub mod hk_coord;
