//! One step of the child iterator from any point of the enumeration (needs the hooks).
use super::*;

fn put(c: u64, r: u64, d: u64) -> u64 { (c & !(7u64 << (45 - 3 * r))) | (d << (45 - 3 * r)) }
/// The iterator state that goes with child c, in the form the iterator is known to use.
#[inline(always)]
fn skip_of(c: u64, res: u64, pent: bool) -> i32 {
    let cr = f_res(c);
    if !pent { return -1; }
    let mut p = cr as i32;
    let mut r = cr;
    while r > res { if f_digit(c, r) != 0 { p = r as i32 - 1; } r -= 1; }
    p
}
#[inline(always)]
fn succ(c: u64, res: u64, pent: bool) -> (bool, u64) {
    let cr = f_res(c);
    let mut x = c;
    let mut carry = true;
    let mut r = cr;
    while r > res { let d = f_digit(c, r); if carry { if d == 6 { x = put(x, r, 0); } else { x = put(x, r, d + 1); carry = false; } } r -= 1; }
    if pent {
        // skip the deleted direction
        let mut lead = 0; let mut at = 0;
        let mut r = cr;
        while r > res { let d = f_digit(x, r); if d != 0 { lead = d; at = r; } r -= 1; }
        let mut r = cr;
        while r > res { if lead == 1 && at == r { x = put(x, r, 2); } r -= 1; }
    }
    (!carry, x)
}
/// Whether the iterator's state has the known form: compared along short real enumerations.
#[inline(never)]
fn shape() -> bool {
    let mut ok = true;
    let mut b = 0;
    while b < 2 {
        let pent = b == 0;
        let p = (1u64 << 59) | (2u64 << 52) | ((if pent { 4u64 } else { 5 }) << 45) | ((1u64 << 39) - 1);
        let mut it = IterCellsChildren::from_parent(p, 4);
        let mut c = put(put((p & !(15u64 << 52)) | (4u64 << 52), 3, 0), 4, 0);
        let mut k = 0;
        while k < (if pent { 41 } else { 49 }) {
            ok &= it.vf_state() == (c, 2, skip_of(c, 2, pent));
            it.next();
            c = succ(c, 2, pent).1;
            k += 1;
        }
        ok &= it.vf_state().0 == 0 && it.next().is_none();
        b += 1;
    }
    ok
}
/// p0 = parent resolution, p1 = base cell, p2 = levels, p3 = parent is a pentagon
#[no_mangle]
pub extern "C" fn h_iterstep() {
    let res = param(0); let bc = param(1); let n = param(2); let pent = spec_pent(bc) && (param(3) == 1 || res == 0);
    if !shape() { return; }
    let cr = res + n;
    let mut c = (1u64 << 59) | (cr << 52) | (bc << 45);
    let mut plead = 0; let mut clead = 0;
    let mut r = 15u64;
    while r >= 1 {
        let d = if r > cr { 7 } else if r <= res && param(3) == 1 { 0 } else { nd(r, 0, 6) };
        if r <= res && d != 0 { plead = d; }
        if r > res && r <= cr && d != 0 { clead = d; }
        c |= d << (45 - 3 * r);
        r -= 1;
    }
    assume(res == 0 || param(3) == 1 || plead != 0);
    assume(!(spec_pent(bc) && plead == 1));
    assume(!(pent && clead == 1));
    let mut p = (c & !(15u64 << 52)) | (res << 52);
    let mut first = c;
    let mut r = res + 1;
    while r <= cr { p = put(p, r, 7); first = put(first, r, 0); r += 1; }
    // where the enumeration starts
    let mut it = IterCellsChildren::from_parent(p, cr as i32);
    check(it.vf_state() == (first, res as i32, skip_of(first, res, pent)), 13);
    match it.next() { Some(x) => check(x == first, 11), None => check(false, 12) }
    // how it goes on from any of its cells
    let mut it = IterCellsChildren::vf_new(c, res as i32, skip_of(c, res, pent));
    let (more, s) = succ(c, res, pent);
    match it.next() { Some(x) => check(x == c, 1), None => check(false, 2) }
    let st = it.vf_state();
    if more { check(st == (s, res as i32, skip_of(s, res, pent)), 3); } else { check(st.0 == 0, 4); }
    match it.next() { Some(x) => check(more && x == s, 5), None => check(!more, 6) }
    cover(more, 1);
    cover(!more, 2);
}
/// The real enumeration, cell by cell (run natively to confirm a counterexample of h_iterstep); same parameters and inputs
#[no_mangle]
pub extern "C" fn h_iterreal() {
    let res = param(0); let bc = param(1); let n = param(2); let pent = spec_pent(bc) && (param(3) == 1 || res == 0);
    let cr = res + n;
    let mut p = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut r = 15u64;
    while r >= 1 { let d = if r > res { 7 } else if param(3) == 1 { 0 } else { nd(r, 0, 6) }; p |= d << (45 - 3 * r); r -= 1; }
    let mut c = (p & !(15u64 << 52)) | (cr << 52);
    let mut r = res + 1;
    while r <= cr { c = put(c, r, 0); r += 1; }
    let mut it = IterCellsChildren::from_parent(p, cr as i32);
    loop {
        match it.next() { Some(x) => { check(x == c, 1); if x != c { return; } } None => { check(false, 2); return; } }
        let (more, s) = succ(c, res, pent);
        if !more { break; }
        c = s;
    }
    check(it.next().is_none(), 3);
}
