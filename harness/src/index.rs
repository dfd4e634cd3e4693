//! Index layout, validity, construction, rotation.
use super::*;

#[no_mangle]
pub extern "C" fn h_valid() {
    let h = any_u64(0);
    let v = isValidCell(h);
    check(v == spec_valid(h), 1);
    out(1, v as u64);
    cover(v, 1);
    cover(!v && (h >> 59) == 1, 2);
}

#[no_mangle]
pub extern "C" fn h_get() {
    let h = any_u64(0);
    check(getResolution(h) as u64 == f_res(h), 1);
    check(H3_GET_RESOLUTION(h) as u64 == f_res(h), 2);
    check(H3_GET_BASE_CELL(h) as u64 == f_bc(h), 3);
    check(H3_GET_MODE(h) as u64 == (h >> 59) & 15, 4);
    check(H3_GET_HIGH_BIT(h) as u64 == h >> 63, 5);
    check(H3_GET_RESERVED_BITS(h) as u64 == (h >> 56) & 7, 6);
    let mut r = 1u64;
    while r <= 15 { check(H3_GET_INDEX_DIGIT(h, r as i32) as u64 == f_digit(h, r), 10 + r); r += 1; }
    cover(f_res(h) == 15, 1);
}
#[no_mangle]
pub extern "C" fn h_set() {
    let h = any_u64(0);
    let v = nd(100, 0, 127);
    let put = |sh: u64, w: u64, v: u64| (h & !(((1u64 << w) - 1) << sh)) | (v << sh);
    let mut x = h; H3_SET_HIGH_BIT(&mut x, (v & 1) as i32); check(x == put(63, 1, v & 1), 1);
    let mut x = h; H3_SET_MODE(&mut x, (v & 15) as i32); check(x == put(59, 4, v & 15), 2);
    let mut x = h; H3_SET_RESERVED_BITS(&mut x, (v & 7) as i32); check(x == put(56, 3, v & 7), 3);
    let mut x = h; H3_SET_RESOLUTION(&mut x, (v & 15) as i32); check(x == put(52, 4, v & 15), 4);
    let mut x = h; H3_SET_BASE_CELL(&mut x, v as i32); check(x == put(45, 7, v), 5);
    let mut r = 1u64;
    while r <= 15 {
        let mut x = h; H3_SET_INDEX_DIGIT(&mut x, r as i32, (v & 7) as i32);
        check(x == put(45 - 3 * r, 3, v & 7), 10 + r);
        r += 1;
    }
    cover(true, 1);
}
#[no_mangle]
pub extern "C" fn h_build() {
    let res = nd(17, 0, 15);
    let bc = nd(16, 0, 127);
    let d = nd(1, 0, 7);
    let mut h = nd(99, 0, u64::MAX);
    setH3Index(&mut h, res as i32, bc as i32, d as i32);
    let mut e: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut r = 1u64;
    while r <= 15 { e |= (if r <= res { d } else { 7 }) << (45 - 3 * r); r += 1; }
    check(h == e, 1);
    check(isValidCell(h) == (bc < 122 && (res == 0 || d != 7) && !(spec_pent(bc) && d == 1 && res > 0)), 2);
    cover(isValidCell(h), 1);
    cover(!isValidCell(h), 2);
}
#[no_mangle]
pub extern "C" fn h_lead() {
    let h = any_u64(0);
    check(_h3LeadingNonZeroDigit(h) as u64 == spec_lead(h), 1);
    check(isPentagon(h) == spec_is_pent(h), 2);
    let r = nd(50, 0, u32::MAX as u64) as u32 as i32;
    check(isResolutionClassIII(r) == (r & 1 == 1), 3);
    check(_isBaseCellPentagon(f_bc(h) as i32) == spec_pent(f_bc(h)), 4);
    check(_isBaseCellPolarPentagon(f_bc(h) as i32) == (f_bc(h) == 4 || f_bc(h) == 117), 5);
    cover(isPentagon(h), 1);
    cover(!isPentagon(h) && spec_pent(f_bc(h)), 2);
}
#[no_mangle]
pub extern "C" fn h_zero() {
    let h = any_u64(0);
    let s = param(0); let e = param(1);
    let z = _zeroIndexDigits(h, s as i32, e as i32);
    let mut x = h;
    let mut r = 1u64;
    while r <= 15 { if r >= s && r <= e { x &= !(7u64 << (45 - 3 * r)); } r += 1; }
    check(z == x, 1);
    cover(true, 1);
}

/// Rotations of the digit string.
#[no_mangle]
pub extern "C" fn h_rot() {
    let h = any_u64(0);
    let a = _h3Rotate60ccw(h);
    let b = _h3Rotate60cw(h);
    let mut e = h;
    let mut r = 1u64;
    while r <= 15 {
        if r <= f_res(h) { e = (e & !(7u64 << (45 - 3 * r))) | (ccw(f_digit(h, r)) << (45 - 3 * r)); }
        r += 1;
    }
    check(a == e, 1);
    check(_h3Rotate60cw(a) == h, 2);
    check(_h3Rotate60ccw(b) == h, 3);
    cover(a != h, 1);
}
/// Rotations about a pentagon keep validity, undo each other, and have order five.
#[no_mangle]
pub extern "C" fn h_rotpent() {
    let res = param(0); let bc = param(1);
    let h = mk_cell(0, res, bc);
    let a = _h3RotatePent60ccw(h);
    check(spec_valid(a), 1);
    check(_h3RotatePent60cw(a) == h, 2);
    let b = _h3RotatePent60cw(h);
    check(spec_valid(b), 3);
    check(_h3RotatePent60ccw(b) == h, 4);
    let mut x = h;
    let mut i = 0;
    while i < 5 { x = _h3RotatePent60ccw(x); i += 1; }
    check(x == h, 5);
    // an ordinary rotation that, where it would enter the deleted sub-sequence, goes one step further
    let o = _h3Rotate60ccw(h);
    check(a == if spec_lead(o) == 1 { _h3Rotate60ccw(o) } else { o }, 6);
    cover(spec_lead(h) == 3, 1);
}
