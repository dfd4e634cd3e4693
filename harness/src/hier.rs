//! Parent/child hierarchy.
use super::*;

/// children counts for every valid cell; p0 = child resolution
#[no_mangle]
pub extern "C" fn h_size() {
    let cr = param(0);
    let h = any_cell(0);
    let res = f_res(h);
    match cellToChildrenSize(h, cr as i32) {
        Ok(n) => {
            check(res <= cr, 1);
            let mut e = 0u64;
            let mut q = 0u64;
            while q <= cr { if q == res { e = spec_size(spec_is_pent(h), cr - q); } q += 1; }
            check(n == e as i64, 2);
            cover(res == 0 && !spec_is_pent(h), 1);
            cover(spec_is_pent(h), 2);
        }
        Err(e) => { check(e == Error::ResDomain, 3); check(res > cr, 4); cover(cr == 15 || res > cr, 3); }
    }
    check(_hasChildAtRes(h, cr as i32) == (cr >= res), 5);
}
/// out-of-range child resolutions; p0 = resolution, p1 = too large / negative
#[no_mangle]
pub extern "C" fn h_badres() {
    let h = cell_at(0, param(0));
    let c = if param(1) == 0 { nd(60, 16, i32::MAX as u64) as i32 } else { -1 - nd(60, 0, i32::MAX as u64) as i32 };
    match cellToChildrenSize(h, c) { Ok(_) => check(false, 1), Err(e) => check(e == Error::ResDomain, 2) }
    check(!_hasChildAtRes(h, c), 3);
    let p = nd(61, 0, u64::MAX) as i64;
    match childPosToCell(p, h, c) { Ok(_) => check(false, 4), Err(e) => check(e == Error::ResDomain, 5) }
    match validateChildPos(p, h, c) { Ok(_) => check(false, 6), Err(e) => check(e == Error::ResDomain, 7) }
    match cellToChildren(h, c) { Ok(v) => check(v.len() == 0, 8), Err(e) => check(e == Error::ResDomain, 9) }
    cover(true, 1);
}
/// children of a cell, in full; p0 = parent resolution, p1 = base cell, p2 = levels, p3 = parent is a pentagon
#[no_mangle]
pub extern "C" fn h_children() {
    let res = param(0); let bc = param(1); let n = param(2); let pent = param(3) == 1;
    let h = mk_cell(0, res, bc);
    assume((spec_lead(h) == 0) == (pent || res == 0));
    let cr = res + n;
    let mut it = IterCellsChildren::from_parent(h, cr as i32);
    let total = pow7(n);
    let base = (h & !(15u64 << 52)) | (cr << 52);
    let is_pent = spec_pent(bc) && (pent || res == 0);
    let mut k = 0u64;
    let mut cnt = 0u64;
    while k < total {
        // digits of k in base seven, coarse to fine
        let mut x = k; let mut c = base; let mut lead = 0u64; let mut r = cr;
        while r > res { let d = x % 7; x /= 7; if d != 0 { lead = d; } c = (c & !(7u64 << (45 - 3 * r))) | (d << (45 - 3 * r)); r -= 1; }
        if !(is_pent && lead == 1) {
            match it.next() { Some(y) => check(y == c, 1), None => check(false, 2) }
            check(spec_valid(c), 3);
            cnt += 1;
        }
        k += 1;
    }
    check(it.next().is_none(), 4);
    check(it.next().is_none(), 5);
    match cellToChildrenSize(h, cr as i32) { Ok(s) => check(s as u64 == cnt, 6), Err(_) => check(false, 7) }
    cover(true, 1);
}
/// the same sequence through the vector interface
#[no_mangle]
pub extern "C" fn h_childvec() {
    let res = param(0); let bc = param(1); let n = param(2); let pent = param(3) == 1;
    let h = mk_cell(0, res, bc);
    assume((spec_lead(h) == 0) == (pent || res == 0));
    let cr = res + n;
    let v = match cellToChildren(h, cr as i32) { Ok(v) => v, Err(_) => { check(false, 1); return; } };
    let total = pow7(n);
    let base = (h & !(15u64 << 52)) | (cr << 52);
    let is_pent = spec_pent(bc) && (pent || res == 0);
    let mut k = 0u64;
    let mut cnt = 0usize;
    while k < total {
        let mut x = k; let mut c = base; let mut lead = 0u64; let mut r = cr;
        while r > res { let d = x % 7; x /= 7; if d != 0 { lead = d; } c = (c & !(7u64 << (45 - 3 * r))) | (d << (45 - 3 * r)); r -= 1; }
        if !(is_pent && lead == 1) {
            if cnt < v.len() { check(v[cnt] == c, 2); } else { check(false, 3); }
            cnt += 1;
        }
        k += 1;
    }
    check(v.len() == cnt, 4);
    cover(true, 1);
}
/// position of every child; p0 = parent resolution, p1 = base cell, p2 = levels, p3 = first level with a non-zero
/// digit (p2 when the digits below the parent are all zero), p4 = parent's digits are all zero
#[no_mangle]
pub extern "C" fn h_childpos() {
    let res = param(0); let bc = param(1); let n = param(2);
    let cr = res + n;
    let j = param(3);
    // a valid child, and its parent
    let mut c: u64 = (1u64 << 59) | (cr << 52) | (bc << 45);
    let mut r = 15u64;
    let mut plead = 0;
    while r >= 1 {
        let d = if r > cr { 7 } else if r <= res { if param(4) == 1 { 0 } else { nd(r, 0, 6) } } else if r - res - 1 < j { 0 } else if r - res - 1 == j { nd(r, if spec_pent(bc) && param(4) == 1 { 2 } else { 1 }, 6) } else { nd(r, 0, 6) };
        if r <= res && d != 0 { plead = d; }
        c |= d << (45 - 3 * r);
        r -= 1;
    }
    assume(!(spec_pent(bc) && spec_lead(c) == 1));
    assume(param(4) == 1 || plead != 0);
    let mut p = (c & !(15u64 << 52)) | (res << 52);
    let mut r = res + 1;
    while r <= cr { p |= 7u64 << (45 - 3 * r); r += 1; }
    let ppent = spec_pent(bc) && spec_lead(p) == 0;
    // rank of c among the children of p
    let mut pos = 0u64;
    let mut inpent = ppent;
    let mut r = res + 1;
    while r <= cr {
        let w = pow7(cr - r);
        let d = f_digit(c, r);
        // children before digit d: d full hexagon blocks; inside a pentagon the zero block is short and block 1 is absent
        let wp = spec_size(true, cr - r);
        pos += if inpent && d >= 2 { wp + (d - 2) * w } else { d * w };
        if d != 0 { inpent = false; }
        r += 1;
    }
    check(pos < spec_size(ppent, n), 1);
    match childPosToCell(pos as i64, p, cr as i32) { Ok(x) => check(x == c, 2), Err(_) => check(false, 3) }
    match validateChildPos(pos as i64, p, cr as i32) { Ok(_) => {}, Err(_) => check(false, 4) }
    cover(true, 1);
}
/// positions out of range, and resolutions below the parent's
#[no_mangle]
pub extern "C" fn h_badpos() {
    let res = param(0); let cr = param(1);
    let h = cell_at(0, res);
    let p = nd(61, 0, u64::MAX) as i64;
    if cr < res {
        match childPosToCell(p, h, cr as i32) { Ok(_) => check(false, 1), Err(e) => check(e == Error::ResMismatch, 2) }
        match validateChildPos(p, h, cr as i32) { Ok(_) => check(false, 3), Err(e) => check(e == Error::ResDomain, 4) }
        cover(true, 1);
    } else {
        let size = spec_size(spec_is_pent(h), cr - res) as i64;
        assume(p < 0 || p >= size);
        match childPosToCell(p, h, cr as i32) { Ok(_) => check(false, 5), Err(e) => check(e == Error::Domain, 6) }
        match validateChildPos(p, h, cr as i32) { Ok(_) => check(false, 7), Err(e) => check(e == Error::Domain, 8) }
        cover(p < 0, 1);
        cover(p == size, 2);
    }
}
