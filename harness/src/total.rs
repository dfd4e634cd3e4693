//! Every 64-bit value, valid or not, gets an answer: nothing panics and nothing runs on for ever.
use super::*;

/// Any index with the given resolution and base cell fields: digits 0 to 7, any mode, reserved and high bits.
#[inline(always)]
fn any_at(tag: u64, res: u64, bc: u64) -> u64 {
    let mut h: u64 = (res << 52) | (bc << 45);
    h |= nd(tag + 20, 0, 1) << 63;
    h |= nd(tag + 19, 0, 15) << 59;
    h |= nd(tag + 18, 0, 7) << 56;
    let mut r = 15u64;
    while r >= 1 { h |= nd(tag + r, 0, 7) << (45 - 3 * r); r -= 1; }
    h
}
/// p0 = resolution field, p1 = base cell field (up to 127): a step in any direction from any start rotation
#[no_mangle]
pub extern "C" fn h_anynb() {
    let h = any_at(0, param(0), param(1));
    let mut d = 0;
    while d <= 7 { anynb_(h, d); d += 1; }
}
#[inline(never)]
fn anynb_(h: u64, d: u64) {
    let s = nd(40, 0, 5);
    let (n, r) = nb(h, d, s as i32);
    match n {
        Ok(_) => { check(d < 7, 1); check(r >= 0 && r < 6, 2); cover(true, 1); }
        Err(ref e) => { check(*e == Error::Pentagon || *e == Error::CellInvalid || *e == Error::Failed, 3); check(d != 7 || *e == Error::Failed, 4); cover(true, 2); }
    }
    if d == 0 { if let Ok(n) = n { check(n == h || spec_pent(f_bc(h)), 5); } }
}
/// edges: reading any value as an edge; p0, p1 as above
#[no_mangle]
pub extern "C" fn h_anyedge() {
    let h = any_at(0, param(0), param(1));
    let v = isValidDirectedEdge(h);
    let o = getDirectedEdgeOrigin(h);
    let mode = (h >> 59) & 15;
    match o { Ok(o) => { check(mode == 2, 1); check(o == (h & !(0x7fu64 << 56)) | (1u64 << 59), 2); cover(true, 1); } Err(ref e) => { check(mode != 2 && *e == Error::DirectedEdgeInvalid, 3); cover(true, 2); } }
    let d = getDirectedEdgeDestination(h);
    check(mode == 2 || d == Err(Error::DirectedEdgeInvalid), 4);
    match (d, directedEdgeToCells(h)) {
        (Ok(d), Ok((a, b))) => { check(Ok(a) == o && b == d, 5); }
        (Err(a), Err(b)) => { check(a == b, 6); check(!v, 7); }
        _ => check(false, 8),
    }
}
/// p0, p1 as above: edges between any value and any other
#[no_mangle]
pub extern "C" fn h_anypair() {
    let h = any_at(0, param(0), param(1));
    let n = nd(100, 0, u64::MAX);
    let d = directionForNeighbor(h, n) as u64;
    check(d >= 1, 1);
    match cellsToDirectedEdge(h, n) {
        Ok(e) => { check(d < 7, 2); check(e == (h & !(0x7fu64 << 56)) | (2u64 << 59) | (d << 56), 3); cover(true, 1); }
        Err(e) => { check(d == 7 && e == Error::NotNeighbors, 4); cover(true, 2); }
    }
}
/// p0, p1 as above: disks and rings about a value whose digits need not be digits
#[no_mangle]
pub extern "C" fn h_anydisk() {
    let (res, bc) = (param(0), param(1));
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut r = 15u64;
    while r >= 1 { h |= (if r <= res { nd(r, 0, 7) } else { 7 }) << (45 - 3 * r); r -= 1; }
    match gridRingUnsafe(h, 1) { Ok(v) => { check(v.len() == 6, 1); cover(true, 1); } Err(_) => { cover(true, 2); } }
    match gridDiskDistances(h, 1) { Ok(v) => { check(v.len() <= 7, 2); cover(true, 3); } Err(_) => { cover(true, 4); } }
}
/// p0 = resolution field: any value with it, any base cell field
#[inline(always)]
fn any_res(tag: u64, res: u64) -> u64 { any_at(tag, res, 0) | (nd(tag + 16, 0, 127) << 45) }
/// children of any value: the first steps; p0 = resolution field, p1 = base cell field, p2 = resolution of the children,
/// p3 = whether the digits down to the resolution are all zero
#[no_mangle]
pub extern "C" fn h_anyiter() {
    let (res, cr) = (param(0), param(2));
    let mut h = any_at(0, res, param(1));
    if param(3) == 1 { let mut r = 1; while r <= res { h &= !(7u64 << (45 - 3 * r)); r += 1; } }
    assume(param(3) == 1 || spec_lead(h) != 0);
    let mut it = IterCellsChildren::from_parent(h, cr as i32);
    match it.next() {
        Some(_) => { check(cr >= res, 1); cover(true, 1); }
        None => { check(cr < res || cr > 15 || h == 0, 2); cover(true, 2); }
    }
    if cr >= res && cr <= 15 { it.next(); it.next(); }
}
/// the child of any value at any position; p0 = resolution field, p1 = resolution of the child
#[no_mangle]
pub extern "C" fn h_anypos() {
    let (res, cr) = (param(0), param(1));
    let h = any_res(0, res);
    let pos = nd(31, 0, u64::MAX) as i64;
    let refused = cr > 15 || cr < res;
    let sz = cellToChildrenSize(h, cr as i32);
    check(sz.is_err() == refused, 1);
    let ok = validateChildPos(pos, h, cr as i32).is_ok();
    match sz { Ok(n) => check(ok == (pos >= 0 && pos < n), 2), Err(_) => check(!ok, 3) }
    check(childPosToCell(pos, h, cr as i32).is_ok() == ok, 4);
    cover(ok, 1);
    cover(!ok, 2);
}
/// predicates of any value
#[no_mangle]
pub extern "C" fn h_anypred() {
    let h = any_u64(0);
    check(getResolution(h) as u64 == f_res(h), 1);
    check(isPentagon(h) == spec_is_pent(h), 2);
    check(!(isValidCell(h) && isValidDirectedEdge(h)), 3);
    let e = originToDirectedEdges(h);
    let i = nd(30, 0, 5);
    check(e[i as usize] == if spec_is_pent(h) && i == 0 { 0 } else { (h & !(0x7fu64 << 56)) | (2u64 << 59) | ((i + 1) << 56) }, 4);
    cover(isPentagon(h) && !isValidCell(h), 1);
    cover(isValidDirectedEdge(h), 2);
}
