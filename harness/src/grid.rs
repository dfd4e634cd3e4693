//! Neighbours, walks, directed edges, disks and rings.
use super::*;

/// p0 = resolution, p1 = base cell, p2 = direction (0: all six)
#[no_mangle]
pub extern "C" fn h_nb() {
    let res = param(0); let h = mk_cell(0, res, param(1));
    let p = param(2); let mut d = if p == 0 { 1 } else { p };
    while d <= 6 { nb_(h, res, d); if p != 0 { break; } d += 1; }
}
#[inline(never)]
fn nb_(h: u64, res: u64, d: u64) {
    let (n, r) = nb(h, d, 0);
    match n {
        Ok(n) => { out(d, n); out(10 + d, r as u64); check(spec_valid(n), 1); check(f_res(n) == res, 2); check(n != h, 3); check(r >= 0 && r < 6, 5); cover(true, 1); }
        Err(ref e) => { check(*e == Error::Pentagon && res > 0 && d == 1 && spec_is_pent(h), 4); cover(true, 2); }
    }
    // the start rotation only turns the direction
    let s = nd(40, 0, 5);
    let (n2, _) = nb(h, rotn(d, 6 - s), s as i32);
    match (n, n2) { (Ok(a), Ok(b)) => check(a == b, 6), (Err(a), Err(b)) => check(a == b, 7), _ => check(false, 8) }
}
/// neighbour relation is symmetric
#[no_mangle]
pub extern "C" fn h_sym() {
    let res = param(0); let h = mk_cell(0, res, param(1));
    let p = param(2); let mut d = if p == 0 { 1 } else { p };
    while d <= 6 { sym_(h, res, d); if p != 0 { break; } d += 1; }
}
#[inline(never)]
fn sym_(h: u64, res: u64, d: u64) {
    if let (Ok(n), _) = nb(h, d, 0) {
        let mut c = false;
        let mut e = 1;
        while e <= 6 { if let (Ok(b), _) = nb(n, e, 0) { c |= b == h; } e += 1; }
        check(c, 1);
        cover(true, 1);
    }
}
/// six different neighbours, five for a pentagon
#[no_mangle]
pub extern "C" fn h_distinct() {
    let res = param(0); let bc = param(1);
    let h = mk_cell(0, res, bc);
    let pent = spec_is_pent(h);
    let mut a = [0u64; 7];
    let mut d = 1u64;
    while d <= 6 { if let (Ok(n), _) = nb(h, d, 0) { a[d as usize] = n; } d += 1; }
    let mut d = 1;
    while d <= 6 {
        check(pent && d == 1 || a[d] != 0, 1);
        let mut e = d + 1;
        while e <= 6 { check(pent && d == 1 || a[d] != a[e], 2); e += 1; }
        d += 1;
    }
    cover(true, 1);
}
/// walks: reversible, and closed around every triangle
#[no_mangle]
pub extern "C" fn h_walk() {
    let res = param(0); let h = mk_cell(0, res, param(1));
    let p = param(2); let mut d = if p == 0 { 1 } else { p };
    while d <= 6 { walk_(h, res, d); if p != 0 { break; } d += 1; }
}
#[inline(never)]
fn walk_(h: u64, res: u64, d: u64) {
    let (n, r1) = nb(h, d, 0);
    let n = match n { Ok(n) => n, Err(_) => return };
    if spec_is_pent(h) || spec_is_pent(n) { return; }
    let (b, r2) = nb(n, rotn(d, 3), r1);
    match b { Ok(b) => { check(b == h, 1); check(r2 == 0, 2); } Err(_) => check(false, 3) }
    cover(true, 1);
}
#[no_mangle]
pub extern "C" fn h_tri() {
    let res = param(0); let h = mk_cell(0, res, param(1));
    let p = param(2); let mut d = if p == 0 { 1 } else { p };
    while d <= 6 { tri_(h, res, d); if p != 0 { break; } d += 1; }
}
#[inline(never)]
fn tri_(h: u64, res: u64, d: u64) {
    let (n, r1) = nb(h, d, 0);
    let (m, rm) = nb(h, ccw(d), 0);
    let (n, m) = match (n, m) { (Ok(n), Ok(m)) => (n, m), _ => return };
    if spec_is_pent(h) || spec_is_pent(n) || spec_is_pent(m) { return; }
    let (t, rt) = nb(n, rotn(d, 2), r1);
    match t { Ok(t) => { check(t == m, 4); check(rt == rm, 5); } Err(_) => check(false, 6) }
    cover(true, 1);
}
/// directed edges from a cell; p0 = resolution, p1 = base cell, p2 = direction
#[no_mangle]
pub extern "C" fn h_edge() {
    let res = param(0); let h = mk_cell(0, res, param(1));
    let p = param(2); let mut d = if p == 0 { 1 } else { p };
    while d <= 6 { edge_(h, res, d); if p != 0 { break; } d += 1; }
}
#[inline(never)]
fn edge_(h: u64, res: u64, d: u64) {
    let pent = spec_is_pent(h);
    let edges = originToDirectedEdges(h);
    let e = (h & !(15u64 << 59)) | (2u64 << 59) | (d << 56);
    if pent && d == 1 {
        check(edges[0] == 0, 1);
        check(!isValidDirectedEdge(e), 2);
    } else {
        check(edges[d as usize - 1] == e, 3);
        check(isValidDirectedEdge(e), 4);
        check(!isValidCell(e), 5);
        match getDirectedEdgeOrigin(e) { Ok(o) => check(o == h, 6), Err(_) => check(false, 7) }
        if let (Ok(n), _) = nb(h, d, 0) {
            match getDirectedEdgeDestination(e) { Ok(o) => check(o == n, 8), Err(_) => check(false, 9) }
            match directedEdgeToCells(e) { Ok((a, b)) => check(a == h && b == n, 10), Err(_) => check(false, 11) }
            match cellsToDirectedEdge(h, n) { Ok(x) => check(x == e, 12), Err(_) => check(false, 13) }
            check(directionForNeighbor(h, n) as u64 == d, 14);
            cover(true, 1);
        }
    }
}
/// cells that are not neighbours have no edge: p0 = resolution, p1 = base cell; the other cell is arbitrary
#[no_mangle]
pub extern "C" fn h_noedge() {
    let res = param(0); let bc = param(1);
    let h = mk_cell(0, res, bc);
    let o = nd(100, 0, u64::MAX);
    let pent = spec_is_pent(h);
    let mut dd = 7u64;
    let mut d = 6u64;
    while d >= 1 { if !(pent && d == 1) { if let (Ok(n), _) = nb(h, d, 0) { if n == o { dd = d; } } } d -= 1; }
    check(directionForNeighbor(h, o) as u64 == dd, 1);
    match cellsToDirectedEdge(h, o) {
        Ok(e) => { check(dd != 7, 2); check(e == ((h & !(15u64 << 59)) | (2u64 << 59) | (dd << 56)), 3); cover(true, 1); }
        Err(e) => { check(dd == 7, 4); check(e == Error::NotNeighbors, 5); cover(spec_valid(o), 2); }
    }
}
/// validity of directed edges, over every 64-bit value
#[no_mangle]
pub extern "C" fn h_validedge() {
    let e = any_u64(0);
    let o = (e & !(15u64 << 59) & !(7u64 << 56)) | (1u64 << 59);
    let d = (e >> 56) & 7;
    let v = (e >> 59) & 15 == 2 && d != 0 && d != 7 && spec_valid(o) && !(d == 1 && spec_is_pent(o));
    check(isValidDirectedEdge(e) == v, 1);
    match getDirectedEdgeOrigin(e) {
        Ok(x) => check((e >> 59) & 15 == 2 && x == o, 2),
        Err(x) => check((e >> 59) & 15 != 2 && x == Error::DirectedEdgeInvalid, 3),
    }
    cover(v, 1);
    cover(!v && (e >> 59) == 2, 2);
}
