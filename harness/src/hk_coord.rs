//! Hexagon coordinates (needs the hooks).
use super::*;
use h3_rs::vf_hooks::*;
use h3_rs::vec2d::Vec2d;
use h3_rs::base_cells::*;

const B: i64 = 1 << 27;
#[inline(always)]
fn ndi(tag: u64, lo: i64, hi: i64) -> i32 { (nd(tag, 0, (hi - lo) as u64) as i64 + lo) as i32 }
#[inline(always)]
fn canon(c: &CoordIJK) -> bool { c.i >= 0 && c.j >= 0 && c.k >= 0 && (c.i == 0 || c.j == 0 || c.k == 0) }
#[inline(always)]
fn same(a: &CoordIJK, b: &CoordIJK) -> bool { a.i == b.i && a.j == b.j && a.k == b.k }
#[inline(always)]
fn cp(a: &CoordIJK) -> CoordIJK { CoordIJK { i: a.i, j: a.j, k: a.k } }
/// normalised coordinates: a steps in one direction and b in the next one, so the sextant is p0 (0 to 5)
#[inline(always)]
fn any_canon(tag: u64, sextant: u64, b: i64) -> CoordIJK {
    let x = ndi(tag, 0, b); let y = ndi(tag + 1, 0, b);
    match sextant {
        0 => CoordIJK { i: x + y, j: y, k: 0 }, // i, ij
        1 => CoordIJK { i: x, j: x + y, k: 0 }, // ij, j
        2 => CoordIJK { i: 0, j: x + y, k: y }, // j, jk
        3 => CoordIJK { i: 0, j: x, k: x + y }, // jk, k
        4 => CoordIJK { i: y, j: 0, k: x + y }, // k, ik
        _ => CoordIJK { i: x + y, j: 0, k: x }, // ik, i
    }
}
#[no_mangle]
pub extern "C" fn h_ijknorm() {
    let a = CoordIJK { i: ndi(1, -B, B), j: ndi(2, -B, B), k: ndi(3, -B, B) };
    let mut c = cp(&a);
    _ijkNormalize(&mut c);
    check(canon(&c), 1);
    check(c.i - c.k == a.i - a.k && c.j - c.k == a.j - a.k, 2);
    let mut e = cp(&c);
    _ijkNormalize(&mut e);
    check(same(&c, &e), 3);
    cover(a.i < 0 && a.j < 0, 1);
    cover(a.i > 0 && a.j > 0 && a.k > 0, 2);
}
#[inline(always)]
fn axial(c: &CoordIJK) -> (i32, i32) { (c.i - c.k, c.j - c.k) }
/// a cell or one of its six neighbours
#[inline(always)]
fn adjacent(u: i32, v: i32) -> bool { u >= -1 && u <= 1 && v >= -1 && v <= 1 && u - v >= -1 && u - v <= 1 }
/// rotations by a sixth of a turn: p0 = sextant, p1 = direction
#[no_mangle]
pub extern "C" fn h_ijkrot() {
    let a = any_canon(1, param(0), 1 << 24);
    let (u, v) = axial(&a);
    let mut c = cp(&a);
    // (1, 0) goes to (1, 1), (1, 1) to (0, 1)
    let want = if param(1) == 0 { _ijkRotate60ccw(&mut c); (u - v, u) } else { _ijkRotate60cw(&mut c); (v, v - u) };
    check(canon(&c), 1);
    check(axial(&c) == want, 2);
    cover(a.i > 0 || a.j > 0 || a.k > 0, 1);
}
/// centres of the finer grid: p0 = sextant, p1 = orientation
#[no_mangle]
pub extern "C" fn h_ijkdown() {
    let a = any_canon(1, param(0), 1 << 23);
    let (u, v) = axial(&a);
    let mut c = cp(&a);
    let want = if param(1) == 1 { _downAp7r(&mut c); (3 * u - v, u + 2 * v) } else { _downAp7(&mut c); (2 * u + v, 3 * v - u) };
    check(canon(&c), 1);
    check(axial(&c) == want, 2);
    cover(a.i > 0 || a.j > 0 || a.k > 0, 1);
}
/// every cell of the finer grid is the centre child of its parent or next to it: p0, p1 as above
#[no_mangle]
pub extern "C" fn h_ijkup() {
    let a = any_canon(1, param(0), 1 << 23);
    let (u, v) = axial(&a);
    let mut p = cp(&a);
    if param(1) == 1 { _upAp7r(&mut p); } else { _upAp7(&mut p); }
    check(canon(&p), 1);
    let (x, y) = axial(&p);
    let (du, dv) = if param(1) == 1 { (u - (3 * x - y), v - (x + 2 * y)) } else { (u - (2 * x + y), v - (3 * y - x)) };
    check(adjacent(du, dv), 2);
    cover(a.i > 0 || a.j > 0 || a.k > 0, 1);
}
/// the cell next to a cell: p0 = sextant, p1 = digit
#[no_mangle]
pub extern "C" fn h_ijknb() {
    let a = any_canon(1, param(0), 1 << 24);
    let (u, v) = axial(&a);
    let mut c = cp(&a);
    _neighbor(&mut c, H3_GET_INDEX_DIGIT(param(1), 15));
    check(canon(&c), 1);
    let (du, dv) = match param(1) { 1 => (-1, -1), 2 => (0, 1), 3 => (-1, 0), 4 => (1, 0), 5 => (0, -1), 6 => (1, 1), _ => (0, 0) };
    check(axial(&c) == (u + du, v + dv), 2);
    cover(a.i > 0 || a.j > 0 || a.k > 0, 1);
}
/// sums, differences and multiples: no bounds but those of the arithmetic
#[no_mangle]
pub extern "C" fn h_ijkops() {
    let a = CoordIJK { i: ndi(1, -B, B), j: ndi(2, -B, B), k: ndi(3, -B, B) };
    let b = CoordIJK { i: ndi(4, -B, B), j: ndi(5, -B, B), k: ndi(6, -B, B) };
    let mut s = CoordIJK { i: 0, j: 0, k: 0 };
    _ijkAdd(cp(&a), cp(&b), &mut s);
    check(s.i == a.i + b.i && s.j == a.j + b.j && s.k == a.k + b.k, 1);
    _ijkSub(cp(&a), cp(&b), &mut s);
    check(s.i == a.i - b.i && s.j == a.j - b.j && s.k == a.k - b.k, 2);
    check(_ijkMatches(cp(&a), cp(&b)) == same(&a, &b), 3);
    let mut m = cp(&a);
    _ijkScale(&mut m, 3);
    check(m.i == 3 * a.i && m.j == 3 * a.j && m.k == 3 * a.k, 4);
    cover(a.i == b.i && a.j != b.j, 1);
}
/// digits and unit vectors
#[no_mangle]
pub extern "C" fn h_ijkunit() {
    let a = CoordIJK { i: ndi(1, -B, B), j: ndi(2, -B, B), k: ndi(3, -B, B) };
    let (u, v) = (a.i - a.k, a.j - a.k);
    let d = match (u, v) { (0, 0) => 0, (-1, -1) => 1, (0, 1) => 2, (-1, 0) => 3, (1, 0) => 4, (0, -1) => 5, (1, 1) => 6, _ => 7 };
    check(_unitIjkToDigit(cp(&a)) as u64 == d, 1);
    let e = nd(4, 0, 7);
    check(_rotate60ccw(H3_GET_INDEX_DIGIT(e, 15)) as u64 == ccw(e), 2);
    check(_rotate60cw(_rotate60ccw(H3_GET_INDEX_DIGIT(e, 15))) as u64 == e, 3);
    cover(d == 1, 1);
    cover(d == 7, 2);
}
/// the doubles from 0 to 2^b with the given sign
#[inline(always)]
fn any_coord(tag: u64, b: u64, negative: bool) -> f64 {
    let v = f64::from_bits(nd(tag, 0, (1023 + b) << 52));
    if negative { -v } else { v }
}
/// the hexagon found for a point of the plane contains it: p0 = quadrant, p1 = bits
#[no_mangle]
pub extern "C" fn h_hex2d() {
    let q = param(0);
    let (x, y) = (any_coord(1, param(1), q & 1 == 1), any_coord(2, param(1), q & 2 == 2));
    let mut c = CoordIJK { i: 0, j: 0, k: 0 };
    _hex2dToCoordIJK(Vec2d { x, y }, &mut c);
    check(canon(&c), 1);
    // away from the centre, along the three axes on which the neighbours lie
    let (u, v) = ((c.i - c.k) as f64, (c.j - c.k) as f64);
    let dx = x - (u - 0.5 * v);
    let dy = y - v * 0.8660254037844386;
    let half = 0.500001;
    check(dx <= half && dx >= -half, 2);
    let s = 0.5 * dx + 0.8660254037844386 * dy;
    check(s <= half && s >= -half, 3);
    let t = 0.8660254037844386 * dy - 0.5 * dx;
    check(t <= half && t >= -half, 4);
    cover(c.i > 0, 1);
    cover(c.i > 100 || c.j > 100 || c.k > 100, 2);
}
/// the centre of a hexagon lies in it: p0 = sextant, p1 = bits
#[no_mangle]
pub extern "C" fn h_hexcentre() {
    let a = any_canon(1, param(0), 1 << param(1));
    let v = _ijkToHex2d(&a);
    let mut c = CoordIJK { i: 0, j: 0, k: 0 };
    _hex2dToCoordIJK(v, &mut c);
    check(same(&a, &c), 1);
    cover(a.i > 100 || a.j > 100 || a.k > 100, 1);
}
/// centres are spaced by one: p0 = sextant
#[no_mangle]
pub extern "C" fn h_hexgrid() {
    let a = any_canon(1, param(0), 1 << 23);
    let p = _ijkToHex2d(&a);
    let (u, v) = ((a.i - a.k) as f64, (a.j - a.k) as f64);
    let (dx, dy) = (p.x - (u - 0.5 * v), p.y - v * 0.8660254037844386);
    check(dx <= 1e-6 && dx >= -1e-6, 1);
    check(dy <= 1e-6 && dy >= -1e-6, 2);
    cover(a.i > 100 || a.j > 100 || a.k > 100, 1);
}

/// the largest coordinate sum on a face, at an even resolution
#[inline(always)]
fn face_dim(res: u64) -> i32 { let mut d = 2; let mut r = 0; while r < res { d *= 7; r += 2; } d }
/// distance towards the far edge of a side of the face, and position along it, in coordinates (0 = ij, 1 = jk, 2 = ki)
#[inline(always)]
fn side(q: u64, c: &CoordIJK) -> (i32, i32) {
    match q { 0 => (c.i + c.j - 2 * c.k, c.j - c.i), 1 => (c.j + c.k - 2 * c.i, c.k - c.j), _ => (c.k + c.i - 2 * c.j, c.i - c.k) }
}
/// coordinates with a given distance and position on a side
#[inline(always)]
fn from_side(q: u64, l: i32, m: i32) -> CoordIJK {
    let (a, b) = ((l - m) / 2, (l + m) / 2);
    let mut c = match q { 0 => CoordIJK { i: a, j: b, k: 0 }, 1 => CoordIJK { i: 0, j: a, k: b }, _ => CoordIJK { i: b, j: 0, k: a } };
    _ijkNormalize(&mut c);
    c
}
/// a cell that leaves its face over one of the sides, quadrant coordinates
#[inline(always)]
fn in_quadrant(q: u64, x: i32, y: i32) -> CoordIJK {
    match q { 0 => CoordIJK { i: x, j: y, k: 0 }, 1 => CoordIJK { i: 0, j: x, k: y }, _ => CoordIJK { i: y, j: 0, k: x } }
}
/// which side of the new face a side of a face is glued to
fn glued(f: u64, q: u64) -> (i32, u64) {
    let d = face_dim(2);
    let one = if q == 1 { in_quadrant(q, d, 1) } else if q == 0 { in_quadrant(q, d, 1) } else { in_quadrant(q, 1, d) };
    let (l, m) = side(q, &one);
    let mut fc = FaceIJK { face: f as i32, coord: one };
    _adjustOverageClassII(&mut fc, 2, false, false);
    let mut r = 0; let mut at = 3;
    while r < 3 { if side(r, &fc.coord) == (2 * d - l, -m) { at = r; } r += 1; }
    (fc.face, at)
}
/// leaving a face: p0 = face, p1 = twice the side, plus 1 for the half beyond its middle, p2 = even resolution, p3 = 1 for the gap of pentagons,
/// p4 = 1 for the grid three times finer, p5 = 0 for all of the quadrant or 1 to 9 for one line in it
#[no_mangle]
pub extern "C" fn h_over() { over_() }
/// the same, decided without decision diagrams
#[no_mangle]
pub extern "C" fn h_overs() { over_(); cover(true, 3); }
#[inline(never)]
fn over_() {
    let (f, q, res, lead, sub) = (param(0), param(1) / 2, param(2), param(3) == 1, param(4) == 1);
    let d = face_dim(res) * if sub { 3 } else { 1 };
    let (g, at) = glued(f, q);
    check(g >= 0 && g < 20 && g != f as i32 && at < 3, 1);
    check(glued(g as u64, at) == (f as i32, q), 2);
    let t = ndi(2, 0, d as i64);
    let o = if param(5) == 0 { ndi(1, 0, d as i64) } else { (param(5) as i64 - 1) as i32 * (d / 8) };
    let (x, y) = if param(1) & 1 == 0 { (o + t, o) } else { (o, o + t) };
    assume(q == 0 || x > 0 && (q == 2 || y > 0));
    let a = in_quadrant(q, x, y);
    let mut c = FaceIJK { face: f as i32, coord: cp(&a) };
    let o = _adjustOverageClassII(&mut c, res as i32, lead, sub);
    if x + y <= d {
        check(o == if sub && x + y == d { Overage::FaceEdge } else { Overage::NoOverage } && c.face == f as i32 && same(&c.coord, &a), 3);
        cover(true, 1);
    } else {
        check(o == if sub && c.coord.i + c.coord.j + c.coord.k == d { Overage::FaceEdge } else { Overage::NewFace }, 4);
        check(c.face == g, 7);
        check(canon(&c.coord), 5);
        let mut b = cp(&a);
        if lead && q == 2 {
            // a sixth of a turn clockwise about the i corner closes the gap
            let (u, v) = (a.i - a.k - d, a.j - a.k);
            b = CoordIJK { i: v + d, j: v - u, k: 0 };
        }
        let (l, m) = side(q, &b);
        let (l2, m2) = side(at, &c.coord);
        // mirrored distance to the common side, which the two faces walk in opposite senses
        check(l2 == 2 * d - l && m2 == -m, 6);
        cover(true, 2);
    }
}
/// the corners and middles of glued sides belong to the same base cells: p0 = face, p1 = side
#[no_mangle]
pub extern "C" fn h_glue() {
    let (f, q) = (param(0), param(1));
    let (g, at) = glued(f, q);
    let mut m = -2;
    while m <= 2 {
        let a = FaceIJK { face: f as i32, coord: from_side(q, 2, m) };
        let b = FaceIJK { face: g, coord: from_side(at, 2, -m) };
        let (x, y) = (_faceIjkToBaseCell(&a), _faceIjkToBaseCell(&b));
        check(x >= 0 && x < 122 && x == y, 1);
        check(_isBaseCellPentagon(x) == (m != 0), 2);
        m += 2;
    }
    cover(true, 1);
}
