//! Icosahedron face coordinates, base cell registry, latitude and longitude.
use super::*;
use h3_rs::lat_lng::LatLng;

/// index -> face coordinates -> index; p0 = resolution, p1 = base cell
#[no_mangle]
pub extern "C" fn h_round() {
    round_(mk_cell(0, param(0), param(1)), param(0))
}
/// the coarse digits of a cell are p2 (three bits each, as in the index), the finest p3 ones free
#[inline(always)]
fn window(tag: u64, res: u64, bc: u64, fill: u64, free: u64) -> u64 {
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut lead = 0u64;
    let mut r = 15u64;
    while r >= 1 {
        let d = if r > res { 7 } else if r + free > res { nd(tag + r, 0, 6) } else { (fill >> (45 - 3 * r)) & 7 };
        if r <= res && d != 0 { lead = d; }
        h |= d << (45 - 3 * r);
        r -= 1;
    }
    assume(!(spec_pent(bc) && lead == 1));
    h
}
/// index -> face coordinates -> index: p0 = resolution, p1 = base cell, p2 = coarse digits, p3 = number of free digits
#[no_mangle]
pub extern "C" fn h_roundw() { round_(window(0, param(0), param(1), param(2), param(3)), param(0)) }
#[inline(never)]
fn round_(h: u64, res: u64) {
    match _h3ToFaceIjk(h) {
        Ok(f) => {
            check(f.face >= 0 && f.face < 20, 1);
            check(_faceIjkToH3(&f, res as i32) == h, 2);
            let c = f.coord;
            check(c.i >= 0 && c.j >= 0 && c.k >= 0 && (c.i == 0 || c.j == 0 || c.k == 0), 3);
            cover(true, 1);
        }
        Err(_) => check(false, 4),
    }
}
/// the neighbor of a cell lies next to it on a common face: parameters as above, p4 = direction
#[no_mangle]
pub extern "C" fn h_adj() {
    let h = window(0, param(0), param(1), param(2), param(3));
    let (n, _) = nb(h, param(4), 0);
    match n {
        Ok(n) => if let (Ok(a), Ok(b)) = (_h3ToFaceIjk(h), _h3ToFaceIjk(n)) {
            let (u, v) = (a.coord.i - a.coord.k - b.coord.i + b.coord.k, a.coord.j - a.coord.k - b.coord.j + b.coord.k);
            check(a.face != b.face || u >= -1 && u <= 1 && v >= -1 && v <= 1 && u - v >= -1 && u - v <= 1 && (u != 0 || v != 0), 1);
            cover(a.face == b.face, 1);
        },
        Err(_) => {}
    }
}
/// the centre of a cell is indexed to it: parameters as for the windows
#[no_mangle]
pub extern "C" fn h_centre() {
    let res = param(0);
    let h = window(0, res, param(1), param(2), param(3));
    match cellToLatLng(h) {
        Ok(g) => {
            check(g.lat >= -1.5707963267948968 && g.lat <= 1.5707963267948968, 1);
            check(g.lng >= -3.1415926535897936 && g.lng <= 3.1415926535897936, 2);
            check(latLngToCell(&g, res as i32) == Ok(h), 3);
            if res > 0 { check(latLngToCell(&g, res as i32 - 1) == Ok(par(h)), 4); }
            cover(true, 1);
        }
        Err(_) => check(false, 5),
    }
}
#[inline(never)]
fn vec(g: &LatLng) -> (f64, f64, f64) { let c = g.lat.cos(); (c * g.lng.cos(), c * g.lng.sin(), g.lat.sin()) }
/// points about the centre of a cell, on the way to the centre of a neighbor: parameters as for the windows, p4 = direction,
/// p5 = percentage of the way, p6 and p7 = bounds for the distance of the centres, in millionths of their mean distance
#[no_mangle]
pub extern "C" fn h_toward() {
    let res = param(0);
    let h = window(0, res, param(1), param(2), param(3));
    if let (Ok(n), _) = nb(h, param(4), 0) {
        match (cellToLatLng(h), cellToLatLng(n)) {
            (Ok(a), Ok(b)) => {
                let (u, v) = (vec(&a), vec(&b));
                let (dx, dy, dz) = (u.0 - v.0, u.1 - v.1, u.2 - v.2);
                let d = (dx * dx + dy * dy + dz * dz).sqrt() * spacing(res);
                check(d >= param(6) as f64 * 1e-6 && d <= param(7) as f64 * 1e-6, 1);
                let t = param(5) as f64 * 0.01;
                let (x, y, z) = (u.0 - t * dx, u.1 - t * dy, u.2 - t * dz);
                let p = LatLng { lat: z.atan2((x * x + y * y).sqrt()), lng: y.atan2(x) };
                check(latLngToCell(&p, res as i32) == Ok(h), 2);
                cover(true, 1);
            }
            _ => check(false, 3),
        }
    }
}
/// the inverse of the mean distance of the centres of neighboring cells: the sphere divided by the cells
#[inline(always)]
fn spacing(res: u64) -> f64 {
    let mut n = 120.0f64; let mut r = 0;
    while r < res { n = n * 7.0; r += 1; }
    // a hexagon with width w has area sqrt(3)/2 w^2
    ((n + 2.0) * 0.8660254037844386 / 12.566370614359172).sqrt()
}
#[inline(never)]
fn par(h: u64) -> u64 { let r = f_res(h); (h & !(15u64 << 52)) | ((r - 1) << 52) | (7u64 << (45 - 3 * r)) }

/// any value, its digits 0 to 7: parameters as for the windows, base cell field up to 127
#[no_mangle]
pub extern "C" fn h_anycentre() {
    let (res, bc, fill, free) = (param(0), param(1), param(2), param(3));
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut r = 15u64;
    while r >= 1 {
        h |= (if r > res { 7 } else if r + free > res { nd(r, 0, 7) } else { (fill >> (45 - 3 * r)) & 7 }) << (45 - 3 * r);
        r -= 1;
    }
    match cellToLatLng(h) {
        Ok(g) => {
            check(bc < 122, 1);
            check(g.lat >= -1.5707963267948968 && g.lat <= 1.5707963267948968 && g.lng >= -3.1415926535897936 && g.lng <= 3.1415926535897936, 2);
            match latLngToCell(&g, res as i32) { Ok(c) => check(isValidCell(c) && f_res(c) == res, 3), Err(_) => check(false, 4) }
            cover(true, 1);
        }
        Err(e) => { check(bc >= 122 && e == Error::CellInvalid, 5); cover(true, 2); }
    }
}
