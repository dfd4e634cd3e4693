//! Angles and coordinates in radians.
use super::*;
use h3_rs::lat_lng::*;
use std::f64::consts::{FRAC_PI_2, PI};

/// the doubles from 0 to the given one, or their negatives
#[inline(always)]
fn upto(tag: u64, max: f64, negative: bool) -> f64 {
    let v = f64::from_bits(nd(tag, 0, max.to_bits()));
    if negative { -v } else { v }
}
#[inline(always)]
fn near(a: f64, b: f64) -> bool { a - b <= 1e-9 && a - b >= -1e-9 }
/// angles up to a turn off, p0 = 1 for negative ones
#[no_mangle]
pub extern "C" fn h_posang() {
    let t = 2.0 * PI;
    let x = if param(0) == 1 { upto(1, t, true) } else { upto(1, 2.0 * t, false) };
    let y = _posAngleRads(x);
    check(y >= -1e-9 && y <= t + 1e-9, 1);
    check(near(y, x) || near(y, x + t) || near(y, x - t), 2);
    check(!(x >= 0.0 && x < t) || near(x, y), 3);
    cover(y != x, 1);
}
/// from min on, up to max, or their negatives
#[inline(always)]
fn between(tag: u64, min: f64, max: f64, negative: bool) -> f64 {
    let v = f64::from_bits(nd(tag, min.to_bits(), max.to_bits()));
    if negative { -v } else { v }
}
/// left out about the borders of turns after the first, where rounding decides
#[inline(always)]
fn gap(n: u64) -> f64 { if n > 1 { 1e-9 } else { 0.0 } }
/// the part of a stretch p2 stands for: 0 = all but its border, 1 = the border
#[inline(always)]
fn part(lo: f64, hi: f64, n: u64, p: u64) -> (f64, f64) { if n != 1 { (lo, hi) } else if p == 1 { (lo, lo + 1e-9) } else { (lo + 1e-9, hi) } }
/// longitudes p1 turns off, p0 = 1 for negative ones
#[no_mangle]
pub extern "C" fn h_conslng() {
    let t = 2.0 * PI;
    let n = param(1) as f64;
    let s = if param(0) == 1 { -1.0 } else { 1.0 };
    let (lo, hi) = part(if n == 0.0 { 0.0 } else { PI + t * (n - 1.0) + gap(param(1)) }, PI + t * n - gap(param(1) + 1), param(1), param(2));
    let x = between(1, lo, hi, param(0) == 1);
    let y = constrainLng(x);
    check(y <= PI + 1e-9 && y >= -PI - 1e-9, 1);
    // within rounding of the border of a turn the neighboring one will do
    check(near(x, y + s * n * t) || near(x, y + s * (n - 1.0) * t) || near(x, y + s * (n + 1.0) * t), 2);
    check(!(x <= PI && x >= -PI) || near(x, y), 3);
    cover(x < 4.0, 1);
}
/// latitudes p0 half turns off
#[no_mangle]
pub extern "C" fn h_conslat() {
    let n = param(0) as f64;
    let (lo, hi) = part(if n == 0.0 { 0.0 } else { FRAC_PI_2 + PI * (n - 1.0) + gap(param(0)) }, FRAC_PI_2 + PI * n - gap(param(0) + 1), param(0), param(2));
    let x = if param(1) == 1 { upto(1, FRAC_PI_2, true) } else { between(1, lo, hi, false) };
    let y = constrainLat(x);
    check(y <= FRAC_PI_2 + 1e-9 && y >= -FRAC_PI_2 - 1e-9, 1);
    check(near(x, y + n * PI) || near(x, y + (n - 1.0) * PI) || near(x, y + (n + 1.0) * PI), 2);
    check(!(x <= FRAC_PI_2) || near(x, y), 3);
    cover(x < 2.0, 1);
}
/// degrees to radians, p0 = signs
#[no_mangle]
pub extern "C" fn h_degs() {
    let (a, b) = (upto(1, 360.0, param(0) & 1 == 1), upto(2, 720.0, param(0) & 2 == 2));
    let mut p = LatLng { lat: 7.0, lng: 7.0 };
    setGeoDegs(&mut p, a, b);
    let (x, y) = (p.lat * 180.0, p.lng * 180.0);
    check(near(x, a * PI) && near(y, b * PI), 1);
    cover(p.lat != p.lng, 1);
}
/// closeness of coordinates: p0 = signs of the first, p1 of the second
#[no_mangle]
pub extern "C" fn h_almost() {
    let p = LatLng { lat: upto(1, 10.0, param(0) & 1 == 1), lng: upto(2, 10.0, param(0) & 2 == 2) };
    let q = LatLng { lat: upto(3, 10.0, param(1) & 1 == 1), lng: upto(4, 10.0, param(1) & 2 == 2) };
    let t = upto(5, 1.0, false);
    let c = geoAlmostEqualThreshold(&p, &q, t);
    let far = |d: f64, e: f64| d >= e || d <= -e;
    check(c == !(far(p.lat - q.lat, t) || far(p.lng - q.lng, t)), 2);
    let e = geoAlmostEqual(&p, &q);
    // a billionth of a degree
    let m = 1.7453292519943295e-11;
    let (lo, hi) = (m * 0.999999999, m * 1.000000001);
    check(e || far(p.lat - q.lat, lo) || far(p.lng - q.lng, lo), 3);
    check(!e || !(far(p.lat - q.lat, hi) || far(p.lng - q.lng, hi)), 4);
    cover(c, 1);
    cover(!c && e, 2);
    cover(e, 3);
}
