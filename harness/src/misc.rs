//! Disk sizes, the registry of base cells, refusal of bad arguments.
use super::*;
use h3_rs::lat_lng::LatLng;

/// the room a disk needs, for every radius; p0 = small or large radii
#[no_mangle]
pub extern "C" fn h_disksize() {
    let k = if param(0) == 0 { nd(1, 0, 13780509) } else { nd(1, 13780510, u32::MAX as u64) };
    let n = maxGridDiskSize(k as u32) as u64;
    let all = 569707381193162u64;
    // 13780509 is the largest radius whose disk is smaller than the whole grid at the finest resolution
    check(n == if k <= 13780509 { 3 * k * (k + 1) + 1 } else { all }, 1);
    out(1, n);
    cover(n == all || k > 1_000_000, 1);
}
/// the resolution 0 cells
#[no_mangle]
pub extern "C" fn h_res0() {
    check(res0CellCount() == 122, 1);
    let v = match getRes0Cells() { Ok(v) => v, Err(_) => { check(false, 2); return; } };
    if v.len() != 122 { check(false, 3); return; }
    let i = nd(1, 0, 121);
    let h = v[i as usize];
    check(spec_valid(h) && f_res(h) == 0 && f_bc(h) == i, 4);
    check(isValidCell(h), 5);
    check(isPentagon(h) == spec_pent(i), 6);
    out(1, h);
    cover(isPentagon(h), 1);
    cover(!isPentagon(h), 2);
}
/// coordinates and resolutions latLngToCell refuses, whatever else it is given
#[no_mangle]
pub extern "C" fn h_llerr() {
    let lat = f64::from_bits(nd(1, 0, u64::MAX));
    let lng = f64::from_bits(nd(2, 0, u64::MAX));
    let res = nd(3, 0, u32::MAX as u64) as u32 as i32;
    let bad = res < 0 || res > 15;
    assume(bad || !(lat.to_bits() >> 52 & 2047 != 2047 && lng.to_bits() >> 52 & 2047 != 2047));
    match latLngToCell(&LatLng { lat, lng }, res) {
        Ok(_) => check(false, 1),
        Err(e) => { check(e == if bad { Error::ResDomain } else { Error::LatLngDomain }, 2); cover(bad, 1); cover(!bad, 2); }
    }
}
