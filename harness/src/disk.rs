//! Disks and rings.
use super::*;

/// A cell reached from the pentagon of a base cell by at most k steps.
#[inline(always)]
fn near_pent(res: u64, bc: u64, k: u64) -> u64 {
    let mut h: u64 = (1u64 << 59) | (res << 52) | (bc << 45);
    let mut r = 1u64;
    while r <= 15 { if r > res { h |= 7u64 << (45 - 3 * r); } r += 1; }
    let mut i = 0;
    while i < k {
        let d = nd(200 + i, 0, 6);
        if d != 0 { if let (Ok(n), _) = nb(h, d, 0) { h = n; } else { assume(false); } }
        i += 1;
    }
    h
}
/// Neighbours of a cell, zero for the missing one of a pentagon.
#[inline(always)]
fn nbs(h: u64) -> [u64; 6] {
    let mut a = [0u64; 6];
    let pent = spec_is_pent(h);
    let mut d = 1u64;
    while d <= 6 { if !(pent && d == 1) { if let (Ok(n), _) = nb(h, d, 0) { a[d as usize - 1] = n; } } d += 1; }
    a
}
#[inline(never)]
fn any_pent(a: &[u64]) -> bool { let mut p = false; let mut i = 0; while i < a.len() { p |= a[i] != 0 && spec_is_pent(a[i]); i += 1; } p }
#[inline(never)]
fn has(a: &[u64], x: u64) -> bool { let mut p = false; let mut i = 0; while i < a.len() { p |= a[i] == x; i += 1; } p }

/// The hollow rings of radius 1 to k, checked one from the other; None where a pentagon lies within k.
/// (offsets 1 and 2: identification numbers of the checks)
#[inline(always)]
fn rings(h: u64, k: usize, ring: &mut [[u64; 30]; 6]) -> bool {
    ring[0][0] = h;
    if spec_is_pent(h) { return false; }
    let mut t = 1;
    while t <= k {
        let n = if t == 1 { 1 } else { 6 * (t - 1) };
        let mut cand = [0u64; 180];
        let mut i = 0;
        while i < n { let b = nbs(ring[t - 1][i]); let mut j = 0; while j < 6 { cand[6 * i + j] = b[j]; j += 1; } i += 1; }
        if any_pent(&cand[..6 * n]) { return false; }
        let g = match gridRingUnsafe(h, t as u32) { Ok(g) => g, Err(_) => { check(false, 1); return false; } };
        if g.len() != 6 * t { check(false, 2); return false; }
        let mut i = 0;
        while i < 6 * t {
            let x = g[i];
            check(has(&cand[..6 * n], x), 3);
            check(!has(&ring[t - 1][..n], x), 4);
            if t >= 2 { check(!has(&ring[t - 2][..if t == 2 { 1 } else { 6 * (t - 2) }], x), 5); }
            check(!has(&ring[t][..i], x), 6);
            ring[t][i] = x;
            i += 1;
        }
        let mut i = 0;
        while i < 6 * n {
            let x = cand[i];
            check(has(&ring[t][..6 * t], x) || has(&ring[t - 1][..n], x) || t >= 2 && has(&ring[t - 2][..if t == 2 { 1 } else { 6 * (t - 2) }], x), 7);
            i += 1;
        }
        t += 1;
    }
    true
}
/// Rings of radius up to k around every cell; p0 = resolution, p1 = base cell, p2 = k
#[no_mangle]
pub extern "C" fn h_ring() {
    let h = mk_cell(0, param(0), param(1));
    let k = param(2) as usize;
    let mut ring = [[0u64; 30]; 6];
    let ok = rings(h, k, &mut ring);
    if ok { cover(true, 1); }
    match gridRingUnsafe(h, k as u32) { Ok(_) => check(ok, 11), Err(e) => { check(!ok, 12); check(e == Error::Pentagon, 13); cover(true, 2); } }
}
/// Disks of radius up to k around every cell; p0 = resolution, p1 = base cell, p2 = k
#[no_mangle]
pub extern "C" fn h_disk() {
    let h = mk_cell(0, param(0), param(1));
    let k = param(2) as usize;
    let mut ring = [[0u64; 30]; 6];
    let ok = rings(h, k, &mut ring);
    let total = 3 * k * (k + 1) + 1;
    match gridDiskDistancesUnsafe(h, k as u32) {
        Ok(v) => {
            if !ok { check(false, 21); return; }
            if v.len() != total { check(false, 22); return; }
            // by distance, and each part a permutation of the ring
            let mut o = 0;
            let mut t = 0;
            while t <= k {
                let n = if t == 0 { 1 } else { 6 * t };
                let mut b = [0u64; 30];
                let mut i = 0;
                while i < n { b[i] = v[o + i].0; check(v[o + i].1 == t as u32, 23); i += 1; }
                let mut i = 0;
                while i < n { check(has(&b[..n], ring[t][i]), 24); i += 1; }
                o += n;
                t += 1;
            }
            cover(true, 1);
        }
        Err(e) => { check(!ok, 25); check(e == Error::Pentagon, 26); }
    }
    if !ok { return; }
    match gridDiskDistances(h, k as u32) {
        Ok(v) => {
            if v.len() != total { check(false, 32); return; }
            let mut t = 0;
            while t <= k {
                let n = if t == 0 { 1 } else { 6 * t };
                let mut i = 0;
                while i < n {
                    let x = ring[t][i];
                    let mut f = false; let mut q = 0;
                    while q < total { f |= v[q].0 == x && v[q].1 == t as u32; q += 1; }
                    check(f, 33);
                    i += 1;
                }
                t += 1;
            }
        }
        Err(_) => check(false, 34),
    }
}
/// The general disk around cells at most k steps from a pentagon; p0 = resolution, p1 = pentagonal base cell, p2 = k (1 to 3)
#[no_mangle]
pub extern "C" fn h_near() {
    let k = param(2) as usize;
    let h = near_pent(param(0), param(1), k as u64);
    let d = match gridDiskDistances(h, k as u32) { Ok(d) => d, Err(_) => { check(false, 1); return; } };
    let n = d.len();
    // cells by number of steps, with repetitions and zeros
    let mut lv = [[0u64; 216]; 4];
    lv[0][0] = h;
    let mut t = 1; let mut m = 1;
    while t <= k {
        let mut i = 0;
        while i < m { let x = lv[t - 1][i]; if x != 0 { let b = nbs(x); let mut j = 0; while j < 6 { lv[t][6 * i + j] = b[j]; j += 1; } } i += 1; }
        m *= 6; t += 1;
    }
    // every reported cell is reported once, at its distance
    let mut i = 0;
    while i < n {
        let x = d[i].0;
        let dist = if x == h { 0 } else if has(&lv[1][..6], x) { 1 } else if k >= 2 && has(&lv[2][..36], x) { 2 } else if k >= 3 && has(&lv[3][..216], x) { 3 } else { 9 };
        check(x != 0 && d[i].1 == dist && dist as usize <= k, 2);
        let mut j = 0;
        let mut dup = false;
        while j < i { dup |= d[j].0 == x; j += 1; }
        check(!dup, 3);
        i += 1;
    }
    // every cell within k is reported
    let mut t = 0; let mut m = 1;
    while t <= k {
        let mut i = 0;
        while i < m { let x = lv[t][i]; let mut f = x == 0; let mut q = 0; while q < n { f |= d[q].0 == x; q += 1; } check(f, 4); i += 1; }
        m *= 6; t += 1;
    }
    cover(spec_is_pent(h), 1);
    cover(!spec_is_pent(h), 2);
}
