//! Runs one harness natively on concrete inputs: `replay HARNESS p=<i>=<v> ... <tag>=<v> ...`.
//! Exit status: 0 the property held, 10 a check failed, 11 panic, 12 inputs outside the assumptions.
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static PARAMS: RefCell<HashMap<u64, u64>> = Default::default();
    static VALS: RefCell<HashMap<u64, u64>> = Default::default();
    static FAILED: RefCell<Vec<u64>> = Default::default();
}
#[no_mangle]
extern "C" fn __vf_nd(tag: u64, lo: u64, hi: u64) -> u64 {
    let v = VALS.with(|m| m.borrow().get(&tag).copied()).unwrap_or(lo);
    if v < lo || v > hi { println!("value {} of input {} outside {}..{}", v, tag, lo, hi); std::process::exit(12); }
    v
}
#[no_mangle]
extern "C" fn __vf_param(i: u64) -> u64 { PARAMS.with(|m| m.borrow().get(&i).copied()).unwrap_or(0) }
#[no_mangle]
extern "C" fn __vf_assume(c: bool) { if !c { finish(true) } }
#[no_mangle]
extern "C" fn __vf_check(c: bool, id: u64) { if !c { println!("CHECK {} failed", id); FAILED.with(|f| f.borrow_mut().push(id)); } }
#[no_mangle]
extern "C" fn __vf_cover(c: bool, id: u64) { if c { println!("COVER {}", id); } }
#[no_mangle]
extern "C" fn __vf_out(id: u64, v: u64) { println!("OUT {} {}", id, v); }
fn finish(cut: bool) -> ! {
    let f = FAILED.with(|f| f.borrow().len());
    std::process::exit(if f > 0 { 10 } else if cut { println!("ASSUME false"); 12 } else { 0 })
}
macro_rules! table { ($($m:ident: $($f:ident),* ;)*) => { &[$($((stringify!($f), vharness::$m::$f as extern "C" fn())),*),*] } }
const ALL: &[(&str, extern "C" fn())] = table! {
    index: h_valid, h_get, h_set, h_build, h_lead, h_zero, h_rot, h_rotpent;
    hier: h_size, h_badres, h_children, h_childvec, h_childpos, h_badpos;
    grid: h_nb, h_sym, h_distinct, h_walk, h_tri, h_edge, h_noedge, h_validedge;
    disk: h_ring, h_disk, h_near;
    geom: h_round, h_roundw, h_adj, h_centre, h_toward, h_anycentre;
    geo: h_posang, h_conslng, h_conslat, h_degs, h_almost;
    misc: h_disksize, h_res0, h_llerr;
    total: h_anynb, h_anyedge, h_anypair, h_anydisk, h_anyiter, h_anypos, h_anypred;
};
#[cfg(hk_iter)]
const ITER: &[(&str, extern "C" fn())] = table! { hk_iter: h_iterstep, h_iterreal; };
#[cfg(not(hk_iter))]
const ITER: &[(&str, extern "C" fn())] = &[];
#[cfg(hk_coord)]
const COORD: &[(&str, extern "C" fn())] = table! { hk_coord: h_ijknorm, h_ijkrot, h_ijkdown, h_ijkup, h_ijknb, h_ijkops, h_ijkunit, h_hex2d, h_hexcentre, h_hexgrid, h_over, h_overs, h_glue; };
#[cfg(not(hk_coord))]
const COORD: &[(&str, extern "C" fn())] = &[];
fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().unwrap_or_default();
    for x in a {
        let p: Vec<&str> = x.split('=').collect();
        if p.len() == 3 { PARAMS.with(|m| m.borrow_mut().insert(p[1].parse().unwrap(), p[2].parse().unwrap())); }
        else { VALS.with(|m| m.borrow_mut().insert(p[0].parse().unwrap(), p[1].parse().unwrap())); }
    }
    let f = match ALL.iter().chain(ITER).chain(COORD).find(|x| x.0 == name) { Some(x) => x.1, None => { eprintln!("unknown harness {}", name); std::process::exit(4) } };
    std::panic::set_hook(Box::new(|i| { println!("PANIC {}", i); std::process::exit(11) }));
    f();
    finish(false)
}
