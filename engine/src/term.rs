//! Hash-consed bit-vector terms with a normalising constructor layer.
//!
//! Every term carries NS concrete evaluations ("signatures") over NS fixed random assignments of
//! the variables.  Each smart constructor's result is compared, sample by sample, with the concrete
//! evaluation of the operator on the signatures of its arguments; a disagreement aborts the run
//! (exit 2), so an unsound rewrite rule cannot silently turn a violated property into a pass.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;
pub const NS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FK { Add, Sub, Mul, Div, Sqrt, Round, SToF, UToF, FToSSat, FToUSat, Olt, Ole, Oeq, Uno, Trunc, Floor, Ceil, Rne, Rem }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Undef,
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Lin(u128, Box<[(T, u128)]>),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Concat(Box<[T]>),
    Extract(T, u16, u16),
    SExt(T),
    F(FK, Box<[T]>),
}

#[derive(Clone, Copy, Debug)]
pub struct Rng { pub ulo: u128, pub uhi: u128, pub slo: i128, pub shi: i128 }

pub struct VarInfo { pub name: String, pub w: u16, pub lo: u128, pub hi: u128, pub samples: [u128; NS], pub grp: u32, /// for 64-bit variables: the range of the double they are known to be
    pub freal: Option<(f64, f64)> }

pub struct Node { pub k: K, pub w: u16, pub ctree: bool, pub sup: u128, pub rng: Rng, pub sig: Option<[u128; NS]> }

pub struct Store {
    pub nodes: Vec<Node>,
    map: FxMap<(K, u16), T>,
    pub vars: Vec<VarInfo>,
    rng: u64,
    pub memo_ext: FxMap<(T, u16, u16), T>,
    pub memo_ite: FxMap<(T, T, T), T>,
    pub memo_bin: FxMap<(u8, T, T), T>,
    pub lin_cond_rule: bool,
    pub in_rule: u32,
    pub grps: u32,
    pub memo_flat: FxMap<T, Option<T>>,
    pub memo_fr: FxMap<T, Option<FR>>,
    pub memo_scale: FxMap<(T, u128, u128), T>,
    pub bdd_budget: usize,
    pub bdd_fail: u64,
    /// few inputs: every operation is carried out on decision diagrams with constant leaves
    pub diagrams: bool,
}

static mut STORE: Option<Store> = None;
#[allow(static_mut_refs)]
pub fn st() -> &'static mut Store { unsafe { STORE.as_mut().unwrap() } }
pub fn init(seed: u64) {
    let s = Store { nodes: vec![], map: Default::default(), vars: vec![], rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        memo_ext: Default::default(), memo_ite: Default::default(), memo_bin: Default::default(), lin_cond_rule: true, in_rule: 0, grps: 0, memo_flat: Default::default(), memo_scale: Default::default(), memo_fr: Default::default(), bdd_budget: 200_000, bdd_fail: 0, diagrams: false };
    unsafe { STORE = Some(s); }
    let f = cst(0, 1); let t = cst(1, 1);
    assert!(f == FALSE && t == TRUE);
}
pub const OPAQUE: u128 = 1 << 127;
pub const FALSE: T = 0;
pub const TRUE: T = 1;

pub fn rnd() -> u64 {
    let s = st();
    s.rng ^= s.rng << 13; s.rng ^= s.rng >> 7; s.rng ^= s.rng << 17;
    s.rng.wrapping_mul(0x2545F4914F6CDD1D)
}

#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn tosigned(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let sh = 128 - w as u32; ((v << sh) as i128) >> sh } }
#[inline] pub fn kind(t: T) -> &'static K { &st().nodes[t as usize].k }
#[inline] pub fn width(t: T) -> u16 { st().nodes[t as usize].w }
#[inline] pub fn range(t: T) -> Rng { st().nodes[t as usize].rng }
#[inline] pub fn cval(t: T) -> Option<u128> { if let K::Const(c) = kind(t) { Some(*c) } else { None } }
#[inline] pub fn is_ctree(t: T) -> bool { st().nodes[t as usize].ctree }
#[inline] pub fn sup(t: T) -> u128 { st().nodes[t as usize].sup }
#[inline] pub fn is_undef(t: T) -> bool { matches!(kind(t), K::Undef) }
pub fn sig(t: T) -> Option<[u128; NS]> { st().nodes[t as usize].sig }

fn full(w: u16) -> Rng {
    if w >= 128 { Rng { ulo: 0, uhi: !0, slo: i128::MIN, shi: i128::MAX } }
    else { Rng { ulo: 0, uhi: mask(w), slo: -(1i128 << (w - 1)), shi: (1i128 << (w - 1)) - 1 } }
}
fn rng_u(lo: u128, hi: u128, w: u16) -> Rng {
    // derive signed from unsigned
    let f = full(w);
    let half = 1u128 << (w - 1);
    if hi < half { Rng { ulo: lo, uhi: hi, slo: lo as i128, shi: hi as i128 } }
    else if lo >= half { Rng { ulo: lo, uhi: hi, slo: tosigned(lo, w), shi: tosigned(hi, w) } }
    else { Rng { ulo: lo, uhi: hi, slo: f.slo, shi: f.shi } }
}
fn rng_s(lo: i128, hi: i128, w: u16) -> Rng {
    let f = full(w);
    if lo >= 0 || hi < 0 { Rng { ulo: (lo as u128) & mask(w), uhi: (hi as u128) & mask(w), slo: lo, shi: hi } }
    else { Rng { ulo: f.ulo, uhi: f.uhi, slo: lo, shi: hi } }
}
fn isect(a: Rng, b: Rng) -> Rng {
    let r = Rng { ulo: a.ulo.max(b.ulo), uhi: a.uhi.min(b.uhi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi) };
    // An empty intersection means the term is unreachable under its own guards; keep something sane.
    if r.ulo > r.uhi || r.slo > r.shi { return a; }
    r
}

fn calc_rng(k: &K, w: u16) -> Rng {
    match k {
        K::Const(c) => rng_u(*c, *c, w),
        K::Var(i) => { let v = &st().vars[*i as usize]; rng_u(v.lo, v.hi, w) }
        K::Ite(_, a, b) => {
            if is_undef(*a) { return range(*b); }
            if is_undef(*b) { return range(*a); }
            let (a, b) = (range(*a), range(*b));
            Rng { ulo: a.ulo.min(b.ulo), uhi: a.uhi.max(b.uhi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi) }
        }
        K::Concat(p) => {
            let (mut lo, mut hi, mut sh) = (0u128, 0u128, 0u32);
            for &x in p.iter() { let r = range(x); lo |= r.ulo << sh; hi |= r.uhi << sh; sh += width(x) as u32; }
            rng_u(lo, hi, w)
        }
        K::Extract(a, _, lo) => {
            let r = range(*a);
            if *lo == 0 && r.uhi <= mask(w) { rng_u(r.ulo, r.uhi, w) }
            else if *lo == 0 && r.slo >= full(w).slo && r.shi <= full(w).shi { rng_s(r.slo, r.shi, w) }
            else { let (l, h) = (r.ulo >> *lo, r.uhi >> *lo); if h <= mask(w) { rng_u(l, h, w) } else { full(w) } }
        }
        K::SExt(a) => { let r = range(*a); rng_s(r.slo, r.shi, w) }
        K::Lin(c, ts) => {
            if w > 64 { return full(w); }
            // signed reading
            let mut lo = tosigned(*c, w); let mut hi = lo;
            for (t, k) in ts.iter() {
                let r = range(*t); let k = tosigned(*k, w);
                // choose the signed reading of the atom
                let (a, b) = (k * r.slo, k * r.shi);
                lo += a.min(b); hi += a.max(b);
            }
            let f = full(w);
            let mut out = f;
            if lo >= f.slo && hi <= f.shi { out = rng_s(lo, hi, w); }
            // unsigned reading with unsigned atoms (coefs signed)
            let mut lo = tosigned(*c, w); let mut hi = lo;
            let cu = *c as i128; let (mut lo2, mut hi2) = (cu, cu);
            for (t, k) in ts.iter() {
                let r = range(*t); let ks = tosigned(*k, w);
                if r.uhi >= 1u128 << 64 { return out; }
                let (a, b) = (ks * r.ulo as i128, ks * r.uhi as i128);
                lo += a.min(b); hi += a.max(b);
                lo2 += a.min(b); hi2 += a.max(b);
            }
            if lo >= 0 && hi as u128 <= f.uhi { out = isect(out, rng_u(lo as u128, hi as u128, w)); }
            else if lo2 >= 0 && hi2 as u128 <= f.uhi { out = isect(out, rng_u(lo2 as u128, hi2 as u128, w)); }
            out
        }
        K::UDiv(a, b) => { let (a, b) = (range(*a), range(*b)); if b.ulo > 0 { rng_u(a.ulo / b.uhi, a.uhi / b.ulo, w) } else { full(w) } }
        K::URem(a, b) => { let (a, b) = (range(*a), range(*b)); if b.ulo > 0 { rng_u(0, (b.uhi - 1).min(a.uhi), w) } else { full(w) } }
        K::SDiv(a, b) => {
            let (a, b) = (range(*a), range(*b));
            if b.slo > 0 && b.slo == b.shi { rng_s(a.slo / b.slo, a.shi / b.slo, w) } else { full(w) }
        }
        K::SRem(a, b) => {
            let (a, b) = (range(*a), range(*b));
            if b.slo > 0 { let m = b.shi - 1; rng_s(if a.slo >= 0 { 0 } else { (-m).max(a.slo) }, if a.shi <= 0 { 0 } else { m.min(a.shi) }, w) } else { full(w) }
        }
        K::And(a, b) if w > 1 => rng_u(0, range(*a).uhi.min(range(*b).uhi), w),
        K::Or(a, b) if w > 1 => { let m = range(*a).uhi | range(*b).uhi; let n = 128 - m.leading_zeros(); rng_u(range(*a).ulo.max(range(*b).ulo), mask(n as u16).max(0).min(mask(w)), w) }
        K::Xor(a, b) if w > 1 => { let m = range(*a).uhi | range(*b).uhi; let n = 128 - m.leading_zeros(); rng_u(0, mask(n as u16).min(mask(w)), w) }
        K::LShr(a, _) => rng_u(0, range(*a).uhi, w),
        K::Mul(a, b) => {
            if w <= 64 {
                let (x, y) = (range(*a), range(*b));
                if x.uhi < 1 << 64 && y.uhi < 1 << 64 { if let Some(p) = x.uhi.checked_mul(y.uhi) { if p <= mask(w) { return rng_u(x.ulo * y.ulo, p, w); } } }
                let c = [x.slo * y.slo, x.slo * y.shi, x.shi * y.slo, x.shi * y.shi];
                let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                let f = full(w);
                if l >= f.slo && h <= f.shi { return rng_s(l, h, w); }
            }
            full(w)
        }
        K::F(FK::FToSSat, a) => ftoi_rng(a[0], true, w),
        K::F(FK::FToUSat, a) => ftoi_rng(a[0], false, w),
        _ => full(w),
    }
}

fn fbits(x: f64) -> u128 { x.to_bits() as u128 }
fn bf(x: u128) -> f64 { f64::from_bits(x as u64) }

pub fn eval_f(op: FK, a: &[u128], aw: &[u16], w: u16) -> u128 {
    match op {
        FK::Add => fbits(bf(a[0]) + bf(a[1])),
        FK::Sub => fbits(bf(a[0]) - bf(a[1])),
        FK::Mul => fbits(bf(a[0]) * bf(a[1])),
        FK::Div => fbits(bf(a[0]) / bf(a[1])),
        FK::Sqrt => fbits(bf(a[0]).sqrt()),
        FK::Rem => fbits(bf(a[0]) % bf(a[1])),
        FK::Round => fbits(bf(a[0]).round()),
        FK::Trunc => fbits(bf(a[0]).trunc()),
        FK::Floor => fbits(bf(a[0]).floor()),
        FK::Ceil => fbits(bf(a[0]).ceil()),
        FK::Rne => fbits(bf(a[0]).round_ties_even()),
        FK::SToF => fbits(tosigned(a[0], aw[0]) as f64),
        FK::UToF => fbits(a[0] as f64),
        FK::FToSSat => { let x = bf(a[0]); let lo = full(w).slo; let hi = full(w).shi; let v = x as i128; (v.max(lo).min(hi) as u128) & mask(w) }
        FK::FToUSat => { let x = bf(a[0]); let v = x as u128; v.min(mask(w)) }
        FK::Olt => (bf(a[0]) < bf(a[1])) as u128,
        FK::Ole => (bf(a[0]) <= bf(a[1])) as u128,
        FK::Oeq => (bf(a[0]) == bf(a[1])) as u128,
        FK::Uno => (bf(a[0]).is_nan() || bf(a[1]).is_nan()) as u128,
    }
}

/// Concrete evaluation of one node given the values of its arguments.
pub fn eval_k(k: &K, w: u16, g: &mut dyn FnMut(T) -> u128) -> u128 {
    let m = mask(w);
    match k {
        K::Const(c) => *c,
        K::Var(_) | K::Undef => unreachable!(),
        K::Not(a) => !g(*a) & m,
        K::And(a, b) => g(*a) & g(*b),
        K::Or(a, b) => g(*a) | g(*b),
        K::Xor(a, b) => g(*a) ^ g(*b),
        K::Lin(c, ts) => { let mut s = *c; for (t, q) in ts.iter() { s = s.wrapping_add(g(*t).wrapping_mul(*q)); } s & m }
        K::Mul(a, b) => g(*a).wrapping_mul(g(*b)) & m,
        K::UDiv(a, b) => { let d = g(*b); if d == 0 { m } else { g(*a) / d } }
        K::URem(a, b) => { let d = g(*b); if d == 0 { g(*a) } else { g(*a) % d } }
        K::SDiv(a, b) => { let (x, d) = (tosigned(g(*a), w), tosigned(g(*b), w)); if d == 0 { (if x >= 0 { m } else { 1 }) & m } else { (x.wrapping_div(d) as u128) & m } }
        K::SRem(a, b) => { let (x, d) = (tosigned(g(*a), w), tosigned(g(*b), w)); if d == 0 { (x as u128) & m } else { (x.wrapping_rem(d) as u128) & m } }
        K::Shl(a, b) => { let s = g(*b); if s >= w as u128 { 0 } else { (g(*a) << s) & m } }
        K::LShr(a, b) => { let s = g(*b); if s >= w as u128 { 0 } else { g(*a) >> s } }
        K::AShr(a, b) => { let s = g(*b); let x = tosigned(g(*a), w); ((if s >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> s }) as u128) & m }
        K::Eq(a, b) => (g(*a) == g(*b)) as u128,
        K::Ult(a, b) => (g(*a) < g(*b)) as u128,
        K::Slt(a, b) => { let aw = width(*a); (tosigned(g(*a), aw) < tosigned(g(*b), aw)) as u128 }
        K::Ite(c, a, b) => if g(*c) != 0 { g(*a) } else { g(*b) },
        K::Concat(p) => { let mut v = 0u128; let mut sh = 0; for &x in p.iter() { v |= g(x) << sh; sh += width(x) as u32; } v }
        K::Extract(a, _, lo) => (g(*a) >> *lo) & m,
        K::SExt(a) => (tosigned(g(*a), width(*a)) as u128) & m,
        K::F(op, a) => { let v: Vec<u128> = a.iter().map(|x| g(*x)).collect(); let aw: Vec<u16> = a.iter().map(|x| width(*x)).collect(); eval_f(*op, &v, &aw, w) }
    }
}

pub fn children(k: &K, f: &mut dyn FnMut(T)) {
    match k {
        K::Const(_) | K::Var(_) | K::Undef => {}
        K::Not(a) | K::Extract(a, _, _) | K::SExt(a) => f(*a),
        K::And(a, b) | K::Or(a, b) | K::Xor(a, b) | K::Mul(a, b) | K::UDiv(a, b) | K::URem(a, b) | K::SDiv(a, b) | K::SRem(a, b)
        | K::Shl(a, b) | K::LShr(a, b) | K::AShr(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Slt(a, b) => { f(*a); f(*b) }
        K::Ite(a, b, c) => { f(*a); f(*b); f(*c) }
        K::Lin(_, ts) => for (t, _) in ts.iter() { f(*t) },
        K::Concat(p) | K::F(_, p) => for &x in p.iter() { f(x) },
    }
}

fn calc_sig(k: &K, w: u16) -> Option<[u128; NS]> {
    if let K::Var(i) = k { return Some(st().vars[*i as usize].samples); }
    if let K::Undef = k { return None; }
    // An Ite with an undefined branch: samples that select it are not comparable -> None
    let mut ok = true;
    children(k, &mut |x| if st().nodes[x as usize].sig.is_none() { ok = false; });
    if !ok { return None; }
    let mut out = [0u128; NS];
    for i in 0..NS { out[i] = eval_k(k, w, &mut |x| st().nodes[x as usize].sig.as_ref().unwrap()[i]); }
    Some(out)
}

pub fn intern(k: K, w: u16) -> T {
    debug_assert!(w >= 1 && w <= 128);
    let key = (k, w);
    if let Some(&t) = st().map.get(&key) { return t; }
    let k = key.0.clone();
    if st().diagrams { if let Some(r) = diagram(&k, w) { st().map.insert(key, r); return r; } }
    let (ctree, sup) = {
        let n = &st().nodes;
        match &k {
            K::Const(_) => (true, 0),
            K::Undef => (true, 0),
            K::Ite(c, a, b) => { let (x, y) = (&n[*a as usize], &n[*b as usize]); (w == 1 || (x.ctree && y.ctree), n[*c as usize].sup | x.sup | y.sup) }
            K::Not(a) if w == 1 => (true, n[*a as usize].sup),
            K::Var(i) if w == 1 => (true, 1u128 << (st().vars[*i as usize].grp % 120)),
            K::Extract(a, _, _) if w == 1 => (true, match &n[*a as usize].k { K::Var(i) => 1u128 << (st().vars[*i as usize].grp % 120), _ => OPAQUE }),
            _ => (w == 1, OPAQUE),
        }
    };
    let mut rng = calc_rng(&k, w);
    if let Some(r) = rel_ite_rng(&k, w) { rng = isect(rng, r); }
    let sg = calc_sig(&k, w);
    if let Some(s) = &sg {
        for v in s { assert!(*v <= mask(w)); if *v < rng.ulo || *v > rng.uhi || tosigned(*v, w) < rng.slo || tosigned(*v, w) > rng.shi {
            fatal(&format!("range self-check failed for {:?} w{}: {} not in {:?}", k, w, v, rng)); } }
    }
    let s = st();
    let id = s.nodes.len() as T;
    s.nodes.push(Node { k, w, ctree, sup, rng, sig: sg });
    s.map.insert(key, id);
    id
}

/// f over every combination of leaves of some diagrams, as a diagram; None when too large
fn leaves(v: Vec<T>, leaf: &mut dyn FnMut(&[T]) -> T, memo: &mut FxMap<Vec<T>, T>, budget: &mut usize) -> Option<T> {
    if let Some(&r) = memo.get(&v) { return Some(r); }
    let mut c: Option<T> = None;
    for x in &v { if let Some((d, _, _)) = top(*x) { if c.map(|c| ord(d) < ord(c)).unwrap_or(true) { c = Some(d); } } }
    let r = match c {
        None => leaf(&v),
        Some(c) => {
            if *budget == 0 { return None; }
            *budget -= 1;
            let hi = leaves(v.iter().map(|x| cof(*x, c).0).collect(), leaf, memo, budget)?;
            let lo = leaves(v.iter().map(|x| cof(*x, c).1).collect(), leaf, memo, budget)?;
            let w = width(hi);
            if w == 1 { let mut n = 100_000usize; bite(c, hi, lo, 1, &mut n)? } else { mk(c, hi, lo, w) }
        }
    };
    memo.insert(v, r);
    Some(r)
}
/// An operation on diagrams as a diagram.
fn diagram(k: &K, w: u16) -> Option<T> {
    if matches!(k, K::Const(_) | K::Var(_) | K::Undef | K::Ite(..)) || w == 1 && matches!(k, K::Not(_)) { return None; }
    let mut a = vec![]; let mut ok = true;
    children(k, &mut |x| { let n = &st().nodes[x as usize]; ok &= n.ctree && n.sup & OPAQUE == 0; a.push(x); });
    if !ok { return None; }
    let pos: FxMap<T, usize> = a.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let (mut memo, mut n) = (FxMap::default(), 100_000usize);
    leaves(a, &mut |v| if v.iter().any(|x| is_undef(*x)) { if w == 1 { FALSE } else { undef(w) } } else { cst(eval_k(k, w, &mut |x| cval(v[pos[&x]]).unwrap()), w) }, &mut memo, &mut n)
}

/// A function of doubles on diagrams.
pub fn diagram_f(a: &[T], f: &dyn Fn(&[f64]) -> f64) -> Option<T> {
    if !st().diagrams || a.iter().any(|x| { let n = &st().nodes[*x as usize]; !n.ctree || n.sup & OPAQUE != 0 }) { return None; }
    let (mut memo, mut n) = (FxMap::default(), 100_000usize);
    leaves(a.to_vec(), &mut |v| if v.iter().any(|x| is_undef(*x)) { undef(64) } else { let v: Vec<f64> = v.iter().map(|x| bf(cval(*x).unwrap())).collect(); cst(fbits(f(&v)), 64) }, &mut memo, &mut n)
}

/// Range of `Ite(x < y, a, b)` style minimum/maximum patterns: when a branch is `d + k` with d the
/// difference the guard compares, the guard bounds it.
fn rel_ite_rng(k: &K, w: u16) -> Option<Rng> {
    if w > 64 || w < 8 { return None; }
    if let K::Ite(c, a, b) = k {
        let ra = refine_under(*c, true, *a); let rb = refine_under(*c, false, *b);
        if ra.is_none() && rb.is_none() { return None; }
        let a = ra.unwrap_or(range(*a)); let b = rb.unwrap_or(range(*b));
        return Some(Rng { ulo: a.ulo.min(b.ulo), uhi: a.uhi.max(b.uhi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi) });
    }
    None
}
/// If `c == val` bounds t, the refined range of t.
fn refine_under(c: T, val: bool, t: T) -> Option<Rng> {
    let (c, val) = if let K::Not(x) = kind(c) { (*x, !val) } else { (c, val) };
    let w = width(t);
    if let K::Slt(x, y) = kind(c) {
        if width(*x) != w { return None; }
        let rx = range(*x); let ry = range(*y);
        // exact difference y - x must not wrap for the reasoning to be about integers
        let f = full(w);
        let (dlo, dhi) = (ry.slo - rx.shi, ry.shi - rx.slo);
        let rt = range(t);
        if t == *x { // x < y or x >= y
            let (lo, hi) = if val { (rt.slo, rt.shi.min(ry.shi - 1)) } else { (rt.slo.max(ry.slo), rt.shi) };
            if lo <= hi { return Some(rng_s(lo, hi, w)); }
            return None;
        }
        if t == *y {
            let (lo, hi) = if val { (rt.slo.max(rx.slo + 1), rt.shi) } else { (rt.slo, rt.shi.min(rx.shi)) };
            if lo <= hi { return Some(rng_s(lo, hi, w)); }
            return None;
        }
        if dlo < f.slo || dhi > f.shi { return None; }
        let d = bv_sub(*y, *x); // integer difference, no wrap
        // t = d + k ?
        let e = bv_sub(t, d);
        if let Some(kc) = cval(e) {
            let kc = tosigned(kc, w);
            let (lo, hi) = if val { (1 + kc, dhi + kc) } else { (dlo + kc, kc) };
            if lo >= f.slo && hi <= f.shi && lo <= hi { return Some(rng_s(lo, hi, w)); }
        }
        let e = bv_add(t, d); // t = k - d
        if let Some(kc) = cval(e) {
            let kc = tosigned(kc, w);
            let (lo, hi) = if val { (kc - dhi, kc - 1) } else { (kc, kc - dlo) };
            if lo >= f.slo && hi <= f.shi && lo <= hi { return Some(rng_s(lo, hi, w)); }
        }
    }
    None
}

/// Set while a program is being executed: what cannot be executed then ends the execution, not the process, so that
/// the conditions met before are still decided.
pub static IN_EXEC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Abort(pub String);
pub fn fatal(s: &str) -> ! {
    if IN_EXEC.load(std::sync::atomic::Ordering::Relaxed) && !s.contains("self-check") && !s.contains("refuted") { std::panic::panic_any(Abort(s.to_string())); }
    println!("FATAL {}", s);
    eprintln!("FATAL {}", s);
    std::process::exit(3);
}

fn check2(name: &str, r: T, want: Option<[u128; NS]>) -> T {
    if let (Some(a), Some(b)) = (&st().nodes[r as usize].sig, &want) {
        if a != b { fatal(&format!("self-check failed in {}: {:?} vs {:?} term {}", name, a, b, show(r, 4))); }
    }
    r
}
fn want2(a: T, b: T, f: &dyn Fn(u128, u128) -> u128) -> Option<[u128; NS]> {
    let s = st();
    match (&s.nodes[a as usize].sig, &s.nodes[b as usize].sig) {
        (Some(x), Some(y)) => { let mut o = [0; NS]; for i in 0..NS { o[i] = f(x[i], y[i]); } Some(o) }
        _ => None,
    }
}

pub fn cst(v: u128, w: u16) -> T { intern(K::Const(v & mask(w)), w) }
pub fn undef(w: u16) -> T { intern(K::Undef, w) }
pub fn boolc(b: bool) -> T { if b { TRUE } else { FALSE } }

fn raw_var(name: &str, w: u16, lo: u128, hi: u128, grp: u32) -> T {
    let mut samples = [0u128; NS];
    for i in 0..NS {
        let span = hi.wrapping_sub(lo).wrapping_add(1);
        let r = (rnd() as u128) << 64 | rnd() as u128;
        samples[i] = if i == 0 { lo } else if i == 1 { hi } else if span == 0 { r } else { lo + r % span };
    }
    let s = st();
    let i = s.vars.len() as u32;
    s.vars.push(VarInfo { name: name.to_string(), w, lo, hi, samples, grp, freal: None });
    intern(K::Var(i), w)
}
/// A fresh variable.  Small domains are decision trees over fresh boolean variables (every boolean
/// assignment denotes a value of the domain and every value is denoted).
pub fn new_var(name: &str, w: u16, lo: u128, hi: u128) -> T {
    let g = st().grps; st().grps += 1;
    if lo == hi { return cst(lo, w); }
    if hi - lo < 256 {
        let n = 128 - (hi - lo).leading_zeros();
        let bits: Vec<T> = (0..n).map(|i| raw_var(&format!("{}.{}", name, n - 1 - i), 1, 0, 1, g)).collect();
        fn tree(bits: &[T], base: u128, lo: u128, hi: u128, w: u16) -> T {
            if bits.is_empty() { return cst((lo + base).min(hi), w); }
            let half = 1u128 << (bits.len() - 1);
            let l = tree(&bits[1..], base, lo, hi, w);
            let h = tree(&bits[1..], base + half, lo, hi, w);
            mk(bits[0], h, l, w)
        }
        return tree(&bits, 0, lo, hi, w);
    }
    raw_var(name, w, lo, hi, g)
}

// ---------- decision diagrams ----------
/// position of an atom in the global variable order
fn ord(a: T) -> u64 {
    match kind(a) {
        K::Var(i) => (*i as u64) << 8,
        K::Extract(x, h, _) => if let K::Var(i) = kind(*x) { (*i as u64) << 8 | (255 - *h as u64) } else { 1 << 40 | a as u64 },
        _ => 1 << 40 | a as u64,
    }
}
/// top decision of a boolean term or of a constant-leaf tree
fn top(t: T) -> Option<(T, T, T)> {
    let n = &st().nodes[t as usize];
    match &n.k {
        K::Const(_) | K::Undef => None,
        K::Ite(c, a, b) => Some((*c, *a, *b)),
        K::Not(x) if n.w == 1 => Some((*x, FALSE, TRUE)),
        _ if n.w == 1 => Some((t, TRUE, FALSE)),
        _ => None,
    }
}
fn mk(c: T, hi: T, lo: T, w: u16) -> T {
    if hi == lo || is_undef(lo) { return hi; }
    if is_undef(hi) { return lo; }
    if w == 1 { if hi == TRUE && lo == FALSE { return c; } if hi == FALSE && lo == TRUE { return intern(K::Not(c), 1); } }
    intern(K::Ite(c, hi, lo), w)
}
fn cof(t: T, c: T) -> (T, T) { match top(t) { Some((d, a, b)) if d == c => (a, b), _ => (t, t) } }
/// if-then-else on diagrams; None when the work budget runs out
fn bite(f: T, g: T, h: T, w: u16, budget: &mut usize) -> Option<T> {
    if f == TRUE { return Some(g); }
    if f == FALSE { return Some(h); }
    if is_undef(f) { return Some(h); }
    if g == h || is_undef(h) { return Some(g); }
    if is_undef(g) { return Some(h); }
    if w == 1 {
        if g == TRUE && h == FALSE { return Some(f); }
        if g == f { return bite(f, TRUE, h, w, budget); }
        if h == f { return bite(f, g, FALSE, w, budget); }
    }
    if let Some(&r) = st().memo_ite.get(&(f, g, h)) { return Some(r); }
    if *budget == 0 { return None; }
    *budget -= 1;
    let (tf, tg, th) = (top(f).unwrap(), top(g), top(h));
    let mut c = tf.0; let mut o = ord(c);
    for x in [tg, th] { if let Some((d, _, _)) = x { let q = ord(d); if q < o { o = q; c = d; } } }
    let (f1, f0) = cof(f, c); let (g1, g0) = cof(g, c); let (h1, h0) = cof(h, c);
    let x = bite(f1, g1, h1, w, budget)?;
    let y = bite(f0, g0, h0, w, budget)?;
    let r = mk(c, x, y, w);
    st().memo_ite.insert((f, g, h), r);
    Some(r)
}
pub fn band(a: T, b: T) -> Option<T> {
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let mut n = st().bdd_budget;
    bite(a, b, FALSE, 1, &mut n)
}
pub fn band_small(a: T, b: T) -> Option<T> {
    if a == TRUE { return Some(b); } if b == TRUE { return Some(a); }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let mut n = 200_000usize;
    bite(a, b, FALSE, 1, &mut n)
}
/// simplify f where only assignments satisfying care matter (Coudert-Madre restrict)
pub fn restrict(f: T, care: T) -> T { let mut n = 500_000usize; restrict_(f, care, &mut n).unwrap_or(f) }
fn restrict_(f: T, c: T, n: &mut usize) -> Option<T> {
    if c == TRUE || c == FALSE { return Some(f); }
    let tf = match top(f) { None => return Some(f), Some(x) => x };
    if f == c { return Some(TRUE); }
    if let Some(&r) = st().memo_bin.get(&(8, f, c)) { return Some(r); }
    if *n == 0 { return None; }
    *n -= 1;
    let (ct, c1, c0) = top(c).unwrap();
    let w = width(f);
    let r = if ord(ct) < ord(tf.0) { let q = bite(c1, TRUE, c0, 1, n)?; restrict_(f, q, n)? }
    else {
        let (k1, k0) = cof(c, tf.0);
        if k1 == FALSE { restrict_(tf.2, k0, n)? } else if k0 == FALSE { restrict_(tf.1, k1, n)? }
        else { let x = restrict_(tf.1, k1, n)?; let y = restrict_(tf.2, k0, n)?; mk(tf.0, x, y, w) }
    };
    st().memo_bin.insert((8, f, c), r);
    Some(r)
}
/// f over every pair of leaves of two constant-leaf trees; None when too large
fn apply2(a: T, b: T, f: &dyn Fn(T, T) -> T, memo: &mut FxMap<(T, T), T>, budget: &mut usize) -> Option<T> {
    let (ta, tb) = (top(a), top(b));
    if ta.is_none() && tb.is_none() { return Some(f(a, b)); }
    if let Some(&r) = memo.get(&(a, b)) { return Some(r); }
    if *budget == 0 { return None; }
    *budget -= 1;
    let c = match (ta, tb) { (Some(x), None) => x.0, (None, Some(y)) => y.0, (Some(x), Some(y)) => if ord(x.0) <= ord(y.0) { x.0 } else { y.0 }, _ => unreachable!() };
    let (a1, a0) = cof(a, c); let (b1, b0) = cof(b, c);
    let x = apply2(a1, b1, f, memo, budget)?;
    let y = apply2(a0, b0, f, memo, budget)?;
    let r = ite(c, x, y);
    memo.insert((a, b), r);
    Some(r)
}
/// t as a constant-leaf tree when that is small
/// variable groups below sums and concatenations
fn supx(t: T) -> u128 {
    match kind(t) { K::Concat(ps) => ps.iter().fold(0, |a, x| a | supx(*x)), K::Lin(_, ts) => ts.iter().fold(0, |a, x| a | supx(x.0)), K::Const(_) => 0, _ => if is_ctree(t) { sup(t) } else { OPAQUE } }
}
pub fn flat(t: T) -> Option<T> {
    if is_ctree(t) { return Some(t); }
    if let Some(r) = st().memo_flat.get(&t) { return *r; }
    let w = width(t);
    let r = (|| {
        match kind(t).clone() {
            K::Lin(c, ts) => {
                let rg = range(t);
                if (ts.len() > 6 || (rg.uhi - rg.ulo > 300 && rg.shi - rg.slo > 300)) && !(supx(t) & OPAQUE == 0 && supx(t).count_ones() <= 4) { return None; }
                let mut acc = cst(c, w);
                for (x, k) in ts.iter() {
                    let fx = flat(*x)?;
                    let k = *k;
                    let (mut m, mut n) = (FxMap::default(), 60000usize);
                    acc = apply2(acc, fx, &|p, q| match (cval(p), cval(q)) { (Some(p), Some(q)) => cst(p.wrapping_add(q.wrapping_mul(k)), w), _ => undef(w) }, &mut m, &mut n)?;
                }
                Some(acc)
            }
            K::Concat(ps) => {
                let mut bits = 0; for p in ps.iter() { if cval(*p).is_none() { bits += width(*p); } }
                if bits > 16 && !(supx(t) & OPAQUE == 0 && supx(t).count_ones() <= 4) { return None; }
                let mut acc = flat(ps[0])?;
                for p in &ps[1..] {
                    let fx = flat(*p)?;
                    let (mut m, mut n) = (FxMap::default(), 60000usize);
                    acc = apply2(acc, fx, &|p, q| match (cval(p), cval(q)) { (Some(x), Some(y)) => cst(x | y << width(p), width(p) + width(q)), _ => undef(width(p) + width(q)) }, &mut m, &mut n)?;
                }
                Some(acc)
            }
            K::Ite(c, a, b) => { let x = flat(a)?; let y = flat(b)?; let r = ite(c, x, y); if is_ctree(r) { Some(r) } else { None } }
            _ => None,
        }
    })();
    if let Some(r) = r { check2("flat", r, want2(t, t, &|x, _| x)); }
    st().memo_flat.insert(t, r);
    r
}
pub fn is_flat(t: T) -> bool { flat(t).is_some() }

// ---------- segments ----------
pub fn parts(t: T) -> Vec<T> { if let K::Concat(p) = kind(t) { p.to_vec() } else { vec![t] } }
fn bounds(t: T, out: &mut Vec<u16>) { if let K::Concat(p) = kind(t) { let mut s = 0; for &x in p.iter() { s += width(x); out.push(s); } } }
/// run boundaries of a constant mask
fn const_runs(c: u128, w: u16, out: &mut Vec<u16>) {
    let mut i = 1; while i < w { if (c >> i) & 1 != (c >> (i - 1)) & 1 { out.push(i); } i += 1; }
}
fn split_at(t: T, bs: &[u16]) -> Vec<T> {
    let mut v = vec![]; let mut lo = 0;
    for &b in bs { v.push(extract(t, b - 1, lo)); lo = b; }
    v
}
fn norm_bounds(mut b: Vec<u16>, w: u16) -> Vec<u16> { b.push(w); b.sort(); b.dedup(); b }

pub fn concat(ps: &[T]) -> T {
    let mut out: Vec<T> = vec![];
    for &p in ps {
        for q in parts(p) {
            if let Some(&l) = out.last() {
                let m = match (kind(l), kind(q)) {
                    (K::Const(a), K::Const(b)) => Some(cst(a | (b << width(l)), width(l) + width(q))),
                    (K::Undef, K::Undef) => Some(undef(width(l) + width(q))),
                    (K::Extract(x, h1, l1), K::Extract(y, h2, l2)) if x == y && *l2 == *h1 + 1 => Some(extract(*x, *h2, *l1)),
                    _ if width(l) + width(q) <= 3 && is_ctree(l) && is_ctree(q) && cval(l).is_none() && cval(q).is_none() && !is_undef(l) && !is_undef(q) && sup(l) == sup(q) && sup(l) & OPAQUE == 0 => {
                        let (mut m, mut n) = (FxMap::default(), 60000usize);
                        apply2(l, q, &|p, q| match (cval(p), cval(q)) { (Some(x), Some(y)) => cst(x | y << width(p), width(p) + width(q)), _ => undef(width(p) + width(q)) }, &mut m, &mut n)
                    }
                    _ => None,
                };
                if let Some(m) = m { out.pop(); out.push(m); continue; }
            }
            out.push(q);
        }
    }
    if out.len() == 1 { return out[0]; }
    let w: u16 = out.iter().map(|x| width(*x)).sum();
    intern(K::Concat(out.into_boxed_slice()), w)
}

pub fn extract(t: T, hi: u16, lo: u16) -> T {
    let w = width(t);
    debug_assert!(hi < w && lo <= hi);
    if lo == 0 && hi == w - 1 { return t; }
    if let Some(&r) = st().memo_ext.get(&(t, hi, lo)) { return r; }
    let nw = hi - lo + 1;
    let r = match kind(t).clone() {
        K::Const(c) => cst(c >> lo, nw),
        K::Undef => undef(nw),
        K::Extract(x, _, l0) => extract(x, l0 + hi, l0 + lo),
        K::Concat(p) => {
            let mut out = vec![]; let mut s = 0u16;
            for &x in p.iter() {
                let xw = width(x);
                let (a, b) = (s.max(lo), (s + xw - 1).min(hi));
                if a <= b { out.push(extract(x, b - s, a - s)); }
                s += xw;
            }
            concat(&out)
        }
        K::Ite(..) if is_ctree(t) => { let mut m = FxMap::default(); map_ctree(t, &mut |x| extract(x, hi, lo), &mut m) }
        K::Ite(c, a, b) => ite(c, extract(a, hi, lo), extract(b, hi, lo)),
        K::Not(a) => not(extract(a, hi, lo)),
        K::And(a, b) => and(extract(a, hi, lo), extract(b, hi, lo)),
        K::Or(a, b) => or(extract(a, hi, lo), extract(b, hi, lo)),
        K::Xor(a, b) => xor(extract(a, hi, lo), extract(b, hi, lo)),
        K::SExt(a) => {
            let aw = width(a);
            if hi < aw { extract(a, hi, lo) }
            else if lo >= aw - 1 { sext(extract(a, aw - 1, aw - 1), nw) }
            else { sext(extract(a, aw - 1, lo), nw) }
        }
        K::Lin(c, ts) if lo == 0 => {
            let v: Vec<(T, u128)> = ts.iter().map(|(x, k)| (extract(*x, hi, 0), *k & mask(nw))).collect();
            lin(c & mask(nw), v, nw)
        }
        K::Mul(a, b) if lo == 0 => mul(extract(a, hi, 0), extract(b, hi, 0)),
        _ => {
            let rg = range(t);
            if hi == w - 1 || true {
                // constant high bits
                if rg.uhi >> lo == rg.ulo >> lo && nw <= 127 { let v = (rg.uhi >> lo) & mask(nw); if hi == w - 1 || (rg.uhi >> (hi + 1)) == (rg.ulo >> (hi + 1)) { let r = cst(v, nw); st().memo_ext.insert((t, hi, lo), r); return r; } }
            }
            // trim zero high bits
            let nb = 128 - rg.uhi.leading_zeros() as u16;
            if nb <= hi && nb > lo && nb >= 1 {
                let r = concat(&[intern_extract(t, nb - 1, lo), cst(0, hi - nb + 1)]);
                st().memo_ext.insert((t, hi, lo), r);
                return r;
            }
            intern_extract(t, hi, lo)
        }
    };
    let want = want2(t, t, &|x, _| (x >> lo) & mask(nw));
    check2("extract", r, want);
    st().memo_ext.insert((t, hi, lo), r);
    r
}
fn intern_extract(t: T, hi: u16, lo: u16) -> T { if lo == 0 && hi == width(t) - 1 { t } else { intern(K::Extract(t, hi, lo), hi - lo + 1) } }

pub fn zext(t: T, w: u16) -> T {
    let tw = width(t);
    if tw == w { return t; }
    if is_ctree(t) && (tw > 1 || sup(t) & OPAQUE == 0) { let mut m = FxMap::default(); return map_ctree(t, &mut |x| match cval(x) { Some(c) => cst(c, w), None => undef(w) }, &mut m); }
    concat(&[t, cst(0, w - tw)])
}
pub fn trunc(t: T, w: u16) -> T { if width(t) == w { t } else { extract(t, w - 1, 0) } }
pub fn sext(t: T, w: u16) -> T {
    let tw = width(t);
    if tw == w { return t; }
    let r = (|| {
        match kind(t).clone() {
            K::Const(c) => return cst(tosigned(c, tw) as u128, w),
            K::Undef => return undef(w),
            K::Ite(..) if is_ctree(t) => { let mut m = FxMap::default(); return map_ctree(t, &mut |x| sext(x, w), &mut m); }
            _ if tw == 1 => return ite(t, cst(mask(w), w), cst(0, w)),
            K::Ite(c, a, b) => return ite(c, sext(a, w), sext(b, w)),
            K::SExt(a) => return sext(a, w),
            _ => {}
        }
        if range(t).slo >= 0 { return zext(t, w); }
        if let K::Lin(c, ts) = kind(t).clone() {
            if w <= 64 {
                let f = full(tw);
                let mut lo = tosigned(c, tw); let mut hi = lo;
                for (x, k) in ts.iter() { let r = range(*x); let k = tosigned(*k, tw); let (a, b) = (k * r.slo, k * r.shi); lo += a.min(b); hi += a.max(b); }
                if lo >= f.slo && hi <= f.shi {
                    let v: Vec<(T, u128)> = ts.iter().map(|(x, k)| (sext(*x, w), (tosigned(*k, tw) as u128) & mask(w))).collect();
                    return lin((tosigned(c, tw) as u128) & mask(w), v, w);
                }
            }
        }
        if let K::Concat(p) = kind(t).clone() {
            // sign bit is in the last part
            let l = p[p.len() - 1];
            let mut v: Vec<T> = p[..p.len() - 1].to_vec();
            let rest: u16 = v.iter().map(|x| width(*x)).sum();
            v.push(sext(l, w - rest));
            return concat(&v);
        }
        intern(K::SExt(t), w)
    })();
    check2("sext", r, want2(t, t, &|x, _| (tosigned(x, tw) as u128) & mask(w)))
}

// ---------- boolean / bitwise ----------
pub fn not(a: T) -> T {
    let w = width(a);
    if w == 1 {
        match kind(a) {
            K::Const(_) | K::Undef => {}
            K::Not(x) => return *x,
            K::Ite(c, x, y) => {
                let (c, x, y) = (*c, *x, *y);
                if let Some(&r) = st().memo_bin.get(&(9, a, a)) { return r; }
                let (p, q) = (not(x), not(y));
                let r = mk(c, p, q, 1);
                st().memo_bin.insert((9, a, a), r);
                st().memo_bin.insert((9, r, r), a);
                return r;
            }
            _ => return intern(K::Not(a), 1),
        }
    }
    match kind(a).clone() {
        K::Const(c) => cst(!c, w),
        K::Undef => a,
        K::Not(x) => x,
        K::Concat(p) => { let v: Vec<T> = p.iter().map(|x| not(*x)).collect(); concat(&v) }
        K::Ite(..) if is_ctree(a) => { let mut m = FxMap::default(); map_ctree(a, &mut |x| not(x), &mut m) }
        _ => intern(K::Not(a), w),
    }
}
fn is_not_of(a: T, b: T) -> bool { if let K::Not(x) = kind(a) { *x == b } else if let K::Not(x) = kind(b) { *x == a } else { false } }

pub fn and(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b { return a; }
    if is_undef(a) || is_undef(b) { if w == 1 { return FALSE; } return undef(w); }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    if let Some(&r) = st().memo_bin.get(&(1, a, b)) { return r; }
    let r = and_(a, b, w);
    check2("and", r, want2(a, b, &|x, y| x & y));
    st().memo_bin.insert((1, a, b), r);
    r
}
fn and_(a: T, b: T, w: u16) -> T {
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(x & y, w); }
    let m = mask(w);
    for (c, o) in [(ca, b), (cb, a)] { if let Some(c) = c { if c == 0 { return cst(0, w); } if c == m { return o; } } }
    if is_not_of(a, b) { return cst(0, w); }
    if w > 1 {
        let mut bs = vec![];
        bounds(a, &mut bs); bounds(b, &mut bs);
        if let Some(c) = ca { const_runs(c, w, &mut bs); }
        if let Some(c) = cb { const_runs(c, w, &mut bs); }
        if !bs.is_empty() {
            let bs = norm_bounds(bs, w);
            let (x, y) = (split_at(a, &bs), split_at(b, &bs));
            let v: Vec<T> = (0..x.len()).map(|i| and(x[i], y[i])).collect();
            return concat(&v);
        }
    }
    if w == 1 { return match band(a, b) { Some(r) => r, None => { st().bdd_fail += 1; intern(K::And(a.min(b), a.max(b)), 1) } }; }
    if let Some(r) = push_ctree2(a, b, &|x, y| and(x, y)) { return r; }
    intern(K::And(a, b), w)
}
pub fn or(a: T, b: T) -> T {
    let w = width(a);
    if w == 1 { return not(and(not(a), not(b))); }
    if a == b { return a; }
    if is_undef(a) || is_undef(b) { return undef(w); }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(x | y, w); }
    let m = mask(w);
    for (c, o) in [(ca, b), (cb, a)] { if let Some(c) = c { if c == m { return cst(m, w); } if c == 0 { return o; } } }
    let mut bs = vec![];
    bounds(a, &mut bs); bounds(b, &mut bs);
    if let Some(c) = ca { const_runs(c, w, &mut bs); }
    if let Some(c) = cb { const_runs(c, w, &mut bs); }
    let r = if !bs.is_empty() {
        let bs = norm_bounds(bs, w);
        let (x, y) = (split_at(a, &bs), split_at(b, &bs));
        let v: Vec<T> = (0..x.len()).map(|i| or(x[i], y[i])).collect();
        concat(&v)
    } else if let Some(r) = push_ctree2(a, b, &|x, y| or(x, y)) { r } else { intern(K::Or(a, b), w) };
    check2("or", r, want2(a, b, &|x, y| x | y))
}
pub fn xor(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return cst(0, w); }
    if is_undef(a) || is_undef(b) { return undef(w); }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(x ^ y, w); }
    let m = mask(w);
    for (c, o) in [(ca, b), (cb, a)] { if let Some(c) = c { if c == 0 { return o; } if c == m { return not(o); } } }
    if is_not_of(a, b) { return cst(m, w); }
    if w == 1 {
        let (na, x) = if let K::Not(x) = kind(a) { (true, *x) } else { (false, a) };
        let (nb, y) = if let K::Not(y) = kind(b) { (true, *y) } else { (false, b) };
        if na || nb { let r = xor(x, y); return if na != nb { not(r) } else { r }; }
        let nb = not(b); let mut n = st().bdd_budget;
        let r = match bite(a, nb, b, 1, &mut n) { Some(r) => r, None => { st().bdd_fail += 1; intern(K::Xor(a, b), 1) } };
        return check2("xor", r, want2(a, b, &|x, y| x ^ y));
    }
    let mut bs = vec![];
    bounds(a, &mut bs); bounds(b, &mut bs);
    if let Some(c) = ca { const_runs(c, w, &mut bs); }
    if let Some(c) = cb { const_runs(c, w, &mut bs); }
    let r = if !bs.is_empty() {
        let bs = norm_bounds(bs, w);
        let (x, y) = (split_at(a, &bs), split_at(b, &bs));
        let v: Vec<T> = (0..x.len()).map(|i| xor(x[i], y[i])).collect();
        concat(&v)
    } else if let Some(r) = push_ctree2(a, b, &|x, y| xor(x, y)) { r } else { intern(K::Xor(a, b), w) };
    check2("xor", r, want2(a, b, &|x, y| x ^ y))
}
pub fn implies(a: T, b: T) -> T { or(not(a), b) }

/// op over two constant-leaf trees, or over two Ites with the same guard
fn push_ctree2(a: T, b: T, f: &dyn Fn(T, T) -> T) -> Option<T> {
    if is_ctree(a) && is_ctree(b) && (cval(a).is_none() || cval(b).is_none()) {
        let (mut m, mut n) = (FxMap::default(), 300000usize);
        return apply2(a, b, f, &mut m, &mut n);
    }
    let ka = kind(a).clone(); let kb = kind(b).clone();
    if let (K::Ite(c, x, y), K::Ite(d, z, v)) = (&ka, &kb) {
        if c == d { return Some(ite(*c, f(*x, *z), f(*y, *v))); }
    }
    None
}
pub fn map_ctree(t: T, f: &mut dyn FnMut(T) -> T, memo: &mut FxMap<T, T>) -> T {
    if let Some(&r) = memo.get(&t) { return r; }
    let r = if let Some((c, a, b)) = top(t) { let x = map_ctree(a, f, memo); let y = map_ctree(b, f, memo); ite(c, x, y) } else { f(t) };
    memo.insert(t, r);
    r
}
pub fn ite(c: T, a: T, b: T) -> T {
    debug_assert_eq!(width(a), width(b));
    if let Some(x) = cval(c) { return if x != 0 { a } else { b }; }
    if is_undef(c) { return b; }
    if a == b { return a; }
    if is_undef(a) { return b; }
    if is_undef(b) { return a; }
    if let K::Not(x) = kind(c) { return ite(*x, b, a); }
    if let Some(&r) = st().memo_ite.get(&(c, a, b)) { return r; }
    let r = ite_(c, a, b);
    if let (Some(sc), Some(sa), Some(sb)) = (sig(c), sig(a), sig(b)) {
        let mut o = [0; NS]; for i in 0..NS { o[i] = if sc[i] != 0 { sa[i] } else { sb[i] }; }
        check2("ite", r, Some(o));
    }
    st().memo_ite.insert((c, a, b), r);
    r
}
fn ite_(c: T, a: T, b: T) -> T {
    let w = width(a);
    if is_ctree(a) && is_ctree(b) {
        let mut n = st().bdd_budget;
        if let Some(r) = bite(c, a, b, w, &mut n) { return r; }
        st().bdd_fail += 1;
        if w == 1 { let x = and(c, a); let y = and(not(c), b); return or(x, y); }
        return intern(K::Ite(c, a, b), w); // guard form (not a diagram any more)
    }
    let (a, b) = (under(a, c, true), under(b, c, false));
    if a == b { return a; }
    // segment-wise
    let mut bs = vec![];
    bounds(a, &mut bs); bounds(b, &mut bs);
    if !bs.is_empty() {
        let bs = norm_bounds(bs, w);
        let (x, y) = (split_at(a, &bs), split_at(b, &bs));
        let v: Vec<T> = (0..x.len()).map(|i| ite(c, x[i], y[i])).collect();
        return concat(&v);
    }
    // Ite(c, x, Ite(d, x, y)) = Ite(c|d, x, y)
    if let K::Ite(d, x, y) = kind(b).clone() {
        if x == a { return ite(or(c, d), a, y); }
        if y == a { return ite(or(c, not(d)), a, x); }
    }
    if let K::Ite(d, x, y) = kind(a).clone() {
        if x == b { return ite(and(c, not(d)), y, b); }
        if y == b { return ite(and(c, d), x, b); }
    }
    // Lin: share the common part  Ite(c, p+q, p+r)
    if w > 1 && w <= 64 {
        let (ca, ta) = to_lin(a); let (cb, tb) = to_lin(b);
        if ta.len() >= 1 && tb.len() >= 1 && (matches!(kind(a), K::Lin(..)) || matches!(kind(b), K::Lin(..))) {
            let mut common = vec![]; let mut ra = vec![]; let mut rb = tb.clone();
            for (t, k) in ta.iter() {
                if let Some(p) = rb.iter().position(|z| z.0 == *t && z.1 == *k) { common.push((*t, *k)); rb.remove(p); } else { ra.push((*t, *k)); }
            }
            if !common.is_empty() {
                let (x, y) = (lin(ca, ra, w), lin(cb, rb, w));
                let i = ite(c, x, y);
                common.push((i, 1));
                return lin(0, common, w);
            }
        }
    }
    intern(K::Ite(c, a, b), w)
}

/// value of t assuming c == v (one structural level)
fn under(t: T, c: T, v: bool) -> T {
    match kind(t) { K::Ite(d, x, y) if *d == c => if v { *x } else { *y }, K::Ite(d, x, y) if is_not_of(*d, c) => if v { *y } else { *x }, _ => t }
}
pub fn ands(v: &[T]) -> T { let mut r = TRUE; for &x in v { r = and(r, x); } r }

// ---------- linear arithmetic ----------
pub fn to_lin(t: T) -> (u128, Vec<(T, u128)>) {
    match kind(t) {
        K::Const(c) => (*c, vec![]),
        K::Lin(c, ts) => (*c, ts.to_vec()),
        _ => (0, vec![(t, 1)]),
    }
}
pub fn lin(c: u128, ts: Vec<(T, u128)>, w: u16) -> T {
    let m = mask(w);
    let mut c = c & m;
    let mut v: Vec<(T, u128)> = vec![];
    let mut stack = ts; 
    while let Some((t, k)) = stack.pop() {
        let k = k & m;
        if k == 0 { continue; }
        match kind(t) {
            K::Const(x) => c = c.wrapping_add(x.wrapping_mul(k)) & m,
            K::Undef => return undef(w),
            K::Lin(cc, tt) => { c = c.wrapping_add(cc.wrapping_mul(k)) & m; for (x, q) in tt.iter() { stack.push((*x, q.wrapping_mul(k))); } }
            K::Not(x) => { c = c.wrapping_sub(k) & m; stack.push((*x, k.wrapping_neg())); }
            _ => v.push((t, k)),
        }
    }
    v.sort();
    let mut o: Vec<(T, u128)> = vec![];
    for (t, k) in v { if let Some(l) = o.last_mut() { if l.0 == t { l.1 = l.1.wrapping_add(k) & m; continue; } } if let Some(l) = o.last() { if l.1 == 0 { o.pop(); } } o.push((t, k)); }
    o.retain(|x| x.1 != 0);
    if o.is_empty() { return cst(c, w); }
    if o.len() == 1 {
        let (t, k) = o[0];
        if c == 0 && k == 1 { return t; }
        if is_ctree(t) {
            let mut memo = FxMap::default();
            return map_ctree(t, &mut |x| cst(cval(x).unwrap_or(0).wrapping_mul(k).wrapping_add(c), w), &mut memo);
        }
        if k == 1 { if let Some(r) = add_const_concat(t, c, w) { return r; } }
        // constant * 2^n of something narrow
        if c == 0 && k.is_power_of_two() {
            let n = k.trailing_zeros() as u16;
            let rg = range(t);
            if rg.uhi <= (m >> n) && matches!(kind(t), K::Concat(_)) { return shl_const(t, n); }
        }
    }
    // constant-leaf trees: coefficient folded in, zero at the all-low leaf, one tree per support
    if o.len() >= 2 && o.iter().any(|x| is_ctree(x.0)) {
        let mut rest: Vec<(T, u128)> = vec![]; let mut trees: Vec<T> = vec![];
        for (t, k) in o.iter() {
            if !is_ctree(*t) { rest.push((*t, *k)); continue; }
            let v0 = low_leaf(*t).wrapping_mul(*k) & m;
            c = c.wrapping_add(v0) & m;
            let mut tt = scale_tree(*t, *k, v0, w);
            let mut i = 0;
            while i < trees.len() {
                let (sa, sb) = (sup(trees[i]), sup(tt));
                if sa & OPAQUE == 0 && sa == sb {
                    let (mut mm, mut n) = (FxMap::default(), 3000usize);
                    if let Some(r) = apply2(trees[i], tt, &|p, q| match (cval(p), cval(q)) { (Some(p), Some(q)) => cst(p.wrapping_add(q), w), _ => undef(w) }, &mut mm, &mut n) { tt = r; trees.swap_remove(i); i = 0; continue; }
                }
                i += 1;
            }
            if cval(tt).is_none() && !is_undef(tt) { trees.push(tt); } else if let Some(x) = cval(tt) { c = c.wrapping_add(x) & m; }
        }
        for t in trees { rest.push((t, 1)); }
        rest.sort();
        if rest.len() < 2 || rest != o {
            if rest.len() < 2 { return lin(c, rest, w); }
            let mut q: Vec<(T, u128)> = vec![];
            for (t, k) in rest { if let Some(l) = q.last_mut() { if l.0 == t { l.1 = l.1.wrapping_add(k) & m; continue; } } q.push((t, k)); }
            q.retain(|x| x.1 != 0);
            if q.len() < 2 { return lin(c, q, w); }
            // equal trees were added up: a further folding round terminates (supports are distinct)
            if q.iter().any(|x| is_ctree(x.0) && x.1 != 1) { return lin(c, q, w); }
            o = q;
        }
    }
    // disjoint concat addition
    if c == 0 && o.len() == 2 && o[0].1 == 1 && o[1].1 == 1 {
        if let Some(r) = disjoint_add(o[0].0, o[1].0, w) { return r; }
    }
    if o.len() >= 2 && st().lin_cond_rule {
        // atoms that are Ites over the same guard are combined when that makes them simpler
        let mut by: Vec<(T, Vec<usize>)> = vec![];
        for (i, (t, _)) in o.iter().enumerate() { if is_ctree(*t) { continue; } if let K::Ite(g, _, _) = kind(*t) { if let Some(e) = by.iter_mut().find(|e| e.0 == *g) { e.1.push(i) } else { by.push((*g, vec![i])) } } }
        for (g, ix) in by {
            if ix.len() < 2 { continue; }
            let (mut x, mut y) = (vec![], vec![]);
            for &i in &ix { if let K::Ite(_, p, q) = kind(o[i].0) { x.push((*p, o[i].1)); y.push((*q, o[i].1)); } }
            let (a, b) = (lin(0, x, w), lin(0, y, w));
            let size = |t: T| match kind(t) { K::Const(_) => 0, K::Lin(_, v) => v.len(), _ => 1 };
            if a == b || size(a) + size(b) <= ix.len() + 1 {
                let mut rest: Vec<(T, u128)> = o.iter().enumerate().filter(|(i, _)| !ix.contains(i)).map(|(_, x)| *x).collect();
                rest.push((ite(g, a, b), 1));
                return lin(c, rest, w);
            }
        }
    }
    intern(K::Lin(c, o.into_boxed_slice()), w)
}
fn low_leaf(t: T) -> u128 { let mut t = t; while let Some((_, _, l)) = top(t) { t = l; } cval(t).unwrap_or(0) }
/// k * t - v0 over the leaves
fn scale_tree(t: T, k: u128, v0: u128, w: u16) -> T {
    if k == 1 && v0 == 0 { return t; }
    let key = (t, k, v0);
    if let Some(&r) = st().memo_scale.get(&key) { return r; }
    let mut memo = FxMap::default();
    let r = map_ctree(t, &mut |x| match cval(x) { Some(x) => cst(x.wrapping_mul(k).wrapping_sub(v0), w), None => undef(w) }, &mut memo);
    st().memo_scale.insert(key, r);
    r
}
fn disjoint_add(a: T, b: T, w: u16) -> Option<T> {
    if !matches!(kind(a), K::Concat(_)) && !matches!(kind(b), K::Concat(_)) { return None; }
    let mut bs = vec![]; bounds(a, &mut bs); bounds(b, &mut bs);
    let bs = norm_bounds(bs, w);
    let (x, y) = (split_at(a, &bs), split_at(b, &bs));
    let mut v = vec![];
    for i in 0..x.len() { if cval(x[i]) == Some(0) { v.push(y[i]) } else if cval(y[i]) == Some(0) { v.push(x[i]) } else { return None; } }
    Some(concat(&v))
}
/// Concat + constant, segment-wise, when no segment but the last overflows.
fn add_const_concat(t: T, c: u128, w: u16) -> Option<T> {
    if !matches!(kind(t), K::Concat(_)) || c == 0 { return None; }
    let ps = parts(t);
    let neg = c >> (w - 1) & 1 == 1;
    let d = if neg { c.wrapping_neg() & mask(w) } else { c };
    let mut out = vec![]; let mut sh = 0u16;
    for (i, &p) in ps.iter().enumerate() {
        let pw = width(p);
        let s = (d >> sh) & mask(pw);
        let r = range(p);
        let last = i == ps.len() - 1;
        if s == 0 { out.push(p); }
        else if !neg && (r.uhi + s <= mask(pw) || last) { out.push(lin(s, vec![(p, 1)], pw)); }
        else if neg && (r.ulo >= s || last) { out.push(lin(s.wrapping_neg() & mask(pw), vec![(p, 1)], pw)); }
        else { return None; }
        sh += pw;
    }
    let r = concat(&out);
    Some(check2("addcc", r, want2(t, t, &|x, _| x.wrapping_add(c) & mask(w))))
}
pub fn bv_add(a: T, b: T) -> T { let w = width(a); check2("add", lin(0, vec![(a, 1), (b, 1)], w), want2(a, b, &|x, y| x.wrapping_add(y) & mask(w))) }
pub fn bv_sub(a: T, b: T) -> T { let w = width(a); check2("sub", lin(0, vec![(a, 1), (b, mask(w))], w), want2(a, b, &|x, y| x.wrapping_sub(y) & mask(w))) }
pub fn mul(a: T, b: T) -> T {
    let w = width(a);
    let r = if let Some(c) = cval(a) { lin(0, vec![(b, c)], w) } else if let Some(c) = cval(b) { lin(0, vec![(a, c)], w) }
    else if is_undef(a) || is_undef(b) { undef(w) }
    else if w == 1 { and(a, b) }
    else {
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        if let Some(r) = push_ctree2(a, b, &|x, y| mul(x, y)) { r } else if let Some(r) = mul_poly(a, b, w) { r } else if let (Some(x), Some(y)) = (flat(a), flat(b)) { if x != a || y != b { mul(x, y) } else { intern(K::Mul(a, b), w) } } else { intern(K::Mul(a, b), w) }
    };
    check2("mul", r, want2(a, b, &|x, y| x.wrapping_mul(y) & mask(w)))
}
/// product of two small linear forms, multiplied out (wrapping arithmetic is a ring)
fn mul_poly(a: T, b: T, w: u16) -> Option<T> {
    let lin2 = |t: T| matches!(kind(t), K::Lin(..));
    if !lin2(a) && !lin2(b) { return None; }
    let (ca, ta) = to_lin(a); let (cb, tb) = to_lin(b);
    if ta.len() > 3 || tb.len() > 3 { return None; }
    let m = mask(w);
    let mut ts: Vec<(T, u128)> = vec![];
    for (x, q) in &ta { ts.push((*x, q.wrapping_mul(cb) & m)); for (y, p) in &tb { let (x, y) = if x > y { (*y, *x) } else { (*x, *y) }; ts.push((intern(K::Mul(x, y), w), q.wrapping_mul(*p) & m)); } }
    for (y, p) in &tb { ts.push((*y, p.wrapping_mul(ca) & m)); }
    Some(lin(ca.wrapping_mul(cb) & m, ts, w))
}
fn shl_const(a: T, n: u16) -> T {
    let w = width(a);
    if n == 0 { return a; }
    if n >= w { return cst(0, w); }
    concat(&[cst(0, n), extract(a, w - 1 - n, 0)])
}
/// apply f to every possible value of t, sharing structure; None when t has too many values.
pub fn apply_table(t: T, f: &mut dyn FnMut(u128) -> T, budget: usize) -> Option<T> {
    let w = width(t);
    if let Some(c) = cval(t) { return Some(f(c)); }
    if is_undef(t) { return None; }
    if let Some(t) = flat(t) { let mut memo = FxMap::default(); return Some(map_ctree(t, &mut |x| f(cval(x).unwrap_or(0)), &mut memo)); }
    match kind(t).clone() {
        K::Lin(c, ts) if ts.len() == 1 && !(range(t).uhi - range(t).ulo < 16 && range(ts[0].0).uhi - range(ts[0].0).ulo > 16) => {
            let (x, k) = ts[0];
            return apply_table(x, &mut |v| f(v.wrapping_mul(k).wrapping_add(c) & mask(w)), budget);
        }
        K::Lin(c, ts) => {
            // several atoms: split on the first, substitute
            let rg = range(t);
            if rg.uhi - rg.ulo < 64 { return chain(t, rg, f); }
            let (x, k) = ts[0]; let rest = ts[1..].to_vec();
            let mut ok = true;
            let mut budget2 = budget;
            let r = apply_table(x, &mut |v| {
                if !ok { return undef(1); }
                let u = lin(c.wrapping_add(v.wrapping_mul(k)), rest.clone(), w);
                budget2 = budget2.saturating_sub(1);
                if budget2 == 0 { ok = false; return undef(1); }
                match apply_table(u, f, budget / 8 + 1) { Some(r) => r, None => { ok = false; undef(1) } }
            }, budget);
            return if ok { r } else { None };
        }
        K::Concat(ps) => {
            let nc: Vec<usize> = (0..ps.len()).filter(|i| cval(ps[*i]).is_none()).collect();
            let i = nc[0];
            let mut sh = 0; for q in 0..i { sh += width(ps[q]); }
            if nc.len() == 1 {
                let mut base = 0u128; let mut s = 0; for (q, p) in ps.iter().enumerate() { if q != i { base |= cval(*p).unwrap() << s; } s += width(*p); }
                return apply_table(ps[i], &mut |v| f(base | v << sh), budget);
            }
            let mut ok = true;
            let r = apply_table(ps[*nc.last().unwrap()], &mut |v| {
                if !ok { return undef(1); }
                let mut q: Vec<T> = ps.to_vec(); let li = *nc.last().unwrap(); q[li] = cst(v, width(ps[li]));
                match apply_table(concat(&q), f, budget / 4 + 1) { Some(r) => r, None => { ok = false; undef(1) } }
            }, budget);
            return if ok { r } else { None };
        }
        _ => {}
    }
    let rg = range(t);
    let nb = 128 - rg.uhi.leading_zeros() as u16;
    if (1usize << nb.min(40)) <= budget.max(2) * 2 {
        // mux tree over the bits
        let bits: Vec<T> = (0..nb).map(|i| extract(t, i, i)).collect();
        return mux(&bits, nb as usize, 0, rg.ulo, rg.uhi, f);
    }
    if rg.uhi - rg.ulo < budget as u128 { return chain(t, rg, f); }
    // small Ite
    if let K::Ite(c, a, b) = kind(t).clone() {
        let x = apply_table(a, f, budget / 2)?; let y = apply_table(b, f, budget / 2)?;
        return Some(ite(c, x, y));
    }
    None
}
fn chain(t: T, rg: Rng, f: &mut dyn FnMut(u128) -> T) -> Option<T> {
    let w = width(t);
    let mut r = f(rg.uhi);
    let mut v = rg.uhi;
    while v > rg.ulo { v -= 1; let x = f(v); r = ite(eq(t, cst(v, w)), x, r); }
    Some(r)
}
fn mux(bits: &[T], n: usize, base: u128, lo: u128, hi: u128, f: &mut dyn FnMut(u128) -> T) -> Option<T> {
    // values base .. base + 2^n - 1
    if n == 0 { return Some(f(base)); }
    let half = 1u128 << (n - 1);
    let l_ok = base <= hi && base + half - 1 >= lo;
    let h_ok = base + half <= hi && base + 2 * half - 1 >= lo;
    if l_ok && h_ok {
        let l = mux(bits, n - 1, base, lo, hi, f)?; let h = mux(bits, n - 1, base + half, lo, hi, f)?;
        Some(ite(bits[n - 1], h, l))
    } else if l_ok { mux(bits, n - 1, base, lo, hi, f) } else { mux(bits, n - 1, base + half, lo, hi, f) }
}

fn shift(a: T, b: T, which: u8) -> T {
    let w = width(a);
    if is_undef(a) || is_undef(b) { return undef(w); }
    let evalf = move |x: u128, s: u128| -> u128 {
        match which {
            0 => if s >= w as u128 { 0 } else { (x << s) & mask(w) },
            1 => if s >= w as u128 { 0 } else { x >> s },
            _ => { let v = tosigned(x, w); ((if s >= w as u128 { if v < 0 { -1 } else { 0 } } else { v >> s }) as u128) & mask(w) }
        }
    };
    let r = (|| {
        if let Some(s) = cval(b) {
            if s == 0 { return a; }
            if s >= w as u128 { if which < 2 { return cst(0, w); } return sext(extract(a, w - 1, w - 1), w); }
            let s = s as u16;
            return match which {
                0 => if matches!(kind(a), K::Lin(..)) { lin(0, vec![(a, 1u128 << s)], w) } else { shl_const(a, s) },
                1 => concat(&[extract(a, w - 1, s), cst(0, s)]),
                _ => sext(extract(a, w - 1, s), w),
            };
        }
        if cval(a) == Some(0) { return a; }
        // table: constant shifted by a small-domain amount, or anything shifted by a few-valued amount
        if cval(a).is_some() {
            if let Some(r) = apply_table(b, &mut |v| if v >= w as u128 && which < 2 { undef(w) } else { shift(a, cst(v, w), which) }, 64) { return r; }
        }
        if flat(b).is_some() || range(b).uhi - range(b).ulo < 64 {
            if let Some(r) = apply_table(b, &mut |v| if v >= w as u128 && which < 2 { undef(w) } else { shift(a, cst(v, w), which) }, 64) { return r; }
        }
        intern(match which { 0 => K::Shl(a, b), 1 => K::LShr(a, b), _ => K::AShr(a, b) }, w)
    })();
    // out-of-range amounts are poison in the IR; only compare when in range everywhere
    if let Some(sb) = sig(b) { if sb.iter().any(|x| *x >= w as u128) { return r; } }
    check2("shift", r, want2(a, b, &evalf))
}
pub fn shl(a: T, b: T) -> T { shift(a, b, 0) }
pub fn lshr(a: T, b: T) -> T { shift(a, b, 1) }
pub fn ashr(a: T, b: T) -> T { shift(a, b, 2) }

/// a = d * q + r with 0 <= r < d, by splitting the terms of a sum into multiples of d and a small rest.
fn split_div(a: T, d: u128) -> Option<(T, T)> {
    let w = width(a);
    if w > 64 || d == 0 || d >= 1 << 62 { return None; }
    let (c, ts) = to_lin(a);
    if ts.len() < 2 && !(ts.len() == 1 && (ts[0].1 != 1 || c != 0)) { return None; }
    let d = d as i128;
    let (mut qa, mut rb): (Vec<(T, u128)>, Vec<(T, u128)>) = (vec![], vec![]);
    let (mut alo, mut ahi, mut blo, mut bhi) = (0i128, 0i128, 0i128, 0i128);
    for (t, k) in ts {
        let k = tosigned(k, w); let r = range(t);
        if r.slo.abs().max(r.shi.abs()) >= 1 << 62 || k.abs() >= 1 << 62 { return None; }
        let (x, y) = ((r.slo * k).min(r.shi * k), (r.slo * k).max(r.shi * k));
        let mut put_a = |t: T, k: i128| { qa.push((t, k as u128)); alo += x; ahi += y; };
        if k % d == 0 { put_a(t, k / d); continue; }
        if is_ctree(t) {
            let mut ok = true;
            let mut m = FxMap::default();
            let q = map_ctree(t, &mut |l| { let v = tosigned(cval(l).unwrap_or(0), w) * k; if v % d != 0 { ok = false; } cst((v / d) as u128, w) }, &mut m);
            if ok { put_a(q, 1); continue; }
        }
        rb.push((t, k as u128)); blo += x; bhi += y;
    }
    if qa.is_empty() { return None; }
    let c = tosigned(c, w);
    // the sum must be exact
    if alo + blo + c < 0 || ahi + bhi + c > (mask(w) >> 1) as i128 { return None; }
    let qc = (blo + c).div_euclid(d);
    if bhi + c - d * qc >= d { return None; }
    Some((lin(qc as u128, qa, w), lin((c - d * qc) as u128, rb, w)))
}
pub fn udiv(a: T, b: T) -> T {
    let w = width(a);
    let k = K::UDiv(a, b);
    let r = (|| {
        if is_undef(a) || is_undef(b) { return undef(w); }
        if let Some(d) = cval(b) {
            if d == 1 { return a; }
            if let Some(x) = cval(a) { if d != 0 { return cst(x / d, w); } }
            if d.is_power_of_two() { return lshr(a, cst(d.trailing_zeros() as u128, w)); }
            if d > 0 && range(a).uhi < d { return cst(0, w); }
            if is_ctree(a) { let mut m = FxMap::default(); return map_ctree(a, &mut |x| udiv(x, b), &mut m); }
            if let Some((q, _)) = split_div(a, d) { return q; }
            if let Some(q) = flat(a) { return udiv(q, b); }
            // narrow
            let nb = (128 - (range(a).uhi | d).leading_zeros() as u16).max(1);
            if nb < w { return zext(udiv(trunc(a, nb), trunc(b, nb)), w); }
        }
        intern(k.clone(), w)
    })();
    check2("udiv", r, want2(a, b, &|x, d| if d == 0 { mask(w) } else { x / d }))
}
pub fn urem(a: T, b: T) -> T {
    let w = width(a);
    let r = (|| {
        if is_undef(a) || is_undef(b) { return undef(w); }
        if let Some(d) = cval(b) {
            if d == 1 { return cst(0, w); }
            if let Some(x) = cval(a) { if d != 0 { return cst(x % d, w); } }
            if d.is_power_of_two() { return and(a, cst(d - 1, w)); }
            if d > 0 && range(a).uhi < d { return a; }
            if is_ctree(a) { let mut m = FxMap::default(); return map_ctree(a, &mut |x| urem(x, b), &mut m); }
            if let Some((_, r)) = split_div(a, d) { return r; }
            if let Some(q) = flat(a) { return urem(q, b); }
            let nb = (128 - (range(a).uhi | d).leading_zeros() as u16).max(1);
            if nb < w { return zext(urem(trunc(a, nb), trunc(b, nb)), w); }
        }
        intern(K::URem(a, b), w)
    })();
    check2("urem", r, want2(a, b, &|x, d| if d == 0 { x } else { x % d }))
}
pub fn sdiv(a: T, b: T) -> T {
    let w = width(a);
    let r = (|| {
        if is_undef(a) || is_undef(b) { return undef(w); }
        if let Some(d) = cval(b) {
            if d == 1 { return a; }
            if range(a).slo >= 0 && tosigned(d, w) > 0 { return udiv(a, b); }
            if let Some(x) = cval(a) { if d != 0 { return cst(tosigned(x, w).wrapping_div(tosigned(d, w)) as u128, w); } }
            if is_ctree(a) && d != 0 { let mut m = FxMap::default(); return map_ctree(a, &mut |x| sdiv(x, b), &mut m); }
            if let Some(q) = flat(a) { return sdiv(q, b); }
        }
        intern(K::SDiv(a, b), w)
    })();
    check2("sdiv", r, want2(a, b, &|x, d| { let k = K::SDiv(0, 1); let mut i = 0; let _ = &mut i; eval_k(&k, w, &mut |q| if q == 0 { x } else { d }) }))
}
pub fn srem(a: T, b: T) -> T {
    let w = width(a);
    let r = (|| {
        if is_undef(a) || is_undef(b) { return undef(w); }
        if let Some(d) = cval(b) {
            if d == 1 { return cst(0, w); }
            if range(a).slo >= 0 && tosigned(d, w) > 0 { return urem(a, b); }
            if let Some(x) = cval(a) { if d != 0 { return cst(tosigned(x, w).wrapping_rem(tosigned(d, w)) as u128, w); } }
            if is_ctree(a) && d != 0 { let mut m = FxMap::default(); return map_ctree(a, &mut |x| srem(x, b), &mut m); }
            if let Some(q) = flat(a) { return srem(q, b); }
        }
        intern(K::SRem(a, b), w)
    })();
    check2("srem", r, want2(a, b, &|x, d| { let k = K::SRem(0, 1); eval_k(&k, w, &mut |q| if q == 0 { x } else { d }) }))
}

// ---------- comparisons ----------
pub fn eq(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b { return TRUE; }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    if let Some(&r) = st().memo_bin.get(&(2, a, b)) { return r; }
    let r = eq_(a, b, w);
    check2("eq", r, want2(a, b, &|x, y| (x == y) as u128));
    st().memo_bin.insert((2, a, b), r);
    r
}
fn eq_(a: T, b: T, w: u16) -> T {
    if w == 1 { return not(xor(a, b)); }
    if is_undef(a) || is_undef(b) { return FALSE; }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return boolc(x == y); }
    let (ra, rb) = (range(a), range(b));
    if ra.uhi < rb.ulo || rb.uhi < ra.ulo || ra.shi < rb.slo || rb.shi < ra.slo { return FALSE; }
    // constant on the right
    let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
    let mut bs = vec![];
    bounds(a, &mut bs); bounds(b, &mut bs);
    if !bs.is_empty() {
        let bs = norm_bounds(bs, w);
        let (x, y) = (split_at(a, &bs), split_at(b, &bs));
        let mut r = TRUE;
        for i in 0..x.len() { r = and(r, eq(x[i], y[i])); if r == FALSE { return r; } }
        return r;
    }
    if is_undef(a) || is_undef(b) { return FALSE; }
    if let Some(r) = push_ctree2(a, b, &|x, y| eq(x, y)) { return r; }
    if let (Some(x), Some(y)) = (flat(a), flat(b)) { if x != a || y != b { return eq(x, y); } }
    if let K::Ite(c, x, y) = kind(a).clone() {
        if x == b { return or(c, eq(y, b)); }
        if y == b { return or(not(c), eq(x, b)); }
        if cval(b).is_some() { return ite(c, eq(x, b), eq(y, b)); }
    }
    if let K::Ite(c, x, y) = kind(b).clone() {
        if x == a { return or(c, eq(y, a)); }
        if y == a { return or(not(c), eq(x, a)); }
    }
    if let (K::SExt(x), Some(c)) = (kind(a).clone(), cval(b)) {
        let xw = width(x); let n = cst(c, xw);
        if cval(sext(n, w)) == Some(c) { return eq(x, n); }
        return FALSE;
    }
    if let (K::SExt(x), K::SExt(y)) = (kind(a), kind(b)) { if width(*x) == width(*y) { return eq(*x, *y); } }
    if let (K::Not(x), Some(c)) = (kind(a).clone(), cval(b)) { return eq(x, cst(!c, w)); }
    if matches!(kind(a), K::Lin(..)) || matches!(kind(b), K::Lin(..)) {
        let d = lin(0, vec![(a, 1), (b, mask(w))], w);
        let rd = range(d);
        if rd.ulo > 0 || rd.slo > 0 || rd.shi < 0 { return FALSE; }
        if let Some(c) = cval(d) { return boolc(c == 0); }
        let (c, ts) = to_lin(d);
        if ts.len() == 1 {
            let (t, k) = ts[0];
            let rhs = c.wrapping_neg() & mask(w);
            if k & 1 == 1 { let mut inv = 1u128; for _ in 0..8 { inv = inv.wrapping_mul(2u128.wrapping_sub(k.wrapping_mul(inv))); } return eq(t, cst(rhs.wrapping_mul(inv), w)); }
            let z = k.trailing_zeros() as u16;
            if rhs & mask(z) != 0 { return FALSE; }
            // k*t == rhs mod 2^w  <=>  (k>>z)*t == rhs>>z mod 2^(w-z)
            return eq(lin(0, vec![(extract(t, w - z - 1, 0), (k >> z) & mask(w - z))], w - z), cst(rhs >> z, w - z));
        }
        if ts.len() == 2 && c == 0 {
            let m = mask(w);
            if ts[0].1 == 1 && ts[1].1 == m { if ts[0].0 != a && ts[0].0 != b { return eq(ts[0].0, ts[1].0); } let (p, q) = (ts[0].0.min(ts[1].0), ts[0].0.max(ts[1].0)); return intern(K::Eq(p, q), 1); }
            if ts[0].1 == m && ts[1].1 == 1 { if ts[0].0 != a && ts[0].0 != b { return eq(ts[0].0, ts[1].0); } let (p, q) = (ts[0].0.min(ts[1].0), ts[0].0.max(ts[1].0)); return intern(K::Eq(p, q), 1); }
        }
        // canonical orientation
        let nd = lin(0, vec![(d, mask(w))], w);
        let d = if nd < d { nd } else { d };
        if matches!(kind(d), K::Lin(..)) { return intern(K::Eq(d, cst(0, w)), 1); }
        return eq(d, cst(0, w));
    }
    if cval(b).is_some() { return intern(K::Eq(a, b), 1); }
    intern(K::Eq(a.min(b), a.max(b)), 1)
}
pub fn ult(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return FALSE; }
    if let Some(&r) = st().memo_bin.get(&(3, a, b)) { return r; }
    let r = ult_(a, b, w);
    check2("ult", r, want2(a, b, &|x, y| (x < y) as u128));
    st().memo_bin.insert((3, a, b), r);
    r
}
fn ult_(a: T, b: T, w: u16) -> T {
    if is_undef(a) || is_undef(b) { return FALSE; }
    let (ra, rb) = (range(a), range(b));
    if ra.uhi < rb.ulo { return TRUE; }
    if ra.ulo >= rb.uhi { return FALSE; }
    if w == 1 { return and(not(a), b); }
    if w >= 2 && w <= 64 && (matches!(kind(a), K::Lin(..)) || matches!(kind(b), K::Lin(..))) && ra.uhi < 1 << (w - 2) && rb.uhi < 1 << (w - 2) {
        let rd = range(lin(0, vec![(a, 1), (b, mask(w))], w));
        if rd.slo >= 0 { return FALSE; }
        if rd.shi < 0 { return TRUE; }
    }
    if let Some(c) = cval(b) { if c == 1 { return eq(a, cst(0, w)); } if c == ra.uhi { return not(eq(a, b)); } if c == ra.ulo + 1 { return eq(a, cst(ra.ulo, w)); } }
    if let Some(c) = cval(a) { if c == 0 { return not(eq(b, cst(0, w))); } if c == rb.ulo { return not(eq(a, b)); } if c + 1 == rb.uhi { return eq(b, cst(rb.uhi, w)); } }
    if let Some(r) = push_ctree2(a, b, &|x, y| ult(x, y)) { return r; }
    if let (Some(x), Some(y)) = (flat(a), flat(b)) { if x != a || y != b { return ult(x, y); } }
    // common high parts / zero high parts
    let mut bs = vec![];
    bounds(a, &mut bs); bounds(b, &mut bs);
    if !bs.is_empty() {
        let bs = norm_bounds(bs, w);
        let (mut x, mut y) = (split_at(a, &bs), split_at(b, &bs));
        let n = x.len();
        while !x.is_empty() && x.last() == y.last() { x.pop(); y.pop(); }
        if x.is_empty() { return FALSE; }
        if x.len() < n { return ult(concat(&x), concat(&y)); }
        // equal low parts do not matter to <
        let mut i = 0; while i < x.len() && x[i] == y[i] { i += 1; }
        if i > 0 { return ult(concat(&x[i..]), concat(&y[i..])); }
        // low part decided by ranges: (h1,l1) < (h2,l2)
        if x.len() > 1 {
            let (l1, l2) = (range(x[0]), range(y[0]));
            if l1.uhi < l2.ulo { return not(ult(concat(&y[1..]), concat(&x[1..]))); } // h1 <= h2
            if l1.ulo >= l2.uhi { return ult(concat(&x[1..]), concat(&y[1..])); }
        }
    }
    // zext-narrow by range
    let nb = (128 - (ra.uhi | rb.uhi).leading_zeros() as u16).max(1);
    if nb < w && (matches!(kind(a), K::Concat(_) | K::Const(_)) && matches!(kind(b), K::Concat(_) | K::Const(_))) { return ult(trunc(a, nb), trunc(b, nb)); }
    if let K::Ite(c, x, y) = kind(a).clone() { if cval(b).is_some() && (cval(x).is_some() || cval(y).is_some()) { return ite(c, ult(x, b), ult(y, b)); } }
    if let K::Ite(c, x, y) = kind(b).clone() { if cval(a).is_some() && (cval(x).is_some() || cval(y).is_some()) { return ite(c, ult(a, x), ult(a, y)); } }
    intern(K::Ult(a, b), 1)
}
pub fn slt(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return FALSE; }
    if let Some(&r) = st().memo_bin.get(&(4, a, b)) { return r; }
    let r = slt_(a, b, w);
    check2("slt", r, want2(a, b, &|x, y| (tosigned(x, w) < tosigned(y, w)) as u128));
    st().memo_bin.insert((4, a, b), r);
    r
}
fn slt_(a: T, b: T, w: u16) -> T {
    if is_undef(a) || is_undef(b) { return FALSE; }
    let (ra, rb) = (range(a), range(b));
    if ra.shi < rb.slo { return TRUE; }
    if ra.slo >= rb.shi { return FALSE; }
    if w == 1 { return and(a, not(b)); }
    if ra.slo >= 0 && rb.slo >= 0 && !matches!(kind(a), K::Lin(..)) && !matches!(kind(b), K::Lin(..)) { return ult(a, b); }
    if let Some(r) = push_ctree2(a, b, &|x, y| slt(x, y)) { return r; }
    if let (Some(x), Some(y)) = (flat(a), flat(b)) { if x != a || y != b { return slt(x, y); } }
    if let (K::SExt(x), K::SExt(y)) = (kind(a), kind(b)) { if width(*x) == width(*y) { return slt(*x, *y); } }
    if let (K::SExt(x), Some(c)) = (kind(a).clone(), cval(b)) { let xw = width(x); let n = cst(c, xw); if cval(sext(n, w)) == Some(c) { return slt(x, n); } }
    if let (Some(c), K::SExt(y)) = (cval(a), kind(b).clone()) { let xw = width(y); let n = cst(c, xw); if cval(sext(n, w)) == Some(c) { return slt(n, y); } }
    if let K::Ite(c, x, y) = kind(a).clone() { if cval(b).is_some() && (cval(x).is_some() || cval(y).is_some()) { return ite(c, slt(x, b), slt(y, b)); } }
    if let K::Ite(c, x, y) = kind(b).clone() { if cval(a).is_some() && (cval(x).is_some() || cval(y).is_some()) { return ite(c, slt(a, x), slt(a, y)); } }
    // integer difference decides: a < b  <=>  a - b < 0 when no wrap is possible
    if w <= 64 && (matches!(kind(a), K::Lin(..)) || matches!(kind(b), K::Lin(..)) || matches!(kind(a), K::Ite(..)) || matches!(kind(b), K::Ite(..))) {
        let f = full(w);
        if ra.slo - rb.shi >= f.slo && ra.shi - rb.slo <= f.shi {
            let d = lin(0, vec![(a, 1), (b, mask(w))], w);
            let rd = range(d);
            if rd.shi < 0 { return TRUE; }
            if rd.slo >= 0 { return FALSE; }
            // canonical: variable part on one side, constant on the other when it simplifies
            let (c, ts) = to_lin(d);
            let cs = tosigned(c, w);
            if ts.len() == 1 && ts[0].1 == 1 && cs != f.slo && (cval(b).is_none() || c != 0) {
                // t + c < 0  <=> t < -c   (no wrap on d)
                let t = ts[0].0; let n = cst((-cs) as u128, w);
                if !(t == a && n == b) && range(t).slo + cs >= f.slo && range(t).shi + cs <= f.shi { return slt(t, n); }
            }
            if ts.len() == 1 && ts[0].1 == mask(w) && cs != f.slo {
                let t = ts[0].0; let n = c; // -t + c < 0 <=> c < t
                if !(t == b && cval(a) == Some(n)) && cs - range(t).shi >= f.slo && cs - range(t).slo <= f.shi { return slt(cst(n, w), t); }
            }
            let no_ite = !matches!(kind(d), K::Ite(..));
            if no_ite && !ts.is_empty() && ts.len() <= 64 {
                // canonical form: first coefficient positive
                let z = cst(0, w);
                let nd = lin(0, vec![(d, mask(w))], w);
                if d < nd { return intern(K::Slt(d, z), 1); }
                return intern(K::Slt(z, nd), 1);
            }
            if let K::Ite(c, x, y) = kind(d).clone() { return ite(c, slt(x, cst(0, w)), slt(y, cst(0, w))); }
        }
    }
    intern(K::Slt(a, b), 1)
}

// ---------- floating point ----------
pub fn fop(op: FK, args: &[T], w: u16) -> T {
    let cs: Vec<Option<u128>> = args.iter().map(|x| cval(*x)).collect();
    let aw: Vec<u16> = args.iter().map(|x| width(*x)).collect();
    if cs.iter().all(|x| x.is_some()) { let v: Vec<u128> = cs.iter().map(|x| x.unwrap()).collect(); return cst(eval_f(op, &v, &aw, w), w); }
    if args.iter().any(|x| is_undef(*x)) { return undef(w); }
    // constant-leaf trees with one operand
    if args.len() == 1 && is_ctree(args[0]) { let mut m = FxMap::default(); return map_ctree(args[0], &mut |x| fop(op, &[x], w), &mut m); }
    // exact integers in doubles
    if let Some(r) = fop_int(op, args, w) {
        let r2 = check_f(op, args, &aw, w, r);
        return r2;
    }
    if matches!(op, FK::Olt | FK::Ole | FK::Oeq | FK::Uno) { if let Some(b) = fcmp(op, args[0], args[1]) { return check_f(op, args, &aw, w, if b { TRUE } else { FALSE }); } }
    intern(K::F(op, args.to_vec().into_boxed_slice()), w)
}
fn check_f(op: FK, args: &[T], aw: &[u16], w: u16, r: T) -> T {
    let sg: Vec<_> = args.iter().map(|x| sig(*x)).collect();
    if sg.iter().all(|x| x.is_some()) {
        let mut o = [0; NS];
        for i in 0..NS { let v: Vec<u128> = sg.iter().map(|x| x.unwrap()[i]).collect(); o[i] = eval_f(op, &v, aw, w); }
        return check2("fop", r, Some(o));
    }
    r
}
/// If the double t is known to be the exact value of a (signed, 64-bit) integer of magnitude
/// below 2^52, that integer.
pub fn f_as_int(t: T) -> Option<T> {
    if let Some(c) = cval(t) {
        let x = bf(c);
        if x == x.trunc() && x.abs() < 4503599627370496.0 && !(x == 0.0 && x.is_sign_negative()) { return Some(cst(x as i64 as u128, 64)); }
        return None;
    }
    if let K::F(FK::SToF, a) = kind(t) {
        let x = sext(a[0], 64); let r = range(x);
        if r.slo > -(1 << 52) && r.shi < (1 << 52) { return Some(x); }
    }
    if let K::Ite(c, a, b) = kind(t).clone() { let x = f_as_int(a)?; let y = f_as_int(b)?; return Some(ite(c, x, y)); }
    None
}
fn int_to_f(i: T) -> T { fop(FK::SToF, &[i], 64) }
fn fits(i: T) -> bool { let r = range(i); r.slo > -(1 << 52) && r.shi < (1 << 52) }
fn fop_int(op: FK, a: &[T], w: u16) -> Option<T> {
    match op {
        FK::Add | FK::Sub => {
            let (x, y) = (f_as_int(a[0])?, f_as_int(a[1])?);
            let r = if op == FK::Add { bv_add(x, y) } else { bv_sub(x, y) };
            if fits(r) { Some(int_to_f(r)) } else { None }
        }
        FK::Mul => {
            let (x, y) = (f_as_int(a[0])?, f_as_int(a[1])?);
            // exclude -0 results: 0 * negative.  Only allow a positive constant factor.
            let pos = |t: T| cval(t).map(|c| tosigned(c, 64) > 0).unwrap_or(false);
            if !pos(x) && !pos(y) { return None; }
            let r = mul(x, y);
            if fits(r) { Some(int_to_f(r)) } else { None }
        }
        FK::FToSSat => {
            // round(int / d) with odd constant d: never a tie, so the exact quotient rounds to nearest
            if let K::F(FK::Round, r) = kind(a[0]) {
                if let Some(i) = f_as_int(r[0]) { let f = full(w); let rg = range(i); if rg.slo >= f.slo && rg.shi <= f.shi { return Some(trunc(i, w)); } return None; }
                if let K::F(FK::Div, q) = kind(r[0]) {
                    let n = f_as_int(q[0])?; let d = cval(f_as_int(q[1])?)?;
                    if d & 1 == 1 && d > 1 && d < 1000 {
                        let rg = range(n);
                        if rg.slo < -(1 << 40) || rg.shi > (1 << 40) { return None; }
                        let q = round_div(n, d);
                        let f = full(w); let rq = range(q);
                        if rq.slo < f.slo || rq.shi > f.shi { return None; }
                        return Some(trunc(q, w));
                    }
                }
                return None;
            }
            let i = f_as_int(a[0])?;
            let f = full(w); let rg = range(i);
            if rg.slo >= f.slo && rg.shi <= f.shi { Some(trunc(i, w)) } else { None }
        }
        FK::Round | FK::Trunc | FK::Floor | FK::Ceil | FK::Rne => { f_as_int(a[0])?; Some(a[0]) }
        FK::Olt => { let (x, y) = (f_as_int(a[0])?, f_as_int(a[1])?); Some(slt(x, y)) }
        FK::Ole => { let (x, y) = (f_as_int(a[0])?, f_as_int(a[1])?); Some(not(slt(y, x))) }
        FK::Oeq => { let (x, y) = (f_as_int(a[0])?, f_as_int(a[1])?); Some(eq(x, y)) }
        FK::Uno => { f_as_int(a[0])?; f_as_int(a[1])?; Some(FALSE) }
        _ => None,
    }
}
/// nearest integer to n/d for odd d (64-bit signed n, |n| < 2^40)
pub fn round_div(n: T, d: u128) -> T {
    let h = d / 2;
    // n = d*A + B with |B| <= h  =>  A
    let (c, ts) = to_lin(n);
    let cs = tosigned(c, 64); let ds = d as i128;
    let mut q: Vec<(T, u128)> = vec![]; let mut rem: Vec<(T, u128)> = vec![];
    for (t, k) in ts.iter() {
        let ks = tosigned(*k, 64);
        let mut a = ks.div_euclid(ds); let mut b = ks.rem_euclid(ds);
        if b > h as i128 { b -= ds; a += 1; }
        if a != 0 { q.push((*t, (a as u128) & mask(64))); }
        if b != 0 { rem.push((*t, (b as u128) & mask(64))); }
    }
    let mut ca = cs.div_euclid(ds); let mut cb = cs.rem_euclid(ds);
    if cb > h as i128 { cb -= ds; ca += 1; }
    let r = lin((cb as u128) & mask(64), rem, 64);
    let rr = range(r);
    let base = lin((ca as u128) & mask(64), q, 64);
    if rr.slo >= -(h as i128) && rr.shi <= h as i128 { return base; }
    // general: floor((r + h) / d) = udiv(r + h + d*M, d) - M
    let m = (-(rr.slo) / ds + 2).max(0) as u128;
    let num = lin((h + d * m) & mask(64), vec![(r, 1)], 64);
    let rn = range(num);
    if rn.slo < 0 { fatal("round_div range"); }
    let qd = if rn.uhi - rn.ulo < 4000 && is_small(num) {
        apply_table(num, &mut |v| cst(v / d, 64), 4096).unwrap_or_else(|| udiv(num, cst(d, 64)))
    } else { udiv(num, cst(d, 64)) };
    let r2 = lin(m.wrapping_neg() & mask(64), vec![(qd, 1), (base, 1)], 64);
    r2
}
fn is_small(t: T) -> bool { match kind(t) { K::Lin(_, ts) => ts.len() <= 1, _ => true } }

// ---------- ranges of doubles ----------
/// A finite double between lo and hi that is a multiple of 2^g.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FR { pub lo: f64, pub hi: f64, pub g: i32 }
pub fn down(x: f64) -> f64 { if x == 0.0 { 0.0 } else { x - (x.abs() * 4.5e-16 + 1e-300) } }
pub fn up(x: f64) -> f64 { if x == 0.0 { 0.0 } else { x + (x.abs() * 4.5e-16 + 1e-300) } }
/// exponent of the last bit a double uses
pub fn gran(x: f64) -> i32 { if x == 0.0 { return 1000; } let b = x.to_bits(); let e = ((b >> 52) & 2047) as i32; let f = b & ((1 << 52) - 1); if e == 0 { return -1074; } let m = f | 1 << 52; e - 1075 + m.trailing_zeros() as i32 }
fn pow2(x: f64) -> bool { x != 0.0 && x.is_normal() && x.to_bits() & ((1 << 52) - 1) == 0 }
/// the variable that holds the magnitude of a double, below its sign bit
fn leaf_var(parts: &[T]) -> Option<u32> {
    let mut w = 0u16; let mut v = None;
    for (n, x) in parts.iter().enumerate() { match kind(*x) { K::Var(i) if n == 0 => { v = Some(*i); } K::Const(0) if n > 0 => {} _ => return None } w += width(*x); }
    if w == 63 { v } else { None }
}
/// a double put together from a magnitude (a variable or another double) and a sign bit
pub fn real_concat(p: &[T]) -> Option<(Result<u32, T>, T)> {
    let s = *p.last()?;
    if width(s) != 1 {
        if let K::Const(c) = kind(s) {
            let neg = *c == 1u128 << (width(s) - 1);
            if *c != 0 && !neg { return None; }
            let mut w = 0u16; let mut v = None;
            for (n, x) in p.iter().enumerate() { match kind(*x) { K::Var(i) if n == 0 => v = Some(*i), K::Const(0) if n > 0 => {} _ if n > 0 && n + 1 == p.len() => {} _ => return None } w += width(*x); }
            if w == 64 { return v.map(|v| (Ok(v), if neg { TRUE } else { FALSE })); }
        }
        return None;
    }
    let q = &p[..p.len() - 1];
    if let Some(v) = leaf_var(q) { return Some((Ok(v), s)); }
    if q.len() == 1 { if let K::Extract(x, 62, 0) = kind(q[0]) { if width(*x) == 64 { return Some((Err(*x), s)); } } }
    None
}
pub fn var_frange(i: u32) -> Option<FR> {
    let v = &st().vars[i as usize];
    let (lo, hi) = match v.freal { Some(x) => x, None => { if v.hi >= 1 << 63 { return None; } (f64::from_bits(v.lo as u64), f64::from_bits(v.hi as u64)) } };
    if lo.is_finite() && hi.is_finite() { Some(FR { lo, hi, g: -1074 }) } else { None }
}
pub fn frange(t: T) -> Option<FR> {
    if width(t) != 64 { return None; }
    if let Some(r) = st().memo_fr.get(&t) { return *r; }
    let r = fcalc(t).map(|x| x.0);
    st().memo_fr.insert(t, r);
    r
}
/// values an integer can have, signed, with what is known of the double it came from
fn srange(t: T) -> (i128, i128) { let r = range(t); (r.slo, r.shi) }
/// the range of a double and whether the operation that made it is exact (no rounding)
pub fn fcalc(t: T) -> Option<(FR, bool)> {
    let lim = 1e280;
    let ok = |lo: f64, hi: f64, g: i32, e: bool| if lo >= -lim && hi <= lim { Some((FR { lo, hi, g }, e)) } else { None };
    match kind(t) {
        K::Const(c) => { let v = bf(*c); if v.is_finite() { ok(v, v, gran(v), true) } else { None } }
        K::Var(i) => { st().vars[*i as usize].freal?; var_frange(*i).map(|x| (x, true)) }
        K::Ite(_, a, b) => { if is_undef(*a) { return frange(*b).map(|x| (x, true)); } if is_undef(*b) { return frange(*a).map(|x| (x, true)); } let (a, b) = (frange(*a)?, frange(*b)?); ok(a.lo.min(b.lo), a.hi.max(b.hi), a.g.min(b.g), true) }
        K::Concat(p) => {
            let (x, s) = real_concat(p)?;
            let (l, h, g) = match x {
                Ok(i) => { let r = var_frange(i)?; if r.lo < 0.0 { return None; } (r.lo, r.hi, r.g) }
                Err(x) => { let r = frange(x)?; (if r.lo > 0.0 { r.lo } else if r.hi < 0.0 { -r.hi } else { 0.0 }, r.hi.max(-r.lo), r.g) }
            };
            match kind(s) { K::Const(0) => ok(l, h, g, true), K::Const(_) => ok(-h, -l, g, true), _ => ok(-h, h, g, true) }
        }
        K::F(op, a) => match op {
            FK::SToF | FK::UToF => {
                let (l, h) = if *op == FK::SToF { srange(a[0]) } else { let r = range(a[0]); (r.ulo as i128, r.uhi as i128) };
                let (lo, hi) = (l as f64, h as f64);
                if l > -(1 << 53) && h < 1 << 53 { ok(lo, hi, 0, true) } else { ok(down(lo), up(hi), 0, false) }
            }
            FK::Add | FK::Sub => {
                let (x, y) = (frange(a[0])?, frange(a[1])?);
                if *op == FK::Sub && int_part(a[1]) == Some(a[0]) { return ok(if x.lo >= 0.0 { 0.0 } else { -1.0 }, if x.hi <= 0.0 { 0.0 } else { 1.0 }, x.g, true); }
                let (yl, yh) = if *op == FK::Add { (y.lo, y.hi) } else { (-y.hi, -y.lo) };
                let (lo, hi, g) = (down(x.lo + yl), up(x.hi + yh), x.g.min(y.g));
                ok(lo, hi, g, g > -1000 && lo.abs().max(hi.abs()) < 2f64.powi((g + 53).min(1000)))
            }
            FK::Mul | FK::Div => {
                let (x, y) = (frange(a[0])?, frange(a[1])?);
                let mul = *op == FK::Mul;
                if !mul && y.lo <= 0.0 && y.hi >= 0.0 { return None; }
                let q = |p: f64, q: f64| if mul { p * q } else { p / q };
                let v = [q(x.lo, y.lo), q(x.lo, y.hi), q(x.hi, y.lo), q(x.hi, y.hi)];
                let mut lo = down(v.iter().cloned().fold(f64::INFINITY, f64::min));
                let hi = up(v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                if a[0] == a[1] { lo = if mul { 0.0 } else { 1.0 }; }
                if !(lo >= -lim && hi <= lim) { return None; }
                let c = |t: T| cval(t).map(bf).filter(|x| pow2(*x));
                if let Some(cv) = c(a[1]) { let g = x.g + gran(cv) * if mul { 1 } else { -1 }; if g > -1000 { return ok(lo, hi, g, true); } }
                else if let (Some(cv), true) = (c(a[0]), mul) { let g = y.g + gran(cv); if g > -1000 { return ok(lo, hi, g, true); } }
                ok(lo, hi, -1074, false)
            }
            FK::Rem => {
                // exact: the sign of the first, below the magnitude of the second
                let (x, y) = (frange(a[0])?, cval(a[1]).map(bf)?);
                if !(y > 0.0 && y.is_finite()) { return None; }
                ok(if x.lo >= 0.0 { 0.0 } else { x.lo.max(-y) }, if x.hi <= 0.0 { 0.0 } else { x.hi.min(y) }, x.g.min(gran(y)), true)
            }
            FK::Sqrt => { let x = frange(a[0])?; if x.lo < 0.0 { return None; } ok(down(x.lo.sqrt()).max(0.0), up(x.hi.sqrt()), -1074, false) }
            FK::Round | FK::Trunc | FK::Floor | FK::Ceil | FK::Rne => {
                let x = frange(a[0])?;
                let f = |v: f64| match op { FK::Round => v.round(), FK::Trunc => v.trunc(), FK::Floor => v.floor(), FK::Ceil => v.ceil(), _ => v.round_ties_even() };
                ok(f(x.lo), f(x.hi), 0, true)
            }
            _ => None,
        },
        _ => None,
    }
}
/// x, when t is x without its fraction
fn int_part(t: T) -> Option<T> {
    let K::F(op, a) = kind(t) else { return None };
    match op {
        FK::Trunc => Some(a[0]),
        FK::SToF => { let K::F(FK::FToSSat, b) = kind(a[0]) else { return None }; let r = frange(b[0])?; let w = width(a[0]); let f = full(w); if w <= 64 && r.lo > f.slo as f64 && r.hi < f.shi as f64 && r.lo.abs().max(r.hi.abs()) < 9e15 { Some(b[0]) } else { None } }
        _ => None,
    }
}
fn ftoi_rng(a: T, signed: bool, w: u16) -> Rng {
    let Some(r) = frange(a) else { return full(w) };
    let f = full(w);
    if signed { let (l, h) = ((r.lo as i128).max(f.slo), (r.hi as i128).min(f.shi)); if l <= h { rng_s(l, h, w) } else { f } }
    else { let (l, h) = ((r.lo as u128).min(f.uhi), (r.hi as u128).min(f.uhi)); rng_u(l, h, w) }
}
/// comparisons the ranges decide
fn fcmp(op: FK, a: T, b: T) -> Option<bool> {
    let (x, y) = (frange(a)?, frange(b)?);
    match op {
        FK::Olt => if x.hi < y.lo { Some(true) } else if x.lo >= y.hi { Some(false) } else { None },
        FK::Ole => if x.hi <= y.lo { Some(true) } else if x.lo > y.hi { Some(false) } else { None },
        FK::Oeq => if x.hi < y.lo || y.hi < x.lo { Some(false) } else { None },
        FK::Uno => Some(false),
        _ => None,
    }
}

// ---------- display / evaluation ----------
pub fn show(t: T, d: usize) -> String {
    let k = kind(t);
    let w = width(t);
    if d == 0 { return match k { K::Const(c) => format!("{}", c), _ => format!("t{}", t) }; }
    match k {
        K::Const(c) => format!("{}:{}", c, w),
        K::Var(i) => st().vars[*i as usize].name.clone(),
        K::Undef => "undef".into(),
        K::Lin(c, ts) => format!("({}{}):{}", tosigned(*c, w), ts.iter().map(|(t, k)| format!(" + {}*{}", tosigned(*k, w), show(*t, d - 1))).collect::<String>(), w),
        K::Concat(p) => format!("[{}]", p.iter().rev().map(|x| show(*x, d - 1)).collect::<Vec<_>>().join(" . ")),
        K::Extract(a, h, l) => format!("{}[{}:{}]", show(*a, d - 1), h, l),
        K::Ite(c, a, b) => format!("({} ? {} : {})", show(*c, d - 1), show(*a, d - 1), show(*b, d - 1)),
        _ => { let mut v = vec![]; children(k, &mut |x| v.push(show(x, d - 1))); let n = format!("{:?}", k); let n = n.split('(').next().unwrap().to_string(); format!("{}({})", n, v.join(", ")) }
    }
}

pub struct Evaluator<'a> { pub vals: &'a dyn Fn(u32) -> u128, memo: FxMap<T, u128> }
impl<'a> Evaluator<'a> {
    pub fn new(vals: &'a dyn Fn(u32) -> u128) -> Self { Evaluator { vals, memo: Default::default() } }
    pub fn eval(&mut self, root: T) -> u128 {
        let mut stack = vec![root];
        while let Some(&t) = stack.last() {
            if self.memo.contains_key(&t) { stack.pop(); continue; }
            let k = kind(t);
            let mut pend = vec![];
            children(k, &mut |x| if !self.memo.contains_key(&x) { pend.push(x) });
            if !pend.is_empty() { stack.extend(pend); continue; }
            let v = match k { K::Var(i) => (self.vals)(*i), K::Undef => 0, _ => { let m = &self.memo; eval_k(k, width(t), &mut |x| m[&x]) } };
            self.memo.insert(t, v);
            stack.pop();
        }
        self.memo[&root]
    }
}
