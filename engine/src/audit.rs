//! Every step of the symbolic execution is logged as a lemma about the terms before and after it, encoded again from
//! the instruction's own meaning and independently of the simplifier.  A bounded number of them, those that decided
//! something first, is handed to the solver, which has to prove them.
use crate::smt::*;
use crate::term::*;
use std::collections::HashSet;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Lemma {
    Op(&'static str, Vec<T>, T),
    Cast(&'static str, T, T),
    Ite(T, T, T, T),
    Under(Vec<T>, T, T),
    Merge(Vec<T>, Vec<T>, T, Vec<T>),
    Vc(Vec<T>, T, T),
    Table(T, Vec<(u64, T)>, T),
}
pub struct Log { pub on: bool, pub dec: Vec<Lemma>, pub oth: Vec<Lemma>, pub seen: u64, pub seen_dec: u64, pub cap: usize, pub rng: u64, hs: HashSet<u64> }
static mut LOG: Option<Log> = None;
pub fn init(cap: usize, seed: u64) { unsafe { LOG = Some(Log { on: cap > 0, dec: vec![], oth: vec![], seen: 0, seen_dec: 0, cap, rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1, hs: Default::default() }) } }
#[allow(static_mut_refs)]
pub fn log() -> &'static mut Log { unsafe { LOG.as_mut().unwrap() } }
fn next(l: &mut Log) -> u64 { l.rng ^= l.rng << 13; l.rng ^= l.rng >> 7; l.rng ^= l.rng << 17; l.rng }

pub fn add(m: Lemma, decides: bool) {
    let l = log();
    if !l.on { return; }
    { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); m.hash(&mut h); if l.hs.len() < 2_000_000 && !l.hs.insert(h.finish()) { return; } }
    // on decision diagrams each decision counts, and the other steps are sampled
    let cap = if st().diagrams && !decides { l.cap / 20 } else { l.cap };
    let r = next(l);
    let (n, v) = if decides { l.seen_dec += 1; (l.seen_dec, &mut l.dec) } else { l.seen += 1; (l.seen, &mut l.oth) };
    if v.len() < cap { v.push(m); } else { let k = (r % n) as usize; if k < cap { v[k] = m; } }
}
pub fn op(name: &'static str, args: &[T], r: T) -> T {
    if !log().on || args.iter().all(|a| cval(*a).is_some()) { return r; }
    add(Lemma::Op(name, args.to_vec(), r), cval(r).is_some());
    r
}
pub fn cast(name: &'static str, a: T, r: T) -> T { if log().on && cval(a).is_none() { add(Lemma::Cast(name, a, r), cval(r).is_some()); } r }
pub fn ite(c: T, a: T, b: T, r: T) -> T { if log().on && a != b && cval(c).is_none() { add(Lemma::Ite(c, a, b, r), cval(r).is_some()); } r }

impl Lemma {
    pub fn roots(&self) -> Vec<T> {
        match self {
            Lemma::Op(_, a, r) => { let mut v = a.clone(); v.push(*r); v }
            Lemma::Cast(_, a, r) => vec![*a, *r],
            Lemma::Ite(c, a, b, r) => vec![*c, *a, *b, *r],
            Lemma::Under(p, c, r) => { let mut v = p.clone(); v.push(*c); v.push(*r); v }
            Lemma::Merge(a, b, s, o) => { let mut v = a.clone(); v.extend(b); v.push(*s); v.extend(o); v }
            Lemma::Vc(p, v, c) => { let mut x = p.clone(); x.push(*v); x.push(*c); x }
            Lemma::Table(p, vs, r) => { let mut v = vec![*p, *r]; v.extend(vs.iter().map(|x| x.1)); v }
        }
    }
    /// a formula that is satisfiable exactly when the lemma is wrong; None when it has no direct encoding
    pub fn negation(&self) -> Option<String> {
        let bv = |t: T| Emit::bv(t);
        let conj = |v: &[T]| -> String { let mut s = String::from("(and true"); for x in v { s.push(' '); s.push_str(&Emit::nm(*x)); } s.push(')'); s };
        let c = |v: u128, w: u16| -> String { if w == 1 { format!("#b{}", v & 1) } else { format!("(_ bv{} {})", v, w) } };
        Some(match self {
            Lemma::Op(o, a, r) => {
                let w = width(a[0]); let (x, y) = (bv(a[0]), bv(a[1]));
                let ne = |s: String, g: Option<String>| { let d = format!("(distinct {} {})", s, bv(*r)); match g { Some(g) => format!("(and {} {})", g, d), None => d } };
                let pred = |s: String| format!("(distinct {} {})", s, Emit::nm(*r));
                let small = Some(format!("(bvult {} {})", y, c(w as u128, w)));
                let nz = Some(format!("(distinct {} {})", y, c(0, w)));
                let so = Some(format!("(and (distinct {} {}) (not (and (= {} {}) (= {} {}))))", y, c(0, w), x, c(1 << (w - 1), w), y, c(mask(w), w)));
                match *o {
                    "add" => ne(format!("(bvadd {} {})", x, y), None), "sub" => ne(format!("(bvsub {} {})", x, y), None), "mul" => ne(format!("(bvmul {} {})", x, y), None),
                    "udiv" => ne(format!("(bvudiv {} {})", x, y), nz), "urem" => ne(format!("(bvurem {} {})", x, y), nz), "sdiv" => ne(format!("(bvsdiv {} {})", x, y), so), "srem" => ne(format!("(bvsrem {} {})", x, y), so),
                    "shl" if w > 6 => ne(format!("(bvshl {} {})", x, y), small), "lshr" if w > 6 => ne(format!("(bvlshr {} {})", x, y), small), "ashr" if w > 6 => ne(format!("(bvashr {} {})", x, y), small),
                    "and" => ne(format!("(bvand {} {})", x, y), None), "or" => ne(format!("(bvor {} {})", x, y), None), "xor" => ne(format!("(bvxor {} {})", x, y), None),
                    "eq" => pred(format!("(= {} {})", x, y)), "ne" => pred(format!("(distinct {} {})", x, y)),
                    "ult" | "ule" | "ugt" | "uge" | "slt" | "sle" | "sgt" | "sge" => pred(format!("(bv{} {} {})", o, x, y)),
                    "sadd.o" | "uadd.o" | "ssub.o" | "usub.o" | "smul.o" | "umul.o" => {
                        let s = o.starts_with('s'); let n = if &o[1..4] == "mul" { w } else { 2 };
                        let e = if s { "sign_extend" } else { "zero_extend" };
                        let wide = format!("(bv{} ((_ {} {}) {}) ((_ {} {}) {}))", &o[1..4], e, n, x, e, n, y);
                        pred(format!("(distinct {} ((_ {} {}) ((_ extract {} 0) {})))", wide, e, n, w - 1, wide))
                    }
                    _ => return None,
                }
            }
            Lemma::Cast(o, a, r) => {
                let (x, w, v) = (bv(*a), width(*a), width(*r));
                if w == v { return Some(format!("(distinct {} {})", x, bv(*r))); }
                let s = match *o { "zext" => format!("((_ zero_extend {}) {})", v - w, x), "sext" => format!("((_ sign_extend {}) {})", v - w, x), "trunc" => format!("((_ extract {} 0) {})", v - 1, x), _ => return None };
                format!("(distinct {} {})", s, bv(*r))
            }
            Lemma::Ite(k, a, b, r) => format!("(distinct (ite {} {} {}) {})", Emit::nm(*k), bv(*a), bv(*b), bv(*r)),
            Lemma::Under(p, k, r) => format!("(and {} (distinct {} {}))", conj(p), Emit::nm(*k), Emit::nm(*r)),
            Lemma::Merge(a, b, s, o) => format!("(let ((la {}) (lb {}) (lo {})) (or (distinct (or la lb) lo) (and la (not {s})) (and lb {s})))", conj(a), conj(b), conj(o), s = Emit::nm(*s)),
            Lemma::Vc(p, v, k) => format!("(distinct (and {} {}) {})", conj(p), Emit::nm(*v), Emit::nm(*k)),
            Lemma::Table(p, vs, r) => { let mut s = String::from("(or false"); for (a, v) in vs { s.push_str(&format!(" (and (= {} {}) (distinct {} {}))", bv(*p), c(*a as u128, 64), bv(*v), bv(*r))); } s.push(')'); s }
        })
    }
}
pub struct Res { pub tried: u64, pub proved: u64, pub unknown: u64, pub skipped: u64, pub bad: Option<String> }
/// picks the lemmas, batches them and asks the solver
pub fn run(sv: &mut Solver, max_nodes: usize, batch: usize, secs: u64, total: u64) -> Res {
    let l = log();
    let mut res = Res { tried: 0, proved: 0, unknown: 0, skipped: 0, bad: None };
    let mut sel: Vec<Lemma> = l.dec.iter().cloned().collect();
    sel.extend(l.oth.iter().cloned());
    let t0 = std::time::Instant::now();
    let mut cur: Vec<(String, Vec<T>)> = vec![]; let mut nodes: HashSet<T> = HashSet::new();
    let mut q: Vec<Vec<(String, Vec<T>)>> = vec![];
    for m in sel {
        let neg = match m.negation() { Some(n) => n, None => { res.skipped += 1; continue; } };
        let roots = m.roots();
        let mut mine = HashSet::new();
        if !size(&roots, max_nodes, &mut mine) { res.skipped += 1; continue; }
        if cur.len() >= batch || (!cur.is_empty() && nodes.len() + mine.len() > max_nodes * 4) { q.push(std::mem::take(&mut cur)); nodes.clear(); }
        nodes.extend(mine);
        cur.push((neg, roots));
    }
    if !cur.is_empty() { q.push(cur); }
    for b in q {
        if t0.elapsed().as_secs() >= total { res.skipped += b.len() as u64; continue; }
        res.tried += b.len() as u64;
        let roots: Vec<T> = b.iter().flat_map(|x| x.1.iter().cloned()).collect();
        let f = format!("(or false {})", b.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("\n "));
        match sv.solve_text(&roots, &f, secs) {
            Ans::Unsat => res.proved += b.len() as u64,
            Ans::Unknown(_) => res.unknown += b.len() as u64,
            Ans::Sat(_) => {
                // which one
                for x in &b { if let Ans::Sat(_) = sv.solve_text(&x.1, &x.0, secs) { res.bad = Some(x.0.clone()); } }
                if res.bad.is_none() { res.bad = Some("one of a batch".into()); }
                return res;
            }
        }
    }
    res
}
/// number of nodes below the roots, false when above the limit or when a node has no plain bit-vector meaning
fn size(roots: &[T], max: usize, seen: &mut HashSet<T>) -> bool {
    let mut st: Vec<T> = roots.to_vec();
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue; }
        if seen.len() > max { return false; }
        match kind(t) { K::Undef | K::F(..) => return false, k => children(k, &mut |x| st.push(x)) }
    }
    true
}
