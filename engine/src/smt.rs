//! SMT-LIB2 emission and solver invocation.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Ans { Unsat, Sat(HashMap<u32, u128>), Unknown(String) }

#[derive(Default)]
pub struct Stats { pub queries: u64, pub secs: f64, pub sizes: Vec<usize>, pub by: std::collections::BTreeMap<String, u64>, pub unsat: u64, pub sat: u64, pub unknown: u64, pub trivial: u64, pub int_ok: u64 }

fn hexc(v: u128, w: u16) -> String { if w == 1 { (if v != 0 { "true" } else { "false" }).into() } else { format!("(_ bv{} {})", v, w) } }
fn sort(w: u16) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }

fn topo(roots: &[T]) -> Vec<T> {
    let mut seen = std::collections::HashSet::new(); let mut out = vec![];
    let mut stack: Vec<(T, bool)> = roots.iter().rev().map(|x| (*x, false)).collect();
    while let Some((t, done)) = stack.pop() {
        if done { out.push(t); continue; }
        if !seen.insert(t) { continue; }
        stack.push((t, true));
        children(kind(t), &mut |x| if !seen.contains(&x) { stack.push((x, false)) });
    }
    out
}
fn nbits_s(lo: i128, hi: i128) -> u16 {
    let mut n = 1u16;
    while n < 127 { let l = -(1i128 << (n - 1)); let h = (1i128 << (n - 1)) - 1; if lo >= l && hi <= h { break; } n += 1; }
    n
}

pub struct Emit { pub text: String, pub vars: Vec<u32>, pub fp: bool, undef: u32, loose: bool, extra: Vec<String> }
impl Emit {
    pub fn nm(t: T) -> String { match kind(t) { K::Const(c) => hexc(*c, width(t)), K::Var(i) => format!("v{}", i), _ => format!("n{}", t) } }
    /// term as a bit-vector even when its width is 1
    pub fn bv(t: T) -> String { if width(t) == 1 { match kind(t) { K::Const(c) => format!("#b{}", c & 1), _ => format!("(ite {} #b1 #b0)", Self::nm(t)) } } else { Self::nm(t) } }
    /// term truncated to n bits, as a bit-vector
    fn lowbits(t: T, n: u16) -> String { let w = width(t); if n >= w { Self::bv(t) } else { match kind(t) { K::Const(c) => { if n == 1 { format!("#b{}", c & 1) } else { hexc(c & mask(n), n) } } _ => format!("((_ extract {} 0) {})", n - 1, Self::nm(t)) } } }
    fn fpv(t: T) -> String {
        match kind(t) { K::F(op, _) if matches!(op, FK::Add | FK::Sub | FK::Mul | FK::Div | FK::Sqrt | FK::Round | FK::SToF | FK::UToF | FK::Trunc | FK::Floor | FK::Ceil | FK::Rne) => format!("f{}", t), _ => format!("((_ to_fp 11 53) {})", Self::nm(t)) }
    }
    fn from_bv1(w: u16, s: String) -> String { if w == 1 { format!("(= {} #b1)", s) } else { s } }
    fn def(&mut self, t: T) {
        let w = width(t); let k = kind(t).clone();
        let n = Self::nm;
        let body = match &k {
            K::Const(_) => return,
            K::Var(i) => {
                self.vars.push(*i);
                let v = &st().vars[*i as usize];
                let _ = writeln!(self.text, "(declare-const v{} {})", i, sort(w));
                if w > 1 && v.lo > 0 { self.extra.push(format!("(assert (bvule {} v{}))", hexc(v.lo, w), i)); }
                if w > 1 && v.hi < mask(w) { self.extra.push(format!("(assert (bvule v{} {}))", i, hexc(v.hi, w))); }
                if let Some((l, h)) = v.freal { self.fp = true; let c = |v: f64| format!("((_ to_fp 11 53) (_ bv{} 64))", v.to_bits()); self.extra.push(format!("(assert (and (fp.leq {} ((_ to_fp 11 53) v{})) (fp.leq ((_ to_fp 11 53) v{}) {})))", c(l), i, i, c(h))); }
                if w == 1 && v.lo == v.hi { self.extra.push(format!("(assert (= v{} {}))", i, hexc(v.lo, 1))); }
                return;
            }
            K::Undef => { self.undef += 1; let _ = writeln!(self.text, "(declare-const n{} {})", t, sort(w)); return; }
            K::Not(a) => if w == 1 { format!("(not {})", n(*a)) } else { format!("(bvnot {})", n(*a)) },
            K::And(a, b) => format!("({} {} {})", if w == 1 { "and" } else { "bvand" }, n(*a), n(*b)),
            K::Or(a, b) => format!("({} {} {})", if w == 1 { "or" } else { "bvor" }, n(*a), n(*b)),
            K::Xor(a, b) => format!("({} {} {})", if w == 1 { "xor" } else { "bvxor" }, n(*a), n(*b)),
            K::Lin(c, ts) => {
                let r = range(t);
                let ns = nbits_s(r.slo, r.shi);
                let nu = (128 - r.uhi.leading_zeros() as u16).max(1);
                let (m, signed) = if nu < w && nu <= ns { (nu, false) } else if ns < w { (ns, true) } else { (w, false) };
                let mut parts = vec![];
                let cc = c & mask(m);
                for (x, q) in ts.iter() {
                    let q = q & mask(m);
                    if q == 0 { continue; }
                    let lb = Self::lowbits(*x, m);
                    if q == 1 { parts.push(lb) }
                    else if q == mask(m) { parts.push(format!("(bvneg {})", lb)) }
                    else if q.is_power_of_two() { parts.push(format!("(bvshl {} {})", lb, hexc(q.trailing_zeros() as u128, m))) }
                    else { parts.push(format!("(bvmul {} {})", lb, hexc(q, m))) }
                }
                if cc != 0 || parts.is_empty() { parts.push(if m == 1 { format!("#b{}", cc) } else { hexc(cc, m) }); }
                let mut s = parts[0].clone();
                for p in &parts[1..] { s = format!("(bvadd {} {})", s, p); }
                if m < w { s = format!("((_ {} {}) {})", if signed { "sign_extend" } else { "zero_extend" }, w - m, s); }
                Self::from_bv1(w, s)
            }
            K::Mul(a, b) => Self::from_bv1(w, format!("(bvmul {} {})", Self::bv(*a), Self::bv(*b))),
            K::UDiv(a, b) | K::URem(a, b) => {
                let op = if matches!(k, K::UDiv(..)) { "bvudiv" } else { "bvurem" };
                let (ra, rb) = (range(*a), range(*b));
                let m = (128 - ra.uhi.max(rb.uhi).leading_zeros() as u16).max(2);
                if m < w && rb.ulo > 0 { format!("((_ zero_extend {}) ({} {} {}))", w - m, op, Self::lowbits(*a, m), Self::lowbits(*b, m)) }
                else { Self::from_bv1(w, format!("({} {} {})", op, Self::bv(*a), Self::bv(*b))) }
            }
            K::SDiv(a, b) => Self::from_bv1(w, format!("(bvsdiv {} {})", Self::bv(*a), Self::bv(*b))),
            K::SRem(a, b) => Self::from_bv1(w, format!("(bvsrem {} {})", Self::bv(*a), Self::bv(*b))),
            K::Shl(a, b) => Self::from_bv1(w, format!("(bvshl {} {})", Self::bv(*a), Self::bv(*b))),
            K::LShr(a, b) => Self::from_bv1(w, format!("(bvlshr {} {})", Self::bv(*a), Self::bv(*b))),
            K::AShr(a, b) => Self::from_bv1(w, format!("(bvashr {} {})", Self::bv(*a), Self::bv(*b))),
            K::Eq(a, b) => format!("(= {} {})", n(*a), n(*b)),
            K::Ult(a, b) => {
                let (ra, rb) = (range(*a), range(*b));
                let m = (128 - ra.uhi.max(rb.uhi).leading_zeros() as u16).max(1);
                if m < width(*a) { format!("(bvult {} {})", Self::lowbits(*a, m), Self::lowbits(*b, m)) } else { format!("(bvult {} {})", Self::bv(*a), Self::bv(*b)) }
            }
            K::Slt(a, b) => {
                let (ra, rb) = (range(*a), range(*b));
                let m = nbits_s(ra.slo.min(rb.slo), ra.shi.max(rb.shi));
                if m < width(*a) { format!("(bvslt {} {})", Self::lowbits(*a, m), Self::lowbits(*b, m)) } else { format!("(bvslt {} {})", Self::bv(*a), Self::bv(*b)) }
            }
            K::Ite(c, a, b) => format!("(ite {} {} {})", n(*c), n(*a), n(*b)),
            K::Concat(p) => { let v: Vec<String> = p.iter().rev().map(|x| Self::bv(*x)).collect(); let mut s = v[0].clone(); for x in &v[1..] { s = format!("(concat {} {})", s, x); } s }
            K::Extract(a, h, l) => Self::from_bv1(w, format!("((_ extract {} {}) {})", h, l, Self::bv(*a))),
            K::SExt(a) => format!("((_ sign_extend {}) {})", w - width(*a), Self::bv(*a)),
            K::F(op, a) => {
                self.fp = true;
                let f = Self::fpv;
                let fb = match op {
                    // no such operation in SMT-LIB: any value
                    FK::Rem => { self.undef += 1; self.loose = true; let _ = writeln!(self.text, "(declare-const n{} (_ BitVec 64))", t); return; }
                    FK::Olt => { let s = format!("(fp.lt {} {})", f(a[0]), f(a[1])); let _ = writeln!(self.text, "(define-fun n{} () Bool {})", t, s); return; }
                    FK::Ole => { let s = format!("(fp.leq {} {})", f(a[0]), f(a[1])); let _ = writeln!(self.text, "(define-fun n{} () Bool {})", t, s); return; }
                    FK::Oeq => { let s = format!("(fp.eq {} {})", f(a[0]), f(a[1])); let _ = writeln!(self.text, "(define-fun n{} () Bool {})", t, s); return; }
                    FK::Uno => { let s = format!("(or (fp.isNaN {}) (fp.isNaN {}))", f(a[0]), f(a[1])); let _ = writeln!(self.text, "(define-fun n{} () Bool {})", t, s); return; }
                    FK::FToSSat | FK::FToUSat => {
                        let s = *op == FK::FToSSat;
                        let x = f(a[0]);
                        let (lo, hi, lov, hiv) = if s { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w - 1)) } else { (0.0, 2f64.powi(w as i32), 0, mask(w)) };
                        let c = |v: f64| format!("((_ to_fp 11 53) (_ bv{} 64))", v.to_bits());
                        let below = if s { format!("(fp.lt {} {})", x, c(lo)) } else { format!("(fp.leq {} {})", x, c(-1.0)) };
                        let conv = format!("((_ {} {}) RTZ {})", if s { "fp.to_sbv" } else { "fp.to_ubv" }, w, x);
                        let sx = format!("(ite (fp.isNaN {x}) {z} (ite {below} {l} (ite (fp.geq {x} {h}) {hv} {conv})))", z = hexc(0, w), l = hexc(lov, w), h = c(hi), hv = hexc(hiv, w));
                        let _ = writeln!(self.text, "(define-fun n{} () {} {})", t, sort(w), sx); return;
                    }
                    FK::Add => format!("(fp.add RNE {} {})", f(a[0]), f(a[1])), FK::Sub => format!("(fp.sub RNE {} {})", f(a[0]), f(a[1])),
                    FK::Mul => format!("(fp.mul RNE {} {})", f(a[0]), f(a[1])), FK::Div => format!("(fp.div RNE {} {})", f(a[0]), f(a[1])),
                    FK::Sqrt => format!("(fp.sqrt RNE {})", f(a[0])), FK::Round => format!("(fp.roundToIntegral RNA {})", f(a[0])),
                    FK::Trunc => format!("(fp.roundToIntegral RTZ {})", f(a[0])), FK::Floor => format!("(fp.roundToIntegral RTN {})", f(a[0])), FK::Ceil => format!("(fp.roundToIntegral RTP {})", f(a[0])), FK::Rne => format!("(fp.roundToIntegral RNE {})", f(a[0])),
                    FK::SToF => format!("((_ to_fp 11 53) RNE {})", Self::bv(a[0])), FK::UToF => format!("((_ to_fp_unsigned 11 53) RNE {})", Self::bv(a[0])),
                };
                let _ = writeln!(self.text, "(define-fun f{} () (_ FloatingPoint 11 53) {})", t, fb);
                let _ = writeln!(self.text, "(declare-const n{} (_ BitVec 64))", t);
                self.extra.push(format!("(assert (= ((_ to_fp 11 53) n{}) f{}))", t, t));
                return;
            }
        };
        let _ = writeln!(self.text, "(define-fun n{} () {} {})", t, sort(w), body);
    }
}
pub fn emit(asserts: &[T]) -> Emit { let f: Vec<String> = asserts.iter().map(|a| Emit::nm(*a)).collect(); let f: Vec<&str> = f.iter().map(|x| x.as_str()).collect(); emit_(asserts, &f) }
pub fn emit_text(roots: &[T], f: &str) -> Emit { emit_(roots, &[f]) }
fn emit_(asserts: &[T], fs: &[&str]) -> Emit {
    let mut e = Emit { text: String::new(), vars: vec![], fp: false, undef: 0, loose: false, extra: vec![] };
    let order = topo(asserts);
    for t in order { e.def(t); }
    for x in std::mem::take(&mut e.extra) { e.text.push_str(&x); e.text.push('\n'); }
    for a in fs { let _ = writeln!(e.text, "(assert {})", a); }
    let logic = if e.fp { "QF_BVFP" } else { "QF_BV" };
    e.text = format!("(set-option :produce-models true)\n(set-logic {})\n{}(check-sat)\n", logic, e.text);
    if !e.vars.is_empty() { let v: Vec<String> = e.vars.iter().map(|i| format!("v{}", i)).collect(); let _ = writeln!(e.text, "(get-value ({}))", v.join(" ")); }
    e
}
fn parse_model(out: &str, vars: &[u32]) -> Option<HashMap<u32, u128>> {
    let mut m = HashMap::new();
    let toks: Vec<String> = out.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    let want: std::collections::HashSet<u32> = vars.iter().cloned().collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) { if want.contains(&n) {
            let t = &toks[i + 1];
            let v = if let Ok(d) = t.parse::<u128>() { d } else if t == "true" { 1 } else if t == "false" { 0 } else if let Some(h) = t.strip_prefix("#x") { u128::from_str_radix(h, 16).ok()? } else if let Some(b) = t.strip_prefix("#b") { u128::from_str_radix(b, 2).ok()? }
                else if t == "(" && toks.get(i + 2).map(|x| x == "_").unwrap_or(false) { toks[i + 3].strip_prefix("bv")?.parse().ok()? } else { return None };
            m.insert(n, v);
        } }
        i += 1;
    }
    if vars.iter().all(|v| m.contains_key(v)) { Some(m) } else { None }
}

/// What a term is read as: a number of its own, or the double its bits stand for.
#[derive(Clone, Copy, Default)]
struct Need { int: bool, real: bool }
#[derive(Clone)]
pub struct IntEmit {
    pub text: String, pub vars: Vec<u32>, pub defs: String,
    /// doubles were read as reals with rounding errors: "sat" needs confirmation
    pub approx: bool,
    /// variables whose bits are a double, with their range
    pub reals: Vec<(u32, f64, f64)>,
    pub errs: Vec<T>,
    pub real_nodes: Vec<T>,
    pub int_nodes: Vec<T>,
}
fn rat(x: f64) -> String {
    let b = x.to_bits(); let e = ((b >> 52) & 2047) as i32; let f = b & ((1 << 52) - 1);
    let (mut m, mut k) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    if m == 0 { return "0.0".into(); }
    while m & 1 == 0 { m >>= 1; k += 1; }
    let mut s = format!("{}.0", m);
    while k > 0 { let n = k.min(100); s = format!("(* {} {}.0)", s, 1u128 << n); k -= n; }
    while k < 0 { let n = (-k).min(100); s = format!("(/ {} {}.0)", s, 1u128 << n); k += n; }
    if x < 0.0 { format!("(- {})", s) } else { s }
}
/// operands of a bitwise or
fn or_leaves(t: T, o: &mut Vec<T>) { if let K::Or(a, b) = kind(t) { or_leaves(*a, o); or_leaves(*b, o); } else { o.push(t); } }
/// a bitwise or compared with zero (equal, below): its operands
fn or_zero(k: &K) -> Option<Vec<T>> {
    let x = match k { K::Eq(a, b) if cval(*b) == Some(0) => *a, K::Eq(a, b) if cval(*a) == Some(0) => *b, K::Slt(a, b) if cval(*b) == Some(0) => *a, _ => return None };
    if width(x) == 1 || !matches!(kind(x), K::Or(..)) { return None; }
    let mut o = vec![]; or_leaves(x, &mut o); Some(o)
}
fn needs(order: &[T], asserts: &[T]) -> Option<std::collections::HashMap<T, Need>> {
    let mut m: std::collections::HashMap<T, Need> = Default::default();
    for a in asserts { m.entry(*a).or_default().int = true; }
    for t in order.iter().rev() {
        let n = *m.get(t).unwrap_or(&Need::default());
        if n.real && width(*t) != 64 { return None; }
        let mut int = |x: T, m: &mut std::collections::HashMap<T, Need>| m.entry(x).or_default().int = true;
        match kind(*t) {
            K::F(op, a) => match op {
                FK::Olt | FK::Ole | FK::Oeq | FK::Uno | FK::FToSSat | FK::FToUSat => for x in a.iter() { m.entry(*x).or_default().real = true; },
                _ => {
                    if n.int { return None; }
                    if n.real { for x in a.iter() { if matches!(op, FK::SToF | FK::UToF) { int(*x, &mut m); } else { m.entry(*x).or_default().real = true; } } }
                }
            },
            K::Ite(c, x, y) => {
                int(*c, &mut m);
                for z in [*x, *y] { let e = m.entry(z).or_default(); e.int |= n.int; e.real |= n.real; }
            }
            K::Concat(p) => {
                if n.real { let (x, s) = real_concat(p)?; int(s, &mut m); if let Err(x) = x { m.entry(x).or_default().real = true; } }
                if n.int { for x in p.iter() { int(*x, &mut m); } }
            }
            K::Const(c) => if n.real && !f64::from_bits(*c as u64).is_finite() { return None; },
            K::Var(i) => if n.real && (n.int || st().vars[*i as usize].freal.is_none()) { return None; },
            k if or_zero(k).is_some() => { if n.int { for x in or_zero(k).unwrap() { int(x, &mut m); } } }
            k => { if n.real { return None; } if n.int { children(k, &mut |x| { m.entry(x).or_default().int = true; }); } }
        }
    }
    Some(m)
}

/// The same formula over the integers and the reals: every term stands for its signed value, wrapping only where the
/// ranges do not exclude it; a double stands for its value, and a rounded operation for the exact one plus an
/// error within its bound.  None when an operation has no such reading (bit operations, products of integers).
pub fn emit_int(asserts: &[T]) -> Option<IntEmit> {
    let p2 = |n: u16| 1i128 << n;
    let num = |v: i128| if v < 0 { format!("(- {})", v.unsigned_abs()) } else { format!("{}", v) };
    let sv = |t: T| -> String { match kind(t) { K::Const(c) if width(t) > 1 => num(tosigned(*c, width(t))), K::Const(c) => (if *c != 0 { "true" } else { "false" }).into(), K::Var(i) => format!("s{}", i), _ => format!("n{}", t) } };
    let uv = |t: T| -> String {
        let w = width(t);
        if w == 1 { return format!("(ite {} 1 0)", sv(t)); }
        match kind(t) { K::Const(c) => format!("{}", c), K::Var(i) => format!("v{}", i), _ => if range(t).slo >= 0 { sv(t) } else { format!("(ite (< {0} 0) (+ {0} {1}) {0})", sv(t), p2(w)) } }
    };
    let iv = |t: T| -> String { if width(t) == 1 { format!("(ite {} (- 1) 0)", sv(t)) } else { sv(t) } };
    let rv = |t: T| -> String { match kind(t) { K::Const(c) => rat(f64::from_bits(*c as u64)), K::Var(i) => format!("x{}", i), _ => format!("r{}", t) } };
    // e in lo..=hi brought back into w bits
    let wrap = |e: String, lo: i128, hi: i128, w: u16| -> String {
        if lo >= -p2(w - 1) && hi < p2(w - 1) { e } else { format!("(- (mod (+ {} {}) {}) {})", e, p2(w - 1), p2(w), p2(w - 1)) }
    };
    let order = topo(asserts);
    let need = match needs(&order, asserts) { Some(n) => n, None => { if std::env::var("VF_DBG").is_ok() { eprintln!("no reading of needs"); } return None } };
    let mut o = IntEmit { text: String::new(), vars: vec![], defs: String::new(), approx: false, reals: vec![], errs: vec![], real_nodes: vec![], int_nodes: vec![] };
    let mut text = String::new(); let mut extra = String::new();
    let mut leaf_done: std::collections::HashSet<u32> = Default::default();
    let mut leaf = |i: u32, text: &mut String, extra: &mut String, o: &mut IntEmit| -> Option<()> {
        let FR { lo, hi, .. } = var_frange(i)?;
        if leaf_done.insert(i) {
            o.reals.push((i, lo, hi));
            let _ = writeln!(text, "(declare-const x{} Real)", i);
            let _ = writeln!(extra, "(assert (and (<= {} x{}) (<= x{} {})))", rat(lo), i, i, rat(hi));
        }
        Some(())
    };
    for t in order {
        let w = width(t); let k = kind(t).clone();
        let nd = *need.get(&t).unwrap_or(&Need::default());
        if nd.real {
            let (FR { lo, hi, .. }, exact) = fcalc(t)?;
            let body = match &k {
                K::Const(_) => continue,
                K::Var(i) => { leaf(*i, &mut text, &mut extra, &mut o)?; continue; }
                K::Ite(c, x, y) => Some(format!("(ite {} {} {})", sv(*c), rv(*x), rv(*y))),
                K::Concat(p) => {
                    let (x, s) = real_concat(p)?;
                    let n = match x { Ok(i) => { leaf(i, &mut text, &mut extra, &mut o)?; format!("x{}", i) } Err(x) => { let r = rv(x); format!("(ite (< {0} 0.0) (- {0}) {0})", r) } };
                    Some(match kind(s) { K::Const(0) => n, K::Const(_) => format!("(- {})", n), _ => format!("(ite {} (- {}) {})", sv(s), n, n) })
                }
                K::F(op, a) => {
                    let c = |t: T| matches!(kind(t), K::Const(_));
                    match op {
                        FK::SToF | FK::UToF => Some(format!("(to_real {})", if *op == FK::SToF { iv(a[0]) } else { uv(a[0]) })),
                        FK::Add | FK::Sub => Some(format!("({} {} {})", if *op == FK::Add { "+" } else { "-" }, rv(a[0]), rv(a[1]))),
                        FK::Mul if c(a[0]) || c(a[1]) => Some(format!("(* {} {})", rv(a[0]), rv(a[1]))),
                        FK::Div if c(a[1]) => Some(format!("(/ {} {})", rv(a[0]), rv(a[1]))),
                        FK::Rem if c(a[1]) => { let q = format!("(/ {} {})", rv(a[0]), rv(a[1])); Some(format!("(- {r} (* {y} (to_real (ite (>= {r} 0.0) (to_int {q}) (- (to_int (- {q})))))))", r = rv(a[0]), y = rv(a[1]), q = q)) }
                        FK::Mul | FK::Div | FK::Sqrt | FK::Rem => None,
                        FK::Round | FK::Trunc | FK::Floor | FK::Ceil => {
                            let r = rv(a[0]);
                            let f = |s: &str| format!("(to_int {})", s);
                            let i = match op {
                                FK::Floor => f(&r), FK::Ceil => format!("(- {})", f(&format!("(- {})", r))),
                                FK::Trunc => format!("(ite (>= {0} 0.0) {1} (- {2}))", r, f(&r), f(&format!("(- {})", r))),
                                _ => format!("(ite (>= {0} 0.0) {1} (- {2}))", r, f(&format!("(+ {} 0.5)", r)), f(&format!("(+ (- {}) 0.5)", r))),
                            };
                            Some(format!("(to_real {})", i))
                        }
                        _ => return None,
                    }
                }
                _ => return None,
            };
            match body {
                Some(b) if exact => { let _ = writeln!(text, "(define-fun r{} () Real {})", t, b); }
                Some(b) => {
                    o.errs.push(t);
                    // half a unit in the last place of the largest magnitude, and a little for subnormal results
                    let m = up(lo.abs().max(hi.abs())) * 1.12e-16 + 1e-300;
                    let m = if m < 1e-40 { 1e-40 } else { m };
                    let _ = writeln!(text, "(declare-const e{} Real)\n(define-fun r{} () Real (+ {} e{}))", t, t, b, t);
                    let _ = writeln!(extra, "(assert (and (<= (- {m}) e{t}) (<= e{t} {m}) (<= {l} r{t}) (<= r{t} {h})))", m = rat(m), t = t, l = rat(lo), h = rat(hi));
                }
                None => {
                    let _ = writeln!(text, "(declare-const r{} Real)", t);
                    let _ = writeln!(extra, "(assert (and (<= {l} r{t}) (<= r{t} {h})))", t = t, l = rat(lo), h = rat(hi));
                }
            }
            o.real_nodes.push(t);
        }
        if !nd.int { continue; }
        if w > 64 && !matches!(k, K::Const(_)) { return None; }
        let body = match &k {
            K::Const(_) => continue,
            K::Var(i) => {
                let v = &st().vars[*i as usize];
                o.vars.push(*i);
                if w == 1 { let _ = writeln!(text, "(declare-const s{} Bool)\n(define-fun v{} () Int (ite s{} 1 0))", i, i, i); if v.lo == v.hi { let _ = writeln!(extra, "(assert (= v{} {}))", i, v.lo); } continue; }
                let _ = writeln!(text, "(declare-const v{} Int)", i);
                let _ = writeln!(extra, "(assert (and (<= {} v{}) (<= v{} {})))", v.lo, i, i, v.hi);
                if (v.hi as i128) < p2(w - 1) { let _ = writeln!(text, "(define-fun s{} () Int v{})", i, i); } else { let _ = writeln!(text, "(define-fun s{} () Int (ite (< v{} {}) v{} (- v{} {})))", i, i, p2(w - 1), i, i, p2(w)); }
                continue;
            }
            K::Not(a) => if w == 1 { format!("(not {})", sv(*a)) } else { format!("(- (- 1) {})", sv(*a)) },
            K::And(a, b) if w == 1 => format!("(and {} {})", sv(*a), sv(*b)),
            K::Or(a, b) if w == 1 => format!("(or {} {})", sv(*a), sv(*b)),
            K::Xor(a, b) if w == 1 => format!("(xor {} {})", sv(*a), sv(*b)),
            K::Lin(c, ts) if w == 1 => {
                if ts.iter().any(|(x, _)| width(*x) != 1) { return None; }
                ts.iter().filter(|(_, q)| q & 1 == 1).fold(String::from(if c & 1 == 1 { "true" } else { "false" }), |s, (x, _)| format!("(xor {} {})", s, sv(*x)))
            }
            K::And(a, b) if cval(*b).or(cval(*a)).map(|c| c & (c + 1) == 0).unwrap_or(false) => {
                let (x, c) = if let Some(c) = cval(*b) { (*a, c) } else { (*b, cval(*a).unwrap()) };
                format!("(mod {} {})", sv(x), c + 1)
            }
            K::Lin(c, ts) if w > 1 => {
                let c = tosigned(*c, w);
                let (mut lo, mut hi) = (c, c);
                let mut s = format!("(+ {}", num(c));
                for (x, q) in ts.iter() {
                    if width(*x) != w { return None; }
                    let q = tosigned(*q, w); let r = range(*x);
                    if q.unsigned_abs() >= 1 << 62 { return None; }
                    let (a, b) = (q.checked_mul(r.slo)?, q.checked_mul(r.shi)?);
                    lo += a.min(b); hi += a.max(b);
                    let _ = write!(s, " (* {} {})", num(q), sv(*x));
                }
                s.push(')');
                wrap(s, lo, hi, w)
            }
            K::UDiv(a, b) | K::URem(a, b) if w > 1 => { let d = cval(*b)?; if d <= 1 { return None; } format!("({} {} {})", if matches!(k, K::UDiv(..)) { "div" } else { "mod" }, uv(*a), d) }
            K::SDiv(a, b) | K::SRem(a, b) if w > 1 => {
                let d = tosigned(cval(*b)?, w); if d <= 1 { return None; }
                let op = if matches!(k, K::SDiv(..)) { "div" } else { "mod" };
                format!("(ite (>= {x} 0) ({op} {x} {d}) (- ({op} (- {x}) {d})))", x = sv(*a), d = d, op = op)
            }
            K::Shl(a, b) if w > 1 => { let n = cval(*b)?; if n >= w as u128 { return None; } let r = range(*a); wrap(format!("(* {} {})", p2(n as u16), sv(*a)), r.slo.checked_mul(p2(n as u16))?, r.shi.checked_mul(p2(n as u16))?, w) }
            K::LShr(a, b) if w > 1 => { let n = cval(*b)?; if n >= w as u128 || n == 0 { return None; } format!("(div {} {})", uv(*a), p2(n as u16)) }
            K::AShr(a, b) if w > 1 => { let n = cval(*b)?; if n >= w as u128 { return None; } format!("(div {} {})", sv(*a), p2(n as u16)) }
            K::Eq(..) | K::Slt(..) if or_zero(&k).is_some() => { let v = or_zero(&k).unwrap(); let e = matches!(k, K::Eq(..)); format!("({}{})", if e { "and" } else { "or" }, v.iter().map(|x| if e { format!(" (= {} 0)", sv(*x)) } else { format!(" (< {} 0)", iv(*x)) }).collect::<String>()) }
            K::Eq(a, b) => format!("(= {} {})", sv(*a), sv(*b)),
            K::Ult(a, b) => format!("(< {} {})", uv(*a), uv(*b)),
            K::Slt(a, b) => format!("(< {} {})", iv(*a), iv(*b)),
            K::Ite(c, a, b) => format!("(ite {} {} {})", sv(*c), sv(*a), sv(*b)),
            K::SExt(a) => iv(*a),
            K::Extract(a, h, l) => {
                let n = h - l + 1;
                if n == 1 {
                    if *h + 1 == width(*a) { format!("(< {} 0)", iv(*a)) }
                    else { format!("(= (mod (div {} {}) 2) 1)", uv(*a), p2(*l)) }
                } else {
                    let r = range(*a);
                    if *l == 0 { wrap(sv(*a), r.slo, r.shi, n) } else { wrap(format!("(div {} {})", sv(*a), p2(*l)), r.slo >> l, r.shi >> l, n) }
                }
            }
            K::Concat(p) => {
                let mut s = String::from("(+ 0"); let mut off = 0u16; let mut hi = 0i128;
                for x in p.iter() { let _ = write!(s, " (* {} {})", p2(off), uv(*x)); hi += (range(*x).uhi as i128).checked_mul(p2(off))?; off += width(*x); }
                s.push(')');
                wrap(s, 0, hi, w)
            }
            K::F(op, a) => match op {
                FK::Olt => format!("(< {} {})", rv(a[0]), rv(a[1])),
                FK::Ole => format!("(<= {} {})", rv(a[0]), rv(a[1])),
                FK::Oeq => format!("(= {} {})", rv(a[0]), rv(a[1])),
                FK::Uno => "false".into(),
                FK::FToSSat | FK::FToUSat => {
                    let r = rv(a[0]);
                    let (l, h) = if *op == FK::FToSSat { (-p2(w - 1), p2(w - 1) - 1) } else { if w > 63 { return None; } (0, p2(w) - 1) };
                    let i = format!("(ite (>= {0} 0.0) (to_int {0}) (- (to_int (- {0}))))", r);
                    let FR { lo, hi, .. } = frange(a[0])?;
                    let s = if lo > l as f64 && hi < h as f64 { i } else { format!("(let ((z {})) (ite (< z {}) {} (ite (> z {}) {} z)))", i, num(l), num(l), num(h), num(h)) };
                    if *op == FK::FToUSat { wrap(s, l, h, w) } else { s }
                }
                _ => return None,
            },
            _ => { if std::env::var("VF_DBG").is_ok() { eprintln!("no reading: {:?} w{}", k, w); } return None }
        };
        o.int_nodes.push(t);
        let _ = writeln!(text, "(define-fun n{} () {} {})", t, if w == 1 { "Bool" } else { "Int" }, body);
    }
    text.push_str(&extra);
    o.defs = text.clone();
    for a in asserts { let _ = writeln!(text, "(assert {})", sv(*a)); }
    o.text = text;
    if !o.real_nodes.is_empty() || !o.reals.is_empty() { o.approx = true; }
    Some(o)
}
impl IntEmit {
    fn logic(&self) -> &'static str { if self.real_nodes.is_empty() && self.reals.is_empty() { "QF_LIA" } else { "QF_LIRA" } }
    fn query(&self, more: &str) -> String {
        let mut s = format!("(set-option :produce-models true)\n(set-logic {})\n{}{}(check-sat)\n", self.logic(), self.text, more);
        let mut v: Vec<String> = self.vars.iter().map(|i| format!("v{}", i)).collect();
        v.extend(self.reals.iter().map(|x| format!("x{}", x.0)));
        if !v.is_empty() { let _ = writeln!(s, "(get-value ({}))", v.join(" ")); }
        s
    }
    /// values of all variables out of a solver's answer
    fn model(&self, out: &str) -> Option<HashMap<u32, u128>> {
        let mut m = if self.vars.is_empty() { HashMap::new() } else { parse_model(out, &self.vars)? };
        let toks: Vec<String> = out.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
        for (i, lo, hi) in &self.reals {
            let name = format!("x{}", i);
            let p = toks.iter().position(|x| *x == name)?;
            let mut q = p + 1;
            let v = sexp_num(&toks, &mut q)?.max(*lo).min(*hi);
            m.insert(*i, v.to_bits() as u128);
        }
        Some(m)
    }
    /// other models to try when one does not stand up to rounding
    fn other(&self, n: usize) -> String {
        let mut s = String::new();
        for e in &self.errs { let _ = writeln!(s, "(assert (= e{} 0.0))", e); }
        if n > 0 { for (i, lo, hi) in &self.reals {
            let f = |x: u64| (x >> 11) as f64 / (1u64 << 53) as f64;
            let half = (hi - lo) * 0.5f64.powi(n as i32 * 2 - 1);
            let l = lo + (hi - lo - half) * f(rnd());
            let _ = writeln!(s, "(assert (and (<= {} x{}) (<= x{} {})))", rat(l.max(*lo)), i, i, rat((l + half).min(*hi)));
        } }
        s
    }
}
fn sexp_num(t: &[String], p: &mut usize) -> Option<f64> {
    let x = t.get(*p)?; *p += 1;
    if x == "(" {
        let op = t.get(*p)?.clone(); *p += 1;
        let a = sexp_num(t, p)?;
        let r = if t.get(*p)? == ")" { if op == "-" { -a } else { a } } else { let b = sexp_num(t, p)?; match op.as_str() { "/" => a / b, "-" => a - b, "*" => a * b, "+" => a + b, _ => return None } };
        if t.get(*p)? != ")" { return None; }
        *p += 1; return Some(r);
    }
    x.trim_end_matches('?').parse().ok()
}
/// The integer reading evaluated at random inputs must agree with the term evaluator at every node.
fn int_samples(ie: &IntEmit, n: usize) -> String {
    let mut o = format!("(set-logic {})\n{}", ie.logic(), ie.defs);
    for _ in 0..n {
        let mut vals = std::collections::HashMap::new();
        for i in ie.vars.iter().chain(ie.reals.iter().map(|x| &x.0)) {
            let v = &st().vars[*i as usize];
            let span = v.hi - v.lo;
            let x = match rnd() % 6 { 0 => v.lo, 1 => v.hi, 2 => v.lo + span.min(rnd() as u128 % 4), _ => if span == u128::MAX { rnd() as u128 } else { v.lo + (((rnd() as u128) << 64) | rnd() as u128) % (span + 1) } };
            vals.insert(*i, x);
        }
        for (i, lo, hi) in &ie.reals {
            if st().vars[*i as usize].freal.is_some() || rnd() % 2 == 0 { let f = (rnd() >> 11) as f64 / (1u64 << 53) as f64; vals.insert(*i, (lo + (hi - lo) * f).max(*lo).min(*hi).to_bits() as u128); }
        }
        let f = |i: u32| *vals.get(&i).unwrap_or(&st().vars[i as usize].lo);
        let mut ev = Evaluator::new(&f);
        o.push_str("(push)\n");
        for i in &ie.vars { let _ = writeln!(o, "(assert (= v{} {}))", i, vals[i]); }
        for (i, _, _) in &ie.reals { let _ = writeln!(o, "(assert (= x{} {}))", i, rat(f64::from_bits(vals[i] as u64))); }
        // exact reading: some node differs (unsat); with rounding errors: the true values are among those allowed (sat)
        o.push_str(if ie.approx { "(assert (and true" } else { "(assert (not (and true" });
        for t in &ie.int_nodes {
            let (v, w) = (ev.eval(*t), width(*t));
            if w == 1 { let _ = write!(o, " (= n{} {})", t, v != 0); }
            else { let s = tosigned(v, w); let _ = if s < 0 { write!(o, " (= n{} (- {}))", t, s.unsigned_abs()) } else { write!(o, " (= n{} {})", t, s) }; }
        }
        for t in &ie.real_nodes { let _ = write!(o, " (= r{} {})", t, rat(f64::from_bits(ev.eval(*t) as u64))); }
        o.push_str(if ie.approx { "))\n(check-sat)\n(pop)\n" } else { ")))\n(check-sat)\n(pop)\n" });
    }
    o
}

pub struct Solver { /// feasibility questions: a point that rounding might refute is answer enough
    pub quick: bool, pub bins: Vec<String>, pub dir: String, pub stats: Stats, pub n: u64, pub keep: bool, pub memkb: u64 }
impl Solver {
    fn cmd(b: &str, file: &str, secs: u64, memkb: u64) -> String {
        let s = match b {
            "z3-int" | "z3-real" | "z3-more" | "z3-new" => format!("z3-new -T:{} {}", secs, file),
            "z3-int2" | "z3-real2" => format!("z3-new -T:{} smt.arith.solver=2 {}", secs, file),
            "z3" => format!("z3 -T:{} {}", secs, file),
            "cvc5" | "cvc5-real" => format!("cvc5 --produce-models --tlimit={} {}", secs * 1000, file),
            "cvc5-eager" => format!("cvc5 --produce-models --bitblast=eager --bv-sat-solver=cadical --tlimit={} {}", secs * 1000, file),
            "cvc5-int" => format!("cvc5 --produce-models --solve-bv-as-int=sum --tlimit={} {}", secs * 1000, file),
            "z3-sat" => format!("z3-new -T:{} tactic.default_tactic='(then simplify propagate-values solve-eqs bit-blast aig sat)' sat.acce=true {}", secs, file),
            _ => format!("{} {}", b, file),
        };
        format!("ulimit -v {}; exec {}", memkb, s)
    }
    pub fn solve(&mut self, asserts: &[T], secs: u64) -> Ans {
        if asserts.iter().any(|a| *a == FALSE) { self.stats.trivial += 1; return Ans::Unsat; }
        let e = emit(asserts);
        self.go(e, asserts, secs)
    }
    /// satisfiability of a formula given as text over the nodes below the roots
    pub fn solve_text(&mut self, roots: &[T], f: &str, secs: u64) -> Ans {
        let e = emit_text(roots, f);
        self.go(e, &[], secs)
    }
    fn go(&mut self, e: Emit, asserts: &[T], secs: u64) -> Ans {
        self.stats.queries += 1; self.stats.sizes.push(e.text.len());
        let t0 = Instant::now();
        let file = format!("{}/q{}_{}.smt2", self.dir, std::process::id(), self.n); self.n += 1;
        std::fs::File::create(&file).and_then(|mut f| f.write_all(e.text.as_bytes())).unwrap_or_else(|x| fatal(&format!("cannot write query: {}", x)));
        let mut kids: Vec<(String, std::process::Child, std::thread::JoinHandle<String>)> = vec![];
        let bins = self.bins.clone();
        let memkb = self.memkb;
        let start = |b: &String, file: &str, kids: &mut Vec<(String, std::process::Child, std::thread::JoinHandle<String>)>| {
            use std::os::unix::process::CommandExt;
            let mut c = Command::new("sh"); c.arg("-c").arg(Self::cmd(b, file, secs, memkb)).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()); c.process_group(0);
            let mut k = match c.spawn() { Ok(k) => k, Err(_) => return };
            let mut o = k.stdout.take().unwrap();
            let h = std::thread::spawn(move || { let mut s = String::new(); use std::io::Read; let _ = o.read_to_string(&mut s); s });
            kids.push((b.clone(), k, h));
        };
        if int_after() > 0 { for b in &bins { start(b, &file, &mut kids); } } else { /* test mode: the integer reading alone, when there is one */ if asserts.is_empty() || emit_int(asserts).is_none() { for b in &bins { start(b, &file, &mut kids); } } }
        let ifile = format!("{}.int", file);
        let mut int_won = false; let mut maybe = false; let mut ie: Option<IntEmit> = None; let mut again = 0usize; let mut tmp: Vec<String> = vec![];
        let mut int_tried = asserts.is_empty();
        let mut ans = Ans::Unknown("no solver answered".into());
        let mut why = String::new();
        let end = Instant::now() + Duration::from_secs(secs + 5);
        while !maybe && (!kids.is_empty() || !int_tried) {
            let mut i = 0; let mut got = false; let mut any = false;
            while i < kids.len() {
                if kids[i].2.is_finished() {
                    let (b, mut k, h) = kids.remove(i); let bn = b.clone();
                    let _ = k.wait();
                    let out = h.join().unwrap_or_default();
                    any = true;
                    let first = out.lines().next().unwrap_or("").trim().to_string();
                    let err = out.contains("(error") && first != "unsat"; // get-value after unsat reports an error
                    if bn == "z3-more" && first != "sat" {
                        // no point in the narrower query: try the next
                        if again < 8 { let x = ie.as_ref().unwrap(); let q = format!("{}{}", ifile, again); if std::fs::write(&q, x.query(&x.other(again))).is_ok() { start(&"z3-more".to_string(), &q, &mut kids); tmp.push(q); } again += 1; }
                        continue;
                    }
                    if first == "unsat" && !out.lines().take(1).any(|l| l.contains("error")) { *self.stats.by.entry(b).or_insert(0) += 1; int_won = is_int(&bn); ans = Ans::Unsat; got = true; break; }
                    if first == "sat" && !err && (is_int(&bn) || bn == "z3-more") {
                        let x = ie.as_ref().unwrap();
                        if let Some(m) = x.model(&out) {
                            let f = |i: u32| *m.get(&i).unwrap_or(&st().vars[i as usize].lo);
                            let mut ev = Evaluator::new(&f);
                            if asserts.iter().all(|a| ev.eval(*a) != 0) { *self.stats.by.entry(b).or_insert(0) += 1; ans = Ans::Sat(m); got = true; break; }
                            if !x.approx { fatal("solver model rejected by the term evaluator"); }
                        }
                        // only a point the rounding errors allow: look for another
                        if self.quick { why.push_str("unconfirmed "); maybe = true; break; }
                        if again < 8 { let q = format!("{}{}", ifile, again); if std::fs::write(&q, x.query(&x.other(again))).is_ok() { start(&"z3-more".to_string(), &q, &mut kids); tmp.push(q); } again += 1; }
                        why.push_str(&format!("{}:not confirmed ", bn));
                        continue;
                    }
                    if first == "sat" && !err { if let Some(m) = parse_model(&out, &e.vars).filter(|m| !e.loose || { let f = |i: u32| *m.get(&i).unwrap_or(&st().vars[i as usize].lo); let mut ev = Evaluator::new(&f); asserts.iter().all(|a| ev.eval(*a) != 0) }) { *self.stats.by.entry(b).or_insert(0) += 1; ans = Ans::Sat(m); got = true; break; } }
                    why.push_str(&format!("{}:{} ", b, first.chars().take(60).collect::<String>()));
                    continue;
                }
                i += 1;
            }
            if got || maybe { break; }
            // a second reading, over the integers, when the first takes long
            if !int_tried && (kids.is_empty() || t0.elapsed().as_millis() > if self.quick && e.fp { 0 } else { int_after() }) {
                int_tried = true;
                ie = emit_int(asserts);
                if let Some(x) = &ie { if std::fs::write(&ifile, x.query("")).is_ok() {
                    if x.real_nodes.is_empty() { for b in ["z3-int", "z3-int2"] { start(&b.to_string(), &ifile, &mut kids); } } else { for b in ["z3-real", "z3-real2"] { start(&b.to_string(), &ifile, &mut kids); } start(&"cvc5-real".to_string(), &ifile, &mut kids); }
                    any = true;
                } }
            }
            if Instant::now() > end { why.push_str("timeout "); break; }
            if !any { std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 1 { 3 } else { 20 })); }
        }
        for (_, k, _) in kids.iter_mut() { unsafe { kill(-(k.id() as i32), 9); } let _ = k.wait(); }
        self.stats.secs += t0.elapsed().as_secs_f64();
        if !self.keep { let _ = std::fs::remove_file(&file); let _ = std::fs::remove_file(&ifile); for q in &tmp { let _ = std::fs::remove_file(q); } }
        if let Ans::Unknown(s) = &mut ans { *s = why; self.stats.unknown += 1; }
        if let Ans::Unsat = &ans {
            self.stats.unsat += 1;
            if int_won && self.stats.int_ok < 6 {
                if let Some(x) = &ie {
                    if x.defs.len() < 200_000 && std::fs::write(&ifile, int_samples(x, 2)).is_ok() {
                        let out = Command::new("sh").arg("-c").arg(Self::cmd("z3-int", &ifile, 10, memkb)).stderr(Stdio::null()).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
                        let (good, bad) = if x.approx { ("sat", "unsat") } else { ("unsat", "sat") };
                        for l in out.lines() { let l = l.trim(); if l == good { self.stats.int_ok += 1 } else if l == bad { fatal(&format!("integer reading refuted, {}", ifile)) } }
                        if !self.keep { let _ = std::fs::remove_file(&ifile); }
                    }
                }
            }
        }
        if let Ans::Sat(m) = &ans {
            self.stats.sat += 1;
            // a model is only accepted when the term evaluator agrees with it (floating-point nodes with
            // unspecified NaN payloads aside)
            if !e.fp && e.undef == 0 {
                let f = |i: u32| *m.get(&i).unwrap_or(&st().vars[i as usize].lo);
                let mut ev = Evaluator::new(&f);
                for a in asserts { if ev.eval(*a) == 0 { fatal("solver model rejected by the term evaluator"); } }
            }
        }
        ans
    }
}
fn is_int(b: &str) -> bool { b.contains("-int") && b != "cvc5-int" || b.contains("-real") }
fn int_after() -> u128 { std::env::var("VF_INT_AFTER").ok().and_then(|x| x.parse().ok()).unwrap_or(400) }
extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
