//! Symbolic executor over the parsed IR: forks at undecided branches, merges states at every join
//! (per loop iteration, in weak topological order) and at function returns.
use crate::audit;
use crate::ir::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { N, T(T), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub struct Obj { pub size: u64, pub ents: BTreeMap<u64, (u64, T)>, pub bytes: Option<Rc<(Vec<u8>, BTreeMap<u64, T>)>>, pub ro: bool }
pub type Mem = BTreeMap<u32, Rc<Obj>>;

#[derive(Clone)]
pub struct St { pub pc: Vec<T>, pub mem: Mem }

pub struct Vc { pub cond: T, pub id: String, pub kind: &'static str, pub order: usize }

struct Comp { parent: Option<usize>, pos: u32 }
struct FInfo { comps: Vec<Comp>, bcomp: Vec<Option<usize>>, bpos: Vec<u32>, bhead: Vec<Option<usize>>, panics: Vec<u8>, live: Vec<Vec<u64>> }

pub struct Exec<'a> {
    pub m: &'a Module,
    infos: HashMap<*const Func, Rc<FInfo>>,
    pub gaddr: HashMap<String, u32>,
    pub ro: HashMap<u32, Rc<Obj>>,
    next_obj: u32,
    pub vcs: Vec<Vc>,
    pub covers: Vec<(u64, T)>,
    pub nds: BTreeMap<u64, (T, u64, u64)>,
    pub conc: Option<HashMap<u64, u64>>,
    pub fix: HashMap<u64, u64>,
    fp_memo: HashMap<(T, Vec<T>), T>,
    pub params: HashMap<u64, u64>,
    pub funcs_hit: BTreeMap<String, u64>,
    pub stubs_hit: BTreeSet<String>,
    pub notes: BTreeSet<String>,
    stubvals: HashMap<(String, Vec<T>), T>,
    depth: u32,
    pub max_iter: u32,
    pub feas_after: u32,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub max_loop: u32,
    pub feas: Option<Box<dyn FnMut(&[T]) -> Option<bool>>>,
    pub assumed: Vec<T>,
    pub deadline: std::time::Instant,
    pub trace: bool,
    cur_fn: Vec<String>,
    pub out_vals: Vec<(u64, T)>,
}

struct LS { pc: Vec<T>, mem: Mem, regs: Vec<V> }

fn merge_v(c: T, a: &V, b: &V) -> V {
    match (a, b) {
        (V::T(x), V::T(y)) => if x == y { V::T(*x) } else if width(*x) == width(*y) { V::T(audit::ite(c, *x, *y, ite(c, *x, *y))) } else { V::N },
        (V::A(x), V::A(y)) => if Rc::ptr_eq(x, y) { a.clone() } else { V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| merge_v(c, p, q)).collect())) },
        (V::N, _) | (_, V::N) => V::N,
        _ => fatal("merge of mismatching values"),
    }
}
fn merge_mem(c: T, a: &Mem, b: &Mem) -> Mem {
    let mut o = Mem::new();
    for (k, x) in a { match b.get(k) { None => { o.insert(*k, x.clone()); } Some(y) => { if Rc::ptr_eq(x, y) { o.insert(*k, x.clone()); } else { o.insert(*k, Rc::new(merge_obj(c, x, y))); } } } }
    for (k, y) in b { if !a.contains_key(k) { o.insert(*k, y.clone()); } }
    o
}
fn merge_obj(c: T, a: &Obj, b: &Obj) -> Obj {
    // common boundaries
    let mut o = Obj { size: a.size, ents: BTreeMap::new(), bytes: None, ro: false };
    if a.ents.len() == b.ents.len() && a.ents.iter().zip(b.ents.iter()).all(|(x, y)| x.0 == y.0 && x.1 .0 == y.1 .0) {
        for ((k, (l, x)), (_, (_, y))) in a.ents.iter().zip(b.ents.iter()) { o.ents.insert(*k, (*l, audit::ite(c, *x, *y, ite(c, *x, *y)))); }
        return o;
    }
    let mut cuts = BTreeSet::new();
    for (k, (l, _)) in a.ents.iter().chain(b.ents.iter()) { cuts.insert(*k); cuts.insert(*k + *l); }
    // pieces: maximal runs that do not cut an entry of either side
    let mut sorted: Vec<u64> = cuts.into_iter().collect();
    let inside = |o: &Obj, p: u64| o.ents.range(..p).next_back().map(|(k, (l, _))| k + l > p).unwrap_or(false);
    sorted.retain(|p| !(inside(a, *p) && inside(b, *p)));
    for w in sorted.windows(2) {
        let (s, e) = (w[0], w[1]);
        if e - s > 16 || e == s { // split wide gaps
            let mut p = s; while p < e { let n = (e - p).min(16); let x = a.load(p, n); let y = b.load(p, n); if !(is_undef(x) && is_undef(y)) { o.ents.insert(p, (n, ite(c, x, y))); } p += n; }
            continue;
        }
        let x = a.load(s, e - s); let y = b.load(s, e - s);
        if is_undef(x) && is_undef(y) { continue; }
        o.ents.insert(s, (e - s, audit::ite(c, x, y, ite(c, x, y))));
    }
    o
}
impl Obj {
    fn new(size: u64) -> Obj { Obj { size, ents: BTreeMap::new(), bytes: None, ro: false } }
    pub fn load(&self, off: u64, len: u64) -> T {
        if let Some(b) = &self.bytes {
            let (by, rel) = &**b;
            if let Some(t) = rel.get(&off) { if len == 8 { return *t; } }
            if off + len > by.len() as u64 { return undef((len * 8) as u16); }
            let mut v = 0u128; for i in 0..len { v |= (by[(off + i) as usize] as u128) << (8 * i); }
            return cst(v, (len * 8) as u16);
        }
        if let Some((l, t)) = self.ents.get(&off) { if *l == len { return *t; } }
        let mut ps = vec![]; let mut p = off; let end = off + len;
        while p < end {
            match self.ents.range(..=p).next_back() {
                Some((k, (l, t))) if k + l > p => { let e = (k + l).min(end); ps.push(extract(*t, ((e - k) * 8 - 1) as u16, ((p - k) * 8) as u16)); p = e; }
                _ => { let e = self.ents.range(p..).next().map(|x| *x.0).unwrap_or(end).min(end); ps.push(undef(((e - p) * 8) as u16)); p = e; }
            }
        }
        if ps.iter().any(|x| is_undef(*x)) && !ps.iter().all(|x| is_undef(*x)) {
            // partially undefined: undefined bytes read as zero (padding)
            let q: Vec<T> = ps.iter().map(|x| if is_undef(*x) { cst(0, width(*x)) } else { *x }).collect();
            return concat(&q);
        }
        concat(&ps)
    }
    fn clear(&mut self, off: u64, len: u64) {
        let end = off + len;
        let hit: Vec<(u64, u64, T)> = self.ents.range(..end).rev().take_while(|(k, (l, _))| **k + *l > off || **k >= off).filter(|(k, (l, _))| **k + *l > off).map(|(k, (l, t))| (*k, *l, *t)).collect();
        for (k, l, t) in hit {
            self.ents.remove(&k);
            if k < off { self.ents.insert(k, (off - k, extract(t, ((off - k) * 8 - 1) as u16, 0))); }
            if k + l > end { self.ents.insert(end, (k + l - end, extract(t, (l * 8 - 1) as u16, ((end - k) * 8) as u16))); }
        }
    }
    pub fn store(&mut self, off: u64, t: T) {
        let len = width(t) as u64 / 8;
        if let Some(e) = self.ents.get_mut(&off) { if e.0 == len { e.1 = t; return; } }
        self.clear(off, len);
        self.ents.insert(off, (len, t));
    }
}
pub const OBJ_BASE: u64 = 0x8000_0000;
fn base_of(id: u32) -> u64 { ((id as u64) << 32) | OBJ_BASE }
fn obj_of(addr: u64) -> (u32, i64) { let id = (addr >> 32) as u32; (id, (addr as i64).wrapping_sub(base_of(id) as i64)) }

fn lcp(a: &[T], b: &[T]) -> usize { a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count() }
fn merge_pc(a: &[T], b: &[T]) -> (T, Vec<T>) {
    let n = lcp(a, b);
    let (s1, s2) = (&a[n..], &b[n..]);
    let mut pc = a[..n].to_vec();
    if s1.is_empty() && s2.is_empty() { fatal("merging identical path conditions"); }
    let (sel, comb);
    if !s1.is_empty() && !s2.is_empty() && s1[0] == not(s2[0]) {
        sel = s1[0];
        comb = ite(sel, ands(&s1[1..]), ands(&s2[1..]));
    } else {
        let x = ands(s1); let y = ands(s2);
        // disjoint by construction: either side may serve as the selector
        comb = or(x, y);
        sel = restrict(if s1.len() <= s2.len() && !s1.is_empty() { x } else { not(y) }, comb);
    }
    if comb == FALSE { fatal("empty merge"); }
    push_lit(&mut pc, comb);
    if audit::log().on { audit::add(audit::Lemma::Merge(a.to_vec(), b.to_vec(), sel, pc.clone()), false); }
    (sel, pc)
}
pub fn push_lit(pc: &mut Vec<T>, l: T) {
    if l == TRUE { return; }
    if let K::And(a, b) = kind(l) { let (a, b) = (*a, *b); push_lit(pc, a); push_lit(pc, b); return; }
    if !pc.contains(&l) { pc.push(l); }
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module) -> Self {
        Exec { m, infos: HashMap::new(), gaddr: HashMap::new(), ro: HashMap::new(), next_obj: 1, vcs: vec![], covers: vec![], nds: BTreeMap::new(), conc: None, fix: HashMap::new(), fp_memo: HashMap::new(), params: HashMap::new(),
            funcs_hit: BTreeMap::new(), stubs_hit: BTreeSet::new(), notes: BTreeSet::new(), stubvals: HashMap::new(), depth: 0, max_iter: 400, feas_after: 30, steps: 0, forks: 0, merges: 0, max_loop: 0, feas: None, assumed: vec![],
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600), trace: false, cur_fn: vec![], out_vals: vec![] }
    }
    fn new_obj(&mut self, st: &mut Mem, size: u64) -> u64 { let id = self.next_obj; self.next_obj += 1; st.insert(id, Rc::new(Obj::new(size))); base_of(id) }

    fn global(&mut self, name: &str, file: usize) -> u64 {
        let key = { let k = format!("{}\u{1}{}", name, file); if self.m.globals.contains_key(&k) || self.m.funcs.contains_key(&k) { k } else { name.to_string() } };
        if let Some(id) = self.gaddr.get(&key) { return base_of(*id); }
        let id = self.next_obj; self.next_obj += 1;
        self.gaddr.insert(key.clone(), id);
        if let Some(g) = self.m.globals.get(&key) {
            let sz = g.ty.size();
            let mut bytes = vec![0u8; sz as usize]; let mut rel = BTreeMap::new();
            let (ty, init, cons) = (g.ty.clone(), g.init.clone(), g.constant);
            if matches!(init, Val::Undef) { self.notes.insert(format!("external global {}", key)); }
            self.fill(&ty, &init, 0, &mut bytes, &mut rel, file);
            if !cons { self.notes.insert(format!("mutable global {} treated as its initialiser", key)); }
            self.ro.insert(id, Rc::new(Obj { size: sz, ents: BTreeMap::new(), bytes: Some(Rc::new((bytes, rel))), ro: true }));
        } else {
            self.ro.insert(id, Rc::new(Obj { size: 0, ents: BTreeMap::new(), bytes: Some(Rc::new((vec![], BTreeMap::new()))), ro: true }));
        }
        base_of(id)
    }
    fn fill(&mut self, ty: &Ty, v: &Val, off: u64, b: &mut Vec<u8>, rel: &mut BTreeMap<u64, T>, file: usize) {
        match v {
            Val::Zero | Val::Undef => {}
            Val::Bytes(x) => for (i, c) in x.iter().enumerate() { b[off as usize + i] = *c; },
            Val::Int(c) => { for i in 0..ty.size().min(16) { b[(off + i) as usize] = (c >> (8 * i)) as u8; } }
            Val::Agg(vs) => for (i, (t, x)) in vs.iter().enumerate() {
                let o = match ty { Ty::Arr(_, e) => i as u64 * e.size(), Ty::Struct(..) => ty.field_off(i), _ => fatal("agg init") };
                self.fill(t, x, off + o, b, rel, file);
            },
            Val::Global(_) | Val::Gep(..) => { let a = self.const_ptr(v, file); rel.insert(off, cst(a as u128, 64)); for i in 0..8 { b[(off + i) as usize] = (a >> (8 * i)) as u8; } }
            _ => fatal("global init"),
        }
    }
    fn const_ptr(&mut self, v: &Val, file: usize) -> u64 {
        match v { Val::Global(n) => self.global(n, file), Val::Gep(b, o) => self.const_ptr(b, file).wrapping_add(*o as u64), Val::Int(c) => *c as u64, Val::Undef | Val::Zero => 0, _ => fatal("const ptr") }
    }

    fn info(&mut self, f: &Func) -> Rc<FInfo> {
        if let Some(i) = self.infos.get(&(f as *const Func)) { return i.clone(); }
        let n = f.blocks.len();
        let succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| match b.insts.last().map(|i| &i.op) {
            Some(Op::Br(x)) => vec![*x], Some(Op::CondBr(_, x, y)) => vec![*x, *y],
            Some(Op::Switch(_, _, d, cs)) => { let mut v = vec![*d]; v.extend(cs.iter().map(|c| c.1)); v } _ => vec![] }).collect();
        // weak topological order (Bourdoncle)
        enum E { V(u32), C(u32, Vec<E>) }
        struct W<'b> { succ: &'b Vec<Vec<u32>>, dfn: Vec<u32>, num: u32, stack: Vec<u32> }
        impl<'b> W<'b> {
            fn visit(&mut self, v: u32, part: &mut Vec<E>) -> u32 {
                self.stack.push(v); self.num += 1; self.dfn[v as usize] = self.num; let mut head = self.num; let my = self.num; let mut lp = false;
                let ss = self.succ[v as usize].clone();
                for w in ss { let min = if self.dfn[w as usize] == 0 { self.visit(w, part) } else { self.dfn[w as usize] }; if min <= head { head = min; lp = true; } }
                if head == my {
                    self.dfn[v as usize] = u32::MAX;
                    let mut e = self.stack.pop().unwrap();
                    if lp {
                        while e != v { self.dfn[e as usize] = 0; e = self.stack.pop().unwrap(); }
                        let mut p2 = vec![];
                        let ss = self.succ[v as usize].clone();
                        for w in ss { if self.dfn[w as usize] == 0 { self.visit(w, &mut p2); } }
                        p2.reverse();
                        part.push(E::C(v, p2));
                    } else { part.push(E::V(v)); }
                }
                head
            }
        }
        let mut w = W { succ: &succ, dfn: vec![0; n], num: 0, stack: vec![] };
        let mut part = vec![];
        w.visit(0, &mut part);
        part.reverse();
        let mut inf = FInfo { comps: vec![], bcomp: vec![None; n], bpos: vec![0; n], bhead: vec![None; n], panics: vec![0; n], live: vec![] };
        fn walk(p: &[E], parent: Option<usize>, start: u32, inf: &mut FInfo) {
            let mut pos = start;
            for e in p { match e {
                E::V(v) => { inf.bcomp[*v as usize] = parent; inf.bpos[*v as usize] = pos; }
                E::C(h, q) => { let c = inf.comps.len(); inf.comps.push(Comp { parent, pos }); inf.bcomp[*h as usize] = Some(c); inf.bpos[*h as usize] = 0; inf.bhead[*h as usize] = Some(c); walk(q, Some(c), 1, inf); }
            } pos += 1; }
        }
        walk(&part, None, 0, &mut inf);
        // blocks that inevitably panic: 1 = via a noreturn call, 2 = bare unreachable
        for _ in 0..n { let mut ch = false; for b in 0..n { if inf.panics[b] != 0 { continue; }
            let k = match f.blocks[b].insts.last().map(|i| &i.op) {
                Some(Op::Unreachable) => if f.blocks[b].insts.iter().any(|i| matches!(i.op, Op::Call { .. })) { 1 } else { 2 },
                Some(_) if !succ[b].is_empty() && succ[b].iter().all(|s| inf.panics[*s as usize] != 0) => succ[b].iter().map(|s| inf.panics[*s as usize]).min().unwrap(),
                _ => 0 };
            // blocks with harness calls are executed normally
            let harness = f.blocks[b].insts.iter().any(|i| if let Op::Call { callee: Val::Global(nm), .. } = &i.op { nm.starts_with("__vf_") } else { false });
            if k != 0 && !harness { inf.panics[b] = k; ch = true; } } if !ch { break; } }
        // liveness
        let words = (f.nregs as usize + 63) / 64;
        let mut gen = vec![vec![0u64; words]; n]; let mut kill = vec![vec![0u64; words]; n];
        let mut phi_use: Vec<Vec<(u32, u32)>> = vec![vec![]; n]; // per pred block: regs used by phis of successors
        for (bi, b) in f.blocks.iter().enumerate() {
            for i in &b.insts {
                if let Op::Phi(_, vs) = &i.op { for (v, p) in vs { if let Val::Reg(r) = v { phi_use[*p as usize].push((bi as u32, *r)); } } }
                else { op_vals(&i.op, &mut |v| regs_of(v, &mut |r| if kill[bi][r as usize / 64] >> (r % 64) & 1 == 0 { gen[bi][r as usize / 64] |= 1 << (r % 64); })); }
                if let Some(d) = i.dst { kill[bi][d as usize / 64] |= 1 << (d % 64); }
            }
        }
        // live-in (excluding phi defs of the block itself, which are assigned on the edge)
        let mut live = vec![vec![0u64; words]; n];
        loop { let mut ch = false; for b in (0..n).rev() {
            let mut out = vec![0u64; words];
            for s in &succ[b] { for k in 0..words { out[k] |= live[*s as usize][k]; } }
            // phi defs of successors are not live out of b; phi uses on this edge are
            for s in &succ[b] { for i in &f.blocks[*s as usize].insts { if let (Op::Phi(..), Some(d)) = (&i.op, i.dst) { out[d as usize / 64] &= !(1 << (d % 64)); } } }
            for (_, r) in &phi_use[b] { out[*r as usize / 64] |= 1 << (r % 64); }
            let mut nl = vec![0u64; words];
            for k in 0..words { nl[k] = gen[b][k] | (out[k] & !kill[b][k]); }
            // phi destinations of this block: live-in for merging purposes
            for i in &f.blocks[b].insts { if let (Op::Phi(..), Some(d)) = (&i.op, i.dst) { nl[d as usize / 64] |= 1 << (d % 64); } }
            if nl != live[b] { live[b] = nl; ch = true; }
        } if !ch { break; } }
        inf.live = live;
        let r = Rc::new(inf);
        self.infos.insert(f as *const Func, r.clone());
        r
    }

    fn val(&mut self, v: &Val, ty: &Ty, regs: &[V], file: usize) -> V {
        match v {
            Val::Reg(r) => regs[*r as usize].clone(),
            Val::Int(c) => V::T(cst(*c, ty.bits())),
            Val::Undef => self.undef_v(ty),
            Val::Zero => self.zero_v(ty),
            Val::Global(_) | Val::Gep(..) => V::T(cst(self.const_ptr(v, file) as u128, 64)),
            Val::Agg(vs) => { let r: Vec<V> = vs.iter().map(|(t, x)| self.val(x, t, regs, file)).collect(); V::A(Rc::new(r)) }
            Val::Bytes(_) => fatal("bytes value"),
            Val::Meta => V::N,
        }
    }
    fn undef_v(&self, ty: &Ty) -> V { match ty { Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(|t| self.undef_v(t)).collect())), Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| self.undef_v(t)).collect())), Ty::Void | Ty::Meta => V::N, t => V::T(undef(t.bits())) } }
    fn zero_v(&self, ty: &Ty) -> V { match ty { Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(|t| self.zero_v(t)).collect())), Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero_v(t)).collect())), Ty::Void | Ty::Meta => V::N, t => V::T(cst(0, t.bits())) } }
    fn tv(&mut self, v: &Val, ty: &Ty, regs: &[V], file: usize) -> T {
        match self.val(v, ty, regs, file) { V::T(t) => t, V::N => fatal(&format!("use of an unset register in {}", self.where_())), V::A(_) => fatal("scalar expected") }
    }
    fn where_(&self) -> String { self.cur_fn.last().cloned().unwrap_or_default() }

    pub fn vc(&mut self, pc: &[T], viol: T, id: String, kind: &'static str) {
        let mut c = viol;
        if c != FALSE { c = and(c, ands(pc)); if audit::log().on { audit::add(audit::Lemma::Vc(pc.to_vec(), viol, c), c == FALSE); } }
        if kind == "check" || c != FALSE { let order = self.vcs.len(); self.vcs.push(Vc { cond: c, id, kind, order }); }
    }
    /// simplification of a condition that only matters where the path condition holds
    fn under_pc(&self, c: T, pc: &[T], d: u32) -> T {
        let r = self.under_pc_(c, pc, d);
        if r != c && audit::log().on { audit::add(audit::Lemma::Under(pc.to_vec(), c, r), cval(r).is_some()); }
        r
    }
    fn under_pc_(&self, c: T, pc: &[T], _d: u32) -> T {
        let mut c = c;
        for l in pc.iter().rev() {
            if c == TRUE || c == FALSE { return c; }
            if sup(*l) & sup(c) == 0 { continue; }
            c = restrict(c, *l);
        }
        if c == TRUE || c == FALSE { return c; }
        let mut conj = TRUE;
        for l in pc { match band_small(conj, *l) { Some(r) => conj = r, None => return c } }
        if conj == FALSE { return FALSE; }
        restrict(c, conj)
    }

    fn get_obj<'b>(&'b self, mem: &'b Mem, id: u32) -> Option<&'b Rc<Obj>> { mem.get(&id).or_else(|| self.ro.get(&id)) }
    fn load_at(&self, mem: &Mem, addr: u64, len: u64) -> Option<T> {
        let (id, off) = obj_of(addr);
        let o = self.get_obj(mem, id)?;
        if off < 0 || off as u64 + len > o.size { return None; }
        Some(o.load(off as u64, len))
    }
    fn load(&mut self, ptr: T, len: u64, pc: &[T], mem: &Mem) -> T {
        let w = (len * 8) as u16;
        if len == 0 { fatal("zero load"); }
        if let Some(a) = cval(ptr) {
            return match self.load_at(mem, a as u64, len) { Some(t) => t, None => { let wh = self.where_(); self.vc(pc, TRUE, format!("bad load at {:#x} in {}", a, wh), "ub"); undef(w) } };
        }
        let mut bad: Vec<u64> = vec![];
        let mut tab: Vec<(u64, T)> = vec![];
        let aud = audit::log().on;
        let r = apply_table(ptr, &mut |a| match self.load_at(mem, a as u64, len) { Some(t) => { if aud && !is_undef(t) { tab.push((a as u64, t)); } t } None => { bad.push(a as u64); undef(w) } }, 20000);
        if aud { if let Some(r) = r { if tab.len() <= 600 { audit::add(audit::Lemma::Table(ptr, tab, r), false); } } }
        let r = match r { Some(r) => r, None => {
            let r = if let K::Ite(c, p, q) = kind(ptr).clone() {
                let x = self.load(p, len, &[], mem); let y = self.load(q, len, &[], mem); ite(c, x, y)
            } else { fatal(&format!("symbolic load address with too many values in {}: {} range {:?}", self.where_(), show(ptr, 4), range(ptr))) };
            r
        } };
        if !bad.is_empty() {
            // addresses outside any object: must be unreachable
            bad.sort(); bad.dedup();
            let (lo, hi) = self.in_bounds(ptr, mem, len);
            let viol = match (lo, hi) { (Some(l), Some(h)) => not(and(not(ult(ptr, cst(l as u128, 64))), not(ult(cst(h as u128, 64), ptr)))), _ => { let mut v = FALSE; for b in bad.iter().take(300) { v = or(v, eq(ptr, cst(*b as u128, 64))); } v } };
            let wh = self.where_();
            self.vc(pc, viol, format!("load out of bounds in {}", wh), "ub");
        }
        r
    }
    fn in_bounds(&self, ptr: T, mem: &Mem, len: u64) -> (Option<u64>, Option<u64>) {
        let r = range(ptr);
        let (a, _) = obj_of(r.ulo as u64); let (b, _) = obj_of(r.uhi as u64);
        if a != b { return (None, None); }
        match self.get_obj(mem, a) { Some(o) if o.size >= len => (Some(base_of(a)), Some(base_of(a) + o.size - len)), _ => (None, None) }
    }
    fn store(&mut self, ptr: T, val: T, pc: &[T], mem: &mut Mem) {
        let len = width(val) as u64 / 8;
        let wh = self.where_();
        if let Some(a) = cval(ptr) {
            let (id, off) = obj_of(a as u64);
            match mem.get_mut(&id) { Some(o) if off >= 0 && off as u64 + len <= o.size => { Rc::make_mut(o).store(off as u64, val); } _ => { self.vc(pc, TRUE, format!("bad store at {:#x} in {}", a, wh), "ub"); } }
            return;
        }
        let mut vals = BTreeSet::new();
        let ok = apply_table(ptr, &mut |a| { vals.insert(a as u64); TRUE }, 5000);
        if ok.is_none() { fatal(&format!("symbolic store address with too many values in {}: {}", wh, show(ptr, 4))); }
        let mut bad = FALSE;
        for a in vals {
            let c = eq(ptr, cst(a as u128, 64));
            if c == FALSE { continue; }
            let (id, off) = obj_of(a);
            match mem.get_mut(&id) { Some(o) if off >= 0 && off as u64 + len <= o.size => { let old = o.load(off as u64, len); Rc::make_mut(o).store(off as u64, ite(c, val, old)); } _ => { bad = or(bad, c); } }
        }
        if bad != FALSE { self.vc(pc, bad, format!("store out of bounds in {}", wh), "ub"); }
    }

    fn size_bytes(ty: &Ty) -> u64 { match ty { Ty::Int(w) => ((*w as u64) + 7) / 8, _ => ty.size() } }
    fn load_ty(&mut self, ty: &Ty, ptr: T, pc: &[T], mem: &Mem) -> V {
        match ty {
            Ty::Struct(fs, _) => { let mut v = vec![]; for i in 0..fs.len() { let p = lin(ty.field_off(i) as u128, vec![(ptr, 1)], 64); v.push(self.load_ty(&fs[i], p, pc, mem)); } V::A(Rc::new(v)) }
            Ty::Arr(n, t) => { let mut v = vec![]; for i in 0..*n { let p = lin((i * t.size()) as u128, vec![(ptr, 1)], 64); v.push(self.load_ty(t, p, pc, mem)); } V::A(Rc::new(v)) }
            _ => { let n = Self::size_bytes(ty); let t = self.load(ptr, n, pc, mem); V::T(if width(t) > ty.bits() { trunc(t, ty.bits()) } else { t }) }
        }
    }
    fn store_ty(&mut self, ty: &Ty, v: &V, ptr: T, pc: &[T], mem: &mut Mem) {
        match (ty, v) {
            (Ty::Struct(fs, _), V::A(vs)) => for i in 0..fs.len() { let p = lin(ty.field_off(i) as u128, vec![(ptr, 1)], 64); self.store_ty(&fs[i], &vs[i], p, pc, mem); },
            (Ty::Arr(n, t), V::A(vs)) => for i in 0..*n { let p = lin((i * t.size()) as u128, vec![(ptr, 1)], 64); self.store_ty(t, &vs[i as usize], p, pc, mem); },
            (_, V::T(t)) => { let n = Self::size_bytes(ty) * 8; let x = if is_undef(*t) { undef(n as u16) } else if (width(*t) as u64) < n { zext(*t, n as u16) } else { *t }; self.store(ptr, x, pc, mem); }
            _ => fatal("store_ty"),
        }
    }

    pub fn call(&mut self, name: &str, args: Vec<V>, st: St) -> Option<(V, St)> {
        let f = match self.m.funcs.get(name) { Some(f) => f, None => fatal(&format!("no IR for function {}", name)) };
        let f: &'a Func = unsafe { &*(f as *const Func) };
        self.run(f, args, st)
    }

    fn run(&mut self, f: &'a Func, args: Vec<V>, st: St) -> Option<(V, St)> {
        self.depth += 1;
        if self.depth > 200 { fatal("call depth"); }
        *self.funcs_hit.entry(f.name.clone()).or_insert(0) += 1;
        self.cur_fn.push(f.name.clone());
        let inf = self.info(f);
        let entry_n = st.pc.len();
        let mut frame_objs: Vec<u32> = vec![];
        let mut regs = vec![V::N; f.nregs as usize];
        for ((_, r), a) in f.params.iter().zip(args) { regs[*r as usize] = a; }
        let mut pend: BTreeMap<Vec<u32>, (u32, Vec<LS>)> = BTreeMap::new();
        let key0 = self.key(&inf, 0, None, &[]);
        pend.insert(key0, (0, vec![LS { pc: st.pc, mem: st.mem, regs }]));
        let mut rets: Vec<(Vec<T>, Mem, V)> = vec![];
        while let Some((key, (b, states))) = pend.pop_first() {
            if self.steps & 255 == 0 && std::time::Instant::now() > self.deadline { fatal("time budget exhausted during symbolic execution"); }
            let mut ls = self.merge_states(states, &inf.live[b as usize]);
            // iteration bookkeeping
            if inf.bhead[b as usize].is_some() {
                let it = key[key.len() - 2];
                self.max_loop = self.max_loop.max(it);
                if it > self.max_iter { fatal(&format!("loop bound {} exceeded in {}", self.max_iter, f.name)); }
                if it >= self.feas_after && ls.pc.len() > 0 {
                    if let Some(mut fe) = self.feas.take() {
                        let r = fe(&ls.pc); self.feas = Some(fe);
                        if r == Some(false) { continue; }
                    }
                }
            }
            let blk = &f.blocks[b as usize];
            let mut dead = false;
            for ins in &blk.insts {
                self.steps += 1;
                match &ins.op {
                    Op::Phi(..) => {}
                    Op::Br(t) => { self.goto(f, &inf, b, *t, &key, ls, &mut pend); dead = true; break; }
                    Op::CondBr(c, x, y) => {
                        let c0 = self.tv(c, &Ty::Int(1), &ls.regs, f.file);
                        let c = self.under_pc(c0, &ls.pc, 4);
                        if let Some(v) = cval(c) { let t = if v != 0 { *x } else { *y }; self.goto(f, &inf, b, t, &key, ls, &mut pend); dead = true; break; }
                        if is_undef(c) { fatal(&format!("branch on undefined value in {}", f.name)); }
                        // floating-point conditions are beyond the simplifier: ask the solver which sides exist
                        let c = if has_f(c) { self.fp_feas(c, &ls.pc) } else { c };
                        if let Some(v) = cval(c) { let t = if v != 0 { *x } else { *y }; self.goto(f, &inf, b, t, &key, ls, &mut pend); dead = true; break; }
                        let (px, py) = (inf.panics[*x as usize], inf.panics[*y as usize]);
                        if px != 0 && py == 0 { self.panic_vc(f, *x, px, &ls.pc, c); self.goto(f, &inf, b, *y, &key, ls, &mut pend); }
                        else if py != 0 && px == 0 { self.panic_vc(f, *y, py, &ls.pc, not(c)); self.goto(f, &inf, b, *x, &key, ls, &mut pend); }
                        else {
                            self.forks += 1;
                            let mut l2 = LS { pc: ls.pc.clone(), mem: ls.mem.clone(), regs: ls.regs.clone() };
                            push_lit(&mut ls.pc, c); push_lit(&mut l2.pc, not(c));
                            self.goto(f, &inf, b, *x, &key, ls, &mut pend);
                            self.goto(f, &inf, b, *y, &key, l2, &mut pend);
                        }
                        dead = true; break;
                    }
                    Op::Switch(ty, v, d, cs) => {
                        let t = self.tv(v, ty, &ls.regs, f.file);
                        let w = ty.bits();
                        if let Some(c) = cval(t) { let tgt = cs.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d); self.goto(f, &inf, b, tgt, &key, ls, &mut pend); dead = true; break; }
                        // group by target
                        let mut groups: Vec<(u32, T)> = vec![];
                        let mut any = FALSE;
                        for (c, tgt) in cs { let e = eq(t, cst(*c, w)); if e == FALSE { continue; } any = or(any, e); if let Some(g) = groups.iter_mut().find(|g| g.0 == *tgt) { g.1 = or(g.1, e); } else { groups.push((*tgt, e)); } }
                        let rest = not(any);
                        if rest != FALSE { if let Some(g) = groups.iter_mut().find(|g| g.0 == *d) { g.1 = or(g.1, rest); } else { groups.push((*d, rest)); } }
                        let mut live: Vec<(u32, T)> = vec![];
                        for (tgt, c) in groups { let p = inf.panics[tgt as usize]; let c2 = self.under_pc(c, &ls.pc, 4); if c2 == FALSE { continue; } if p != 0 { self.panic_vc(f, tgt, p, &ls.pc, c2); } else { live.push((tgt, c2)); } }
                        let n = live.len();
                        if n == 0 { dead = true; break; }
                        if n == 1 { self.goto(f, &inf, b, live[0].0, &key, ls, &mut pend); dead = true; break; }
                        let mut pcb = ls.pc.clone();
                        for (i, (tgt, c)) in live.iter().enumerate() {
                            let c = if i == n - 1 { TRUE } else { self.under_pc(*c, &pcb, 3) };
                            let mut l2 = LS { pc: pcb.clone(), mem: ls.mem.clone(), regs: ls.regs.clone() };
                            if c == FALSE { continue; }
                            push_lit(&mut l2.pc, c);
                            self.forks += 1;
                            self.goto(f, &inf, b, *tgt, &key, l2, &mut pend);
                            if c == TRUE { break; }
                            push_lit(&mut pcb, not(c));
                        }
                        dead = true; break;
                    }
                    Op::Ret(v) => { let r = match v { None => V::N, Some((t, v)) => self.val(v, t, &ls.regs, f.file) }; let l = std::mem::replace(&mut ls, LS { pc: vec![], mem: Mem::new(), regs: vec![] }); rets.push((l.pc, l.mem, r)); dead = true; break; }
                    Op::Unreachable => { let pc = ls.pc.clone(); self.vc(&pc, TRUE, format!("unreachable reached in {}", f.name), "ub"); dead = true; break; }
                    Op::Unsupported(s) => fatal(&format!("unsupported instruction in {}: {}", f.name, s)),
                    Op::Call { callee, ret, args } => {
                        let name = match callee { Val::Global(n) => n, _ => fatal(&format!("indirect call in {}", f.name)) };
                        let mut av = vec![]; for (t, v) in args { av.push(self.val(v, t, &ls.regs, f.file)); }
                        let s = St { pc: std::mem::take(&mut ls.pc), mem: std::mem::take(&mut ls.mem) };
                        match self.do_call(name, ret, av, s, f) {
                            Some((v, s)) => { ls.pc = s.pc; ls.mem = s.mem; if let Some(d) = ins.dst { ls.regs[d as usize] = v; } }
                            None => { dead = true; break; }
                        }
                    }
                    Op::Alloca(sz) => { let a = self.new_obj(&mut ls.mem, *sz); frame_objs.push((a >> 32) as u32); ls.regs[ins.dst.unwrap() as usize] = V::T(cst(a as u128, 64)); }
                    Op::Load(ty, p) => { let p = self.tv(p, &Ty::Ptr, &ls.regs, f.file); let v = self.load_ty(ty, p, &ls.pc, &ls.mem); ls.regs[ins.dst.unwrap() as usize] = v; }
                    Op::Store(ty, v, p) => { let v = self.val(v, ty, &ls.regs, f.file); let p = self.tv(p, &Ty::Ptr, &ls.regs, f.file); let mut mem = std::mem::take(&mut ls.mem); self.store_ty(ty, &v, p, &ls.pc, &mut mem); ls.mem = mem; }
                    op => { let v = self.pure(op, &ls.regs, f.file); ls.regs[ins.dst.unwrap() as usize] = v; }
                }
            }
            if !dead { fatal(&format!("fell off a block in {}", f.name)); }
        }
        self.depth -= 1;
        self.cur_fn.pop();
        if rets.is_empty() { return None; }
        // merge returns
        let _ = entry_n;
        while rets.len() > 1 {
            let (i, j) = best_pair(&rets.iter().map(|x| &x.0[..]).collect::<Vec<_>>());
            let b = rets.remove(j); let a = rets.remove(i);
            let (c, pc) = merge_pc(&a.0, &b.0);
            self.merges += 1;
            let v = merge_v(c, &a.2, &b.2);
            let m = merge_mem(c, &a.1, &b.1);
            rets.insert(i, (pc, m, v));
        }
        let (pc, mut mem, v) = rets.pop().unwrap();
        for o in frame_objs { mem.remove(&o); }
        Some((v, St { pc, mem }))
    }
    fn fp_feas(&mut self, c: T, pc: &[T]) -> T {
        if let Some(v) = self.fp_memo.get(&(c, pc.to_vec())) { return *v; }
        let mut r = c;
        if let Some(mut fe) = self.feas.take() {
            let mut p = pc.to_vec(); p.push(c);
            if fe(&p) == Some(false) { r = FALSE; }
            else { p.pop(); p.push(not(c)); if fe(&p) == Some(false) { r = TRUE; } }
            self.feas = Some(fe);
        }
        self.fp_memo.insert((c, pc.to_vec()), r);
        r
    }
    fn panic_vc(&mut self, f: &Func, blk: u32, kind: u8, pc: &[T], c: T) {
        let mut what = String::new();
        if kind == 1 { for i in &f.blocks[blk as usize].insts { if let Op::Call { callee: Val::Global(n), .. } = &i.op { if !n.starts_with("llvm.") { what = n.clone(); } } } }
        self.vc(pc, c, format!("{} in {}", if kind == 1 { format!("panic {}", what) } else { "unreachable".into() }, f.name), if kind == 1 { "panic" } else { "ub" });
    }
    fn key(&self, inf: &FInfo, b: u32, from: Option<u32>, fkey: &[u32]) -> Vec<u32> {
        // chain of components enclosing b, outer first
        let mut cs = vec![]; let mut c = inf.bcomp[b as usize]; while let Some(x) = c { cs.push(x); c = inf.comps[x].parent; } cs.reverse();
        let mut fs = vec![]; if let Some(a) = from { let mut c = inf.bcomp[a as usize]; while let Some(x) = c { fs.push(x); c = inf.comps[x].parent; } fs.reverse(); }
        let mut key = vec![];
        for (d, c) in cs.iter().enumerate() {
            key.push(inf.comps[*c].pos);
            let same = d < fs.len() && fs[..=d] == cs[..=d];
            let mut it = if same { fkey[2 * d + 1] } else { 0 };
            if same && inf.bhead[b as usize] == Some(*c) { it += 1; }
            key.push(it);
        }
        key.push(inf.bpos[b as usize]);
        key
    }
    fn goto(&mut self, f: &Func, inf: &FInfo, from: u32, to: u32, key: &[u32], mut ls: LS, pend: &mut BTreeMap<Vec<u32>, (u32, Vec<LS>)>) {
        // phis
        let mut upd = vec![];
        for i in &f.blocks[to as usize].insts {
            if let Op::Phi(ty, vs) = &i.op {
                let v = vs.iter().find(|x| x.1 == from).unwrap_or_else(|| fatal("phi edge"));
                upd.push((i.dst.unwrap(), self.val(&v.0, ty, &ls.regs, f.file)));
            } else { break; }
        }
        for (d, v) in upd { ls.regs[d as usize] = v; }
        let k = self.key(inf, to, Some(from), key);
        if &k[..] <= key { fatal("worklist order"); }
        pend.entry(k).or_insert_with(|| (to, vec![])).1.push(ls);
    }
    fn merge_states(&mut self, mut v: Vec<LS>, live: &[u64]) -> LS {
        while v.len() > 1 {
            let (i, j) = best_pair(&v.iter().map(|x| &x.pc[..]).collect::<Vec<_>>());
            let b = v.remove(j); let a = v.remove(i);
            self.merges += 1;
            let (c, pc) = merge_pc(&a.pc, &b.pc);
            let regs: Vec<V> = (0..a.regs.len()).map(|r| if live[r / 64] >> (r % 64) & 1 == 1 { merge_v(c, &a.regs[r], &b.regs[r]) } else { V::N }).collect();
            let mem = merge_mem(c, &a.mem, &b.mem);
            v.insert(i, LS { pc, mem, regs });
        }
        v.pop().unwrap()
    }

    fn pure(&mut self, op: &Op, regs: &[V], file: usize) -> V {
        match op {
            Op::Bin(o, ty, a, b) => {
                let (x, y) = (self.tv(a, ty, regs, file), self.tv(b, ty, regs, file));
                let r = match *o {
                    "add" => bv_add(x, y), "sub" => bv_sub(x, y), "mul" => mul(x, y), "udiv" => udiv(x, y), "sdiv" => sdiv(x, y), "urem" => urem(x, y), "srem" => srem(x, y),
                    "shl" => shl(x, y), "lshr" => lshr(x, y), "ashr" => ashr(x, y), "and" => and(x, y), "or" => or(x, y), "xor" => xor(x, y),
                    "fadd" => fop(FK::Add, &[x, y], 64), "fsub" => fop(FK::Sub, &[x, y], 64), "fmul" => fop(FK::Mul, &[x, y], 64), "fdiv" => fop(FK::Div, &[x, y], 64),
                    "frem" => fop(FK::Rem, &[x, y], 64),
                    _ => fatal(&format!("op {}", o)),
                };
                V::T(audit::op(*o, &[x, y], r))
            }
            Op::ICmp(p, ty, a, b) => { let (x, y) = (self.tv(a, ty, regs, file), self.tv(b, ty, regs, file)); V::T(audit::op(PREDS.iter().find(|q| **q == p.as_str()).copied().unwrap_or("?"), &[x, y], icmp(p, x, y))) }
            Op::FCmp(p, a, b) => {
                let (x, y) = (self.tv(a, &Ty::F64, regs, file), self.tv(b, &Ty::F64, regs, file));
                let lt = |x: T, y: T| fop(FK::Olt, &[x, y], 1); let le = |x: T, y: T| fop(FK::Ole, &[x, y], 1); let oeq = |x: T, y: T| fop(FK::Oeq, &[x, y], 1); let uno = |x: T, y: T| fop(FK::Uno, &[x, y], 1);
                V::T(match p.as_str() {
                    "olt" => lt(x, y), "ogt" => lt(y, x), "ole" => le(x, y), "oge" => le(y, x), "oeq" => oeq(x, y), "uno" => uno(x, y), "ord" => not(uno(x, y)),
                    "one" => and(not(oeq(x, y)), not(uno(x, y))), "ueq" => or(oeq(x, y), uno(x, y)), "une" => not(oeq(x, y)),
                    "ult" => not(le(y, x)), "ugt" => not(le(x, y)), "ule" => not(lt(y, x)), "uge" => not(lt(x, y)), "true" => TRUE, "false" => FALSE,
                    _ => fatal("fcmp"),
                })
            }
            Op::FNeg(a) => { let x = self.tv(a, &Ty::F64, regs, file); V::T(xor(x, cst(1 << 63, 64))) }
            Op::Cast(o, t, v, t2) => {
                let x = self.tv(v, t, regs, file);
                V::T(match o.as_str() {
                    "zext" => audit::cast("zext", x, zext(x, t2.bits())), "sext" => audit::cast("sext", x, sext(x, t2.bits())), "trunc" => audit::cast("trunc", x, trunc(x, t2.bits())),
                    "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => { let w = t2.bits(); if width(x) == w { x } else if width(x) > w { trunc(x, w) } else { zext(x, w) } }
                    "sitofp" if *t2 == Ty::F64 => fop(FK::SToF, &[x], 64), "uitofp" if *t2 == Ty::F64 => fop(FK::UToF, &[x], 64),
                    "fptosi" if *t == Ty::F64 => fop(FK::FToSSat, &[x], t2.bits()), "fptoui" if *t == Ty::F64 => fop(FK::FToUSat, &[x], t2.bits()),
                    _ => fatal(&format!("cast {}", o)),
                })
            }
            Op::Select(c, t, a, b) => { let c = self.tv(c, &Ty::Int(1), regs, file); let (x, y) = (self.val(a, t, regs, file), self.val(b, t, regs, file)); if let Some(k) = cval(c) { if k != 0 { x } else { y } } else { merge_v(c, &x, &y) } }
            Op::Gep(ty, base, ix) => {
                let b = self.tv(base, &Ty::Ptr, regs, file);
                let mut off = 0i128; let mut ts: Vec<(T, u128)> = vec![(b, 1)]; let mut cur = ty.clone();
                for (n, (t, v)) in ix.iter().enumerate() {
                    let x = self.tv(v, t, regs, file);
                    if n == 0 { match cval(x) { Some(c) => off += tosigned(c, t.bits()) * cur.size() as i128, None => ts.push((sext(x, 64), cur.size() as u128)) } continue; }
                    match cur.clone() {
                        Ty::Arr(_, e) => { match cval(x) { Some(c) => off += tosigned(c, t.bits()) * e.size() as i128, None => ts.push((sext(x, 64), e.size() as u128)) } cur = (*e).clone(); }
                        Ty::Struct(ref fs, _) => { let k = cval(x).unwrap() as usize; off += cur.field_off(k) as i128; cur = fs[k].clone(); }
                        _ => fatal("gep"),
                    }
                }
                V::T(lin(off as u128 & mask(64), ts, 64))
            }
            Op::ExtractValue(t, v, ix) => { let mut x = self.val(v, t, regs, file); for i in ix { x = match x { V::A(a) => a[*i as usize].clone(), _ => fatal(&format!("extractvalue in {}", self.where_())) }; } x }
            Op::InsertValue(t, v, t2, e, ix) => {
                let x = self.val(v, t, regs, file); let e = self.val(e, t2, regs, file);
                fn ins(x: &V, ix: &[u32], e: &V) -> V { if ix.is_empty() { return e.clone(); } match x { V::A(a) => { let mut n = (**a).clone(); n[ix[0] as usize] = ins(&a[ix[0] as usize], &ix[1..], e); V::A(Rc::new(n)) } _ => fatal("insertvalue") } }
                ins(&x, ix, &e)
            }
            Op::Freeze(v) => self.val(v, &Ty::Int(64), regs, file),
            _ => fatal("pure op"),
        }
    }
    fn libm(&mut self, name: &str, args: Vec<T>) -> T {
        let cs: Option<Vec<f64>> = args.iter().map(|x| cval(*x).map(|c| f64::from_bits(c as u64))).collect();
        let f = |c: &[f64]| match name { "sin" => c[0].sin(), "cos" => c[0].cos(), "tan" => c[0].tan(), "asin" => c[0].asin(), "acos" => c[0].acos(), "atan" => c[0].atan(), "atan2" => c[0].atan2(c[1]), "pow" => c[0].powf(c[1]), _ => fatal(&format!("libm {}", name)) };
        if let Some(c) = cs { return cst(f(&c).to_bits() as u128, 64); }
        if let Some(r) = diagram_f(&args, &f) { self.stubs_hit.insert(format!("{} (evaluated at each leaf)", name)); return r; }
        self.stubs_hit.insert(name.to_string());
        let k = (name.to_string(), args);
        if let Some(t) = self.stubvals.get(&k) { return *t; }
        // finite arguments give values in the range of the function (a unit in the last place wider)
        let r: Vec<Option<FR>> = k.1.iter().map(|x| frange(*x)).collect();
        let unit = |x: &Option<FR>| x.map(|x| x.lo >= -1.0 && x.hi <= 1.0).unwrap_or(false);
        let fr = match name {
            "sin" | "cos" if r[0].is_some() => Some((-1.0, 1.0)),
            "atan" if r[0].is_some() => Some((-1.570796326794897, 1.570796326794897)),
            "atan2" if r[0].is_some() && r[1].is_some() => Some((-3.141592653589794, 3.141592653589794)),
            "asin" if unit(&r[0]) => Some((-1.570796326794897, 1.570796326794897)),
            "acos" if unit(&r[0]) => Some((0.0, 3.141592653589794)),
            _ => None,
        };
        let v = new_var(&format!("{}#{}", name, self.stubvals.len()), 64, 0, mask(64));
        if fr.is_some() { if let K::Var(i) = kind(v) { crate::term::st().vars[*i as usize].freal = fr; } }
        self.stubvals.insert(k, v);
        v
    }

    fn do_call(&mut self, name: &'a str, ret: &Ty, a: Vec<V>, mut st: St, caller: &Func) -> Option<(V, St)> {
        let t = |i: usize| -> T { match &a[i] { V::T(t) => *t, _ => fatal(&format!("scalar argument {} of {}", i, name)) } };
        macro_rules! done { ($v:expr) => { return Some((V::T($v), st)) } }
        macro_rules! none { () => { return Some((V::N, st)) } }
        if let Some(n) = name.strip_prefix("__vf_") {
            match n {
                "nd" => {
                    let tag = cval(t(0)).unwrap_or_else(|| fatal("nd tag must be concrete")) as u64; let lo = cval(t(1)).unwrap_or_else(|| fatal("nd lo")) as u64; let hi = cval(t(2)).unwrap_or_else(|| fatal("nd hi")) as u64;
                    if let Some(c) = &self.conc { let v = *c.get(&tag).unwrap_or(&lo); self.nds.insert(tag, (cst(v as u128, 64), lo, hi)); done!(cst(v as u128, 64)); }
                    if let Some(c) = self.fix.get(&tag).copied() { if c < lo || c > hi { fatal("fixed value outside the input's range"); } self.nds.insert(tag, (cst(c as u128, 64), lo, hi)); done!(cst(c as u128, 64)); }
                    if let Some((v, l, h)) = self.nds.get(&tag) { if *l != lo || *h != hi { fatal("nd tag reused with other bounds"); } done!(*v); }
                    let w = (64 - hi.leading_zeros()).max(1) as u16;
                    let v = zext(new_var(&format!("nd{}", tag), w, lo as u128, hi as u128), 64);
                    self.nds.insert(tag, (v, lo, hi));
                    done!(v)
                }
                "param" => { let i = cval(t(0)).unwrap() as u64; match self.params.get(&i) { Some(v) => done!(cst(*v as u128, 64)), None => fatal(&format!("missing param {}", i)) } }
                "assume" => { let c = self.under_pc(t(0), &st.pc, 4); if c == FALSE { return None; } push_lit(&mut st.pc, c); none!() }
                "check" | "cover" => {
                    // the compiler may merge two checks into one with a selected id
                    let mut ids = BTreeSet::new();
                    if apply_table(t(1), &mut |v| { ids.insert(v as u64); TRUE }, 64).is_none() { fatal("check id has too many values"); }
                    let pc = st.pc.clone();
                    for id in ids {
                        let sel = eq(t(1), cst(id as u128, 64));
                        let sel = self.under_pc(sel, &pc, 4);
                        if sel == FALSE { continue; }
                        if n == "check" { let c = or(not(sel), t(0)); let v = self.under_pc(c, &pc, 4); self.vc(&pc, not(v), format!("check {}", id), "check"); }
                        else { let c = and(and(t(0), sel), ands(&pc)); self.covers.push((id, c)); }
                    }
                    none!()
                }
                "opaque" => { done!(t(0)) }
                "out" => { let id = cval(t(0)).unwrap() as u64; let v = t(1); self.out_vals.push((id, v)); none!() }
                "likely_const" => { let c = cval(t(0)).is_some(); done!(boolc(c)) }
                _ => fatal(&format!("unknown harness primitive {}", name)),
            }
        }
        let bare = name;
        if let Some(n) = bare.strip_prefix("llvm.") {
            if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || n.starts_with("donothing") { none!() }
            if n.starts_with("assume") { none!() }
            if n.starts_with("expect.") { done!(t(0)) }
            if n.starts_with("memcpy.") || n.starts_with("memmove.") {
                let len = cval(t(2)).unwrap_or_else(|| fatal(&format!("symbolic memcpy length in {}", caller.name))) as u64;
                let (d, s) = (t(0), t(1));
                self.memcpy(d, s, len, &mut st);
                none!()
            }
            if n.starts_with("memset.") {
                let len = cval(t(2)).unwrap_or_else(|| fatal("symbolic memset length")) as u64;
                let b = t(1); let d = t(0);
                let mut p = 0; while p < len { let k = (len - p).min(8); let v: Vec<T> = (0..k).map(|_| b).collect(); let v = concat(&v); let pp = lin(p as u128, vec![(d, 1)], 64); let pc = st.pc.clone(); self.store(pp, v, &pc, &mut st.mem); p += k; }
                none!()
            }
            if n.contains(".with.overflow.") {
                let (x, y) = (t(0), t(1)); let w = width(x);
                let signed = n.starts_with('s');
                let op = &n[1..4];
                let r = match op { "add" => bv_add(x, y), "sub" => bv_sub(x, y), _ => mul(x, y) };
                let o = overflow(op, signed, x, y, w);
                audit::op(op3(op), &[x, y], r); audit::op(op3(&n[..4]), &[x, y], o);
                return Some((V::A(Rc::new(vec![V::T(r), V::T(o)])), st));
            }
            let pre = n.split('.').next().unwrap();
            match pre {
                "smin" => { let (x, y) = (t(0), t(1)); done!(ite(slt(x, y), x, y)) }
                "smax" => { let (x, y) = (t(0), t(1)); done!(ite(slt(x, y), y, x)) }
                "umin" => { let (x, y) = (t(0), t(1)); done!(ite(ult(x, y), x, y)) }
                "umax" => { let (x, y) = (t(0), t(1)); done!(ite(ult(x, y), y, x)) }
                "abs" => { let x = t(0); let w = width(x); done!(ite(slt(x, cst(0, w)), bv_sub(cst(0, w), x), x)) }
                "fshl" | "fshr" => { let (x, y, s) = (t(0), t(1), t(2)); let w = width(x); match cval(s) { Some(s) => { let s = (s % w as u128) as u16; let cc = concat(&[y, x]); done!(if pre == "fshl" { extract(cc, 2 * w - 1 - s, w - s) } else { extract(cc, w - 1 + s, s) }) } None => {
                    let s2 = and(s, cst(w as u128 - 1, w)); let cc = concat(&[y, x]); let r = if pre == "fshl" { extract(shl(cc, zext(s2, 2 * w)), 2 * w - 1, w) } else { extract(lshr(cc, zext(s2, 2 * w)), w - 1, 0) }; done!(r) } } }
                "ctpop" => { let x = t(0); let w = width(x); let v: Vec<(T, u128)> = (0..w).map(|i| (zext(extract(x, i, i), w), 1)).collect(); done!(lin(0, v, w)) }
                "ctlz" => { let x = t(0); let w = width(x); let mut r = cst(w as u128, w); for i in 0..w { r = ite(extract(x, i, i), cst((w - 1 - i) as u128, w), r); } done!(r) }
                "cttz" => { let x = t(0); let w = width(x); let mut r = cst(w as u128, w); for i in (0..w).rev() { r = ite(extract(x, i, i), cst(i as u128, w), r); } done!(r) }
                "bswap" => { let x = t(0); let n = width(x) / 8; let v: Vec<T> = (0..n).rev().map(|i| extract(x, i * 8 + 7, i * 8)).collect(); done!(concat(&v)) }
                "uadd" | "usub" | "sadd" | "ssub" if n.contains(".sat.") => { let (x, y) = (t(0), t(1)); let w = width(x); let s = pre.starts_with('s'); let o = overflow(&pre[1..4], s, x, y, w); let r = if &pre[1..4] == "add" { bv_add(x, y) } else { bv_sub(x, y) };
                    let lim = if !s { if &pre[1..4] == "add" { cst(mask(w), w) } else { cst(0, w) } } else { ite(slt(x, cst(0, w)), cst(1 << (w - 1), w), cst((1 << (w - 1)) - 1, w)) }; done!(ite(o, lim, r)) }
                "ucmp" | "scmp" => { let (x, y) = (t(0), t(1)); let w = ret.bits(); let l = if pre == "ucmp" { ult(x, y) } else { slt(x, y) }; let e = eq(x, y); done!(ite(l, cst(mask(w), w), ite(e, cst(0, w), cst(1, w)))) }
                "fabs" => { let x = t(0); done!(match f_as_int(x) { Some(i) if cval(x).is_none() => fop(FK::SToF, &[ite(slt(i, cst(0, 64)), bv_sub(cst(0, 64), i), i)], 64), _ => and(x, cst(mask(63), 64)) }) }
                "sqrt" => done!(fop(FK::Sqrt, &[t(0)], 64)),
                "round" => done!(fop(FK::Round, &[t(0)], 64)),
                "trunc" => done!(fop(FK::Trunc, &[t(0)], 64)),
                "floor" => done!(fop(FK::Floor, &[t(0)], 64)),
                "ceil" => done!(fop(FK::Ceil, &[t(0)], 64)),
                "rint" | "nearbyint" | "roundeven" => done!(fop(FK::Rne, &[t(0)], 64)),
                "fptosi" => done!(fop(FK::FToSSat, &[t(0)], ret.bits())),
                "fptoui" => done!(fop(FK::FToUSat, &[t(0)], ret.bits())),
                "fmod" => done!(fop(FK::Rem, &[t(0), t(1)], 64)),
            "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "pow" => { let n = pre.to_string(); let v = (0..a.len()).map(|i| t(i)).collect(); done!(self.libm(&n, v)) }
                "minnum" | "minimumnum" => { let (x, y) = (t(0), t(1)); let l = fop(FK::Olt, &[x, y], 1); let nx = fop(FK::Uno, &[x, x], 1); let ny = fop(FK::Uno, &[y, y], 1); done!(ite(nx, y, ite(ny, x, ite(l, x, y)))) }
                "maxnum" | "maximumnum" => { let (x, y) = (t(0), t(1)); let l = fop(FK::Olt, &[x, y], 1); let nx = fop(FK::Uno, &[x, x], 1); let ny = fop(FK::Uno, &[y, y], 1); done!(ite(nx, y, ite(ny, x, ite(l, y, x)))) }
                "copysign" => { let (x, y) = (t(0), t(1)); done!(concat(&[extract(x, 62, 0), extract(y, 63, 63)])) }
                "trap" => { let pc = st.pc.clone(); self.vc(&pc, TRUE, format!("trap in {}", caller.name), "panic"); return None; }
                _ => fatal(&format!("intrinsic {}", name)),
            }
        }
        match bare {
            "fmod" => done!(fop(FK::Rem, &[t(0), t(1)], 64)),
            "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "pow" => { let v = (0..a.len()).map(|i| t(i)).collect(); done!(self.libm(bare, v)) }
            "round" => done!(fop(FK::Round, &[t(0)], 64)), "floor" => done!(fop(FK::Floor, &[t(0)], 64)), "ceil" => done!(fop(FK::Ceil, &[t(0)], 64)), "trunc" => done!(fop(FK::Trunc, &[t(0)], 64)),
            "memcmp" | "bcmp" => {
                let len = cval(t(2)).unwrap_or_else(|| fatal("symbolic memcmp length")) as u64;
                let mut e = TRUE; let mut res = cst(0, 32);
                for i in (0..len).rev() { let p = lin(i as u128, vec![(t(0), 1)], 64); let q = lin(i as u128, vec![(t(1), 1)], 64); let pc = st.pc.clone(); let x = self.load(p, 1, &pc, &st.mem); let y = self.load(q, 1, &pc, &st.mem); let q = eq(x, y); e = and(e, q); res = ite(q, res, ite(ult(x, y), cst(mask(32), 32), cst(1, 32))); }
                if bare == "bcmp" { done!(ite(e, cst(0, 32), cst(1, 32))) } else { done!(res) }
            }
            _ => {}
        }
        if bare.contains("rust_no_alloc_shim") { none!() }
        if bare.contains("___rust_alloc") || bare == "__rust_alloc" || bare.contains("___rust_alloc_zeroed") || bare == "__rust_alloc_zeroed" {
            let sz = match cval(t(0)) { Some(c) => c as u64, None => { let r = range(t(0)); if r.uhi > 1 << 20 { fatal(&format!("symbolic allocation size {}", show(t(0), 3))) } self.notes.insert("symbolic allocation size rounded up".into()); r.uhi as u64 } };
            if sz > 1 << 26 { fatal("allocation too large"); }
            let p = self.new_obj(&mut st.mem, sz);
            if bare.contains("zeroed") { let id = (p >> 32) as u32; let o = Rc::make_mut(st.mem.get_mut(&id).unwrap()); let mut q = 0; while q < sz { let k = (sz - q).min(8); o.store(q, cst(0, (k * 8) as u16)); q += k; } }
            done!(cst(p as u128, 64))
        }
        if bare.contains("___rust_realloc") || bare == "__rust_realloc" {
            let (old, osz, nsz) = (t(0), cval(t(1)), cval(t(3)));
            let (osz, nsz) = match (osz, nsz) { (Some(a), Some(b)) => (a as u64, b as u64), _ => fatal("symbolic realloc size") };
            let p = self.new_obj(&mut st.mem, nsz);
            self.memcpy(cst(p as u128, 64), old, osz.min(nsz), &mut st);
            if let Some(a) = cval(old) { st.mem.remove(&((a >> 32) as u32)); }
            done!(cst(p as u128, 64))
        }
        if bare.contains("___rust_dealloc") || bare == "__rust_dealloc" {
            if let Some(a) = cval(t(0)) { st.mem.remove(&((a >> 32) as u32)); }
            none!()
        }
        let key = { let k = format!("{}\u{1}{}", name, caller.file); if self.m.funcs.contains_key(&k) { k } else { name.to_string() } };
        if let Some(f) = self.m.funcs.get(&key) { let f: &'a Func = unsafe { &*(f as *const Func) }; return self.run(f, a, st); }
        let noret = self.m.decl_noreturn.get(name).copied().unwrap_or(false);
        if noret || name.contains("panicking") || name.contains("handle_error") || name.contains("handle_alloc_error") || name.contains("unwrap_failed") || name.contains("expect_failed") || name.contains("_fail") {
            let pc = st.pc.clone();
            self.vc(&pc, TRUE, format!("panic {} in {}", name, caller.name), "panic");
            return None;
        }
        // An unknown external call is only acceptable when it is unreachable.
        let pc = st.pc.clone();
        if let Some(mut fe) = self.feas.take() { let r = fe(&pc); self.feas = Some(fe); if r == Some(false) { return None; } }
        fatal(&format!("call to external function without IR: {} from {}", name, caller.name))
    }
    fn memcpy(&mut self, d: T, s: T, len: u64, st: &mut St) {
        if len == 0 { return; }
        let pc = st.pc.clone();
        if let (Some(da), Some(sa)) = (cval(d), cval(s)) {
            let (di, doff) = obj_of(da as u64); let (si, soff) = obj_of(sa as u64);
            let so = self.get_obj(&st.mem, si).cloned();
            if let Some(so) = so {
                if soff >= 0 && soff as u64 + len <= so.size && doff >= 0 && st.mem.get(&di).map(|o| doff as u64 + len <= o.size).unwrap_or(false) {
                    let mut pieces: Vec<(u64, T)> = vec![];
                    let (s0, e0) = (soff as u64, soff as u64 + len);
                    if so.bytes.is_some() { let mut p = 0; while p < len { let k = if so.bytes.as_ref().unwrap().1.contains_key(&(s0 + p)) { 8 } else { (len - p).min(8).min(8 - (s0 + p) % 8) }; let k = k.min(len - p); pieces.push((p, so.load(s0 + p, k))); p += k; } }
                    else { let mut cuts: Vec<u64> = vec![s0, e0]; for (k, (l, _)) in so.ents.range(..e0) { if k + l > s0 { cuts.push((*k).max(s0)); cuts.push((k + l).min(e0)); } } cuts.sort(); cuts.dedup();
                        for w in cuts.windows(2) { if w[1] - w[0] <= 16 { let t = so.load(w[0], w[1] - w[0]); pieces.push((w[0] - s0, t)); } else { let mut p = w[0]; while p < w[1] { let k = (w[1] - p).min(16); pieces.push((p - s0, so.load(p, k))); p += k; } } } }
                    let o = Rc::make_mut(st.mem.get_mut(&di).unwrap());
                    for (p, t) in pieces { if is_undef(t) { o.clear(doff as u64 + p, width(t) as u64 / 8); } else { o.store(doff as u64 + p, t); } }
                    return;
                }
            }
        }
        let mut p = 0;
        let mut vals = vec![];
        while p < len { let k = (len - p).min(8); let sp = lin(p as u128, vec![(s, 1)], 64); let v = self.load(sp, k, &pc, &st.mem); vals.push((p, v)); p += k; }
        for (p, v) in vals { if is_undef(v) { continue; } let dp = lin(p as u128, vec![(d, 1)], 64); self.store(dp, v, &pc, &mut st.mem); }
    }
}
fn best_pair(v: &[&[T]]) -> (usize, usize) {
    let mut best = (0, 1); let mut bl = -1i64;
    for i in 0..v.len() { for j in i + 1..v.len() { let l = lcp(v[i], v[j]) as i64; if l > bl { bl = l; best = (i, j); } } }
    best
}
pub fn icmp(p: &str, x: T, y: T) -> T {
    match p {
        "eq" => eq(x, y), "ne" => not(eq(x, y)), "ult" => ult(x, y), "ugt" => ult(y, x), "ule" => not(ult(y, x)), "uge" => not(ult(x, y)),
        "slt" => slt(x, y), "sgt" => slt(y, x), "sle" => not(slt(y, x)), "sge" => not(slt(x, y)), _ => fatal("icmp"),
    }
}
pub fn overflow(op: &str, signed: bool, x: T, y: T, w: u16) -> T {
    let (a, b) = (range(x), range(y));
    if w <= 64 {
        if signed {
            let c = match op { "add" => (a.slo + b.slo, a.shi + b.shi), "sub" => (a.slo - b.shi, a.shi - b.slo), _ => { let v = [a.slo * b.slo, a.slo * b.shi, a.shi * b.slo, a.shi * b.shi]; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) } };
            let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1;
            if c.0 >= lo && c.1 <= hi { return FALSE; }
        } else {
            match op { "add" => if a.uhi + b.uhi <= mask(w) { return FALSE; }, "sub" => return ult(x, y), _ => if a.uhi.checked_mul(b.uhi).map(|p| p <= mask(w)).unwrap_or(false) { return FALSE; } }
        }
    }
    // Ites with a common structure: decide per branch when one operand is constant
    let (nw, mulop) = if op == "mul" { ((2 * w).min(128), true) } else { (w + 1, false) };
    if nw < w + 1 { fatal("overflow width"); }
    if !signed && op == "add" { let r = bv_add(x, y); return ult(r, x); }
    let (p, q) = if signed { (sext(x, nw), sext(y, nw)) } else { (zext(x, nw), zext(y, nw)) };
    let r = match op { "add" => bv_add(p, q), "sub" => bv_sub(p, q), _ => mul(p, q) };
    let _ = mulop;
    if signed {
        let lo = cst((-(1i128 << (w - 1))) as u128, nw); let hi = cst(((1i128 << (w - 1)) - 1) as u128, nw);
        or(slt(r, lo), slt(hi, r))
    } else { not(ult(r, cst(1u128 << w, nw))) }
}

const PREDS: [&str; 10] = ["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"];
fn op3(s: &str) -> &'static str { match s { "add" => "add", "sub" => "sub", "mul" => "mul", "sadd" => "sadd.o", "uadd" => "uadd.o", "ssub" => "ssub.o", "usub" => "usub.o", "smul" => "smul.o", "umul" => "umul.o", _ => "?" } }

/// does the condition depend on a floating-point operation (searched to a limited depth)
fn has_f(t: T) -> bool {
    let mut seen = std::collections::HashSet::new(); let mut st = vec![t];
    while let Some(t) = st.pop() { if !seen.insert(t) { continue; } if seen.len() > 400 { return false; } match kind(t) { K::F(..) => return true, k => children(k, &mut |x| st.push(x)) } }
    false
}
