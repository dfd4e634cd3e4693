//! Parser for the subset of LLVM textual IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u16), F64, F32, Ptr, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Meta }

impl Ty {
    pub fn align(&self) -> u64 {
        match self { Ty::Void | Ty::Meta => 1, Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) } Ty::F64 | Ty::Ptr => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(), Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(|x| x.align()).max().unwrap_or(1) } }
    }
    pub fn size(&self) -> u64 {
        match self { Ty::Void | Ty::Meta => 0, Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; if b > 8 { 16 } else { b.next_power_of_two() } } Ty::F64 | Ty::Ptr => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, _) => { let mut o = 0; for (i, _) in v.iter().enumerate() { o = self.field_off(i) + v[i].size(); } let a = self.align(); (o + a - 1) / a * a } }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        if let Ty::Struct(v, packed) = self {
            let mut o = 0u64;
            for (j, t) in v.iter().enumerate() {
                if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                if j == i { return o; }
                o += t.size();
            }
        }
        panic!("field_off")
    }
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::F64 | Ty::Ptr => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) } }
}

#[derive(Clone, Debug)]
pub enum Val {
    Reg(u32),
    Int(u128),
    Undef,
    Zero,
    Global(String),
    Gep(Box<Val>, i64),
    Agg(Vec<(Ty, Val)>),
    Bytes(Vec<u8>),
    Meta,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(&'static str, Ty, Val, Val),
    ICmp(String, Ty, Val, Val),
    FCmp(String, Val, Val),
    Cast(String, Ty, Val, Ty),
    Select(Val, Ty, Val, Val),
    Phi(Ty, Vec<(Val, u32)>),
    Load(Ty, Val),
    Store(Ty, Val, Val),
    Gep(Ty, Val, Vec<(Ty, Val)>),
    Alloca(u64),
    Call { callee: Val, ret: Ty, args: Vec<(Ty, Val)> },
    ExtractValue(Ty, Val, Vec<u32>),
    InsertValue(Ty, Val, Ty, Val, Vec<u32>),
    FNeg(Val),
    Freeze(Val),
    Br(u32),
    CondBr(Val, u32, u32),
    Switch(Ty, Val, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Val)>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: Option<u32>, pub op: Op, pub line: u32 }
pub struct Block { pub insts: Vec<Inst>, pub name: String }
pub struct Func { pub name: String, pub params: Vec<(Ty, u32)>, pub ret: Ty, pub blocks: Vec<Block>, pub nregs: u32, pub file: usize }
pub struct Global { pub name: String, pub ty: Ty, pub init: Val, pub constant: bool, pub align: u64 }
#[derive(Default)]
pub struct Module { pub funcs: HashMap<String, Func>, pub globals: HashMap<String, Global>, pub decl_noreturn: HashMap<String, bool>, pub decls: HashMap<String, Ty> }

#[derive(Clone, PartialEq, Debug)]
enum Tok { Id(String), Reg(String), Glob(String), Num(String), Str(Vec<u8>), P(char), Attr, MetaTok(String) }

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0; let mut v = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' { i += 1; continue; }
        if c == b';' { break; }
        if c == b'%' || c == b'@' {
            i += 1;
            let n = if b[i] == b'"' { let j = i + 1; let mut k = j; while b[k] != b'"' { k += 1; } i = k + 1; s[j..k].to_string() }
                else { let j = i; while i < b.len() && isid(b[i]) { i += 1; } s[j..i].to_string() };
            v.push(if c == b'%' { Tok::Reg(n) } else { Tok::Glob(n) });
            continue;
        }
        if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' || c == b'"' {
            let mut k = if c == b'"' { i + 1 } else { i + 2 };
            let mut o = vec![];
            while b[k] != b'"' {
                if b[k] == b'\\' { if b[k + 1] == b'\\' { o.push(b'\\'); k += 2; } else { o.push(u8::from_str_radix(&s[k + 1..k + 3], 16).unwrap()); k += 3; } } else { o.push(b[k]); k += 1; }
            }
            i = k + 1;
            v.push(Tok::Str(o));
            continue;
        }
        if c == b'#' { i += 1; while i < b.len() && isid(b[i]) { i += 1; } v.push(Tok::Attr); continue; }
        if c == b'!' { i += 1; let j = i; while i < b.len() && isid(b[i]) { i += 1; } v.push(Tok::MetaTok(s[j..i].to_string())); continue; }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let j = i; i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E') && !s[j..i].starts_with("0x"))) { i += 1; }
            v.push(Tok::Num(s[j..i].to_string()));
            continue;
        }
        if c == b'f' && s[i + 1..].starts_with("0x") { let j = i; i += 3; while i < b.len() && b[i].is_ascii_hexdigit() { i += 1; } v.push(Tok::Num(s[j..i].to_string())); continue; }
        if (c == b'+' || c == b'-') && (s[i + 1..].starts_with("inf") || s[i + 1..].starts_with("qnan") || s[i + 1..].starts_with("nan")) {
            let j = i; i += 1; while i < b.len() && b[i].is_ascii_alphabetic() { i += 1; }
            v.push(Tok::Num(s[j..i].to_string()));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let j = i; while i < b.len() && isid(b[i]) { i += 1; }
            v.push(Tok::Id(s[j..i].to_string()));
            continue;
        }
        v.push(Tok::P(c as char)); i += 1;
    }
    v
}

struct P<'a> { t: &'a [Tok], i: usize, regs: &'a mut HashMap<String, u32>, blocks: &'a mut HashMap<String, u32>, types: &'a HashMap<String, Ty>, line: &'a str }
impl<'a> P<'a> {
    fn err(&self, m: &str) -> ! { panic!("IR parse error: {} at token {} of: {}", m, self.i, self.line) }
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Tok { let t = self.t.get(self.i).cloned().unwrap_or_else(|| self.err("eol")); self.i += 1; t }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn isid(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if x == s) }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.i += 1; true } else { false } }
    fn expp(&mut self, c: char) { if !self.eatp(c) { self.err(&format!("expected {}", c)); } }
    fn reg(&mut self, n: &str) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(l) }
    fn blk(&mut self, n: &str) -> u32 { let l = self.blocks.len() as u32; *self.blocks.entry(n.to_string()).or_insert(l) }
    fn skip_paren(&mut self) { self.expp('('); let mut d = 1; while d > 0 { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} } } }
    fn ty_opt(&mut self) -> Option<Ty> {
        match self.peek()?.clone() {
            Tok::Id(s) => {
                let t = match s.as_str() {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "double" => Ty::F64, "float" => Ty::F32, "metadata" => Ty::Meta,
                    _ if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
                    _ => return None,
                };
                self.i += 1; Some(t)
            }
            Tok::P('[') => { self.i += 1; let n = self.num() as u64; if !self.eatid("x") { self.err("x"); } let t = self.ty(); self.expp(']'); Some(Ty::Arr(n, Rc::new(t))) }
            Tok::P('{') => { self.i += 1; let mut v = vec![]; if !self.eatp('}') { loop { v.push(self.ty()); if self.eatp('}') { break; } self.expp(','); } } Some(Ty::Struct(Rc::new(v), false)) }
            Tok::P('<') => {
                if self.t.get(self.i + 1) == Some(&Tok::P('{')) {
                    self.i += 2; let mut v = vec![]; if !self.eatp('}') { loop { v.push(self.ty()); if self.eatp('}') { break; } self.expp(','); } } self.expp('>'); Some(Ty::Struct(Rc::new(v), true))
                } else { self.err("vector type") }
            }
            Tok::Reg(n) => { if let Some(t) = self.types.get(&n) { self.i += 1; Some(t.clone()) } else { None } }
            _ => None,
        }
    }
    fn ty(&mut self) -> Ty { match self.ty_opt() { Some(t) => t, None => self.err("type") } }
    fn num(&mut self) -> i128 { match self.next() { Tok::Num(s) => s.parse().unwrap_or_else(|_| self.err("num")), _ => self.err("num") } }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if matches!(s.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint") { return; }
                    if s == "void" || s == "ptr" || s == "double" || s == "float" || s == "metadata" || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())) { return; }
                    self.i += 1;
                    if self.isp('(') { self.skip_paren(); }
                    else if s == "align" { self.i += 1; }
                }
                Some(Tok::Attr) => { self.i += 1; }
                _ => return,
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> Val {
        match self.next() {
            Tok::Reg(n) => Val::Reg(self.reg(&n)),
            Tok::Glob(n) => Val::Global(n),
            Tok::Num(s) => {
                match ty {
                    Ty::F64 => Val::Int(parse_f(&s)),
                    _ => { let v: i128 = match s.parse::<i128>() { Ok(v) => v, Err(_) => match s.parse::<u128>() { Ok(v) => v as i128, Err(_) => self.err("int literal") } }; let w = ty.bits(); Val::Int(v as u128 & crate::term::mask(w)) }
                }
            }
            Tok::Str(b) => Val::Bytes(b),
            Tok::Id(s) => match s.as_str() {
                "true" => Val::Int(1), "false" => Val::Int(0), "null" => Val::Int(0),
                "undef" | "poison" => Val::Undef, "zeroinitializer" => Val::Zero,
                "splat" => self.err("splat"),
                "getelementptr" => {
                    self.attrs();
                    self.expp('(');
                    let ety = self.ty(); self.expp(',');
                    let _ = self.ty(); let base = self.val(&Ty::Ptr);
                    let mut off = 0i64; let mut cur = ety; let mut first = true;
                    while self.eatp(',') {
                        self.attrs();
                        let t = self.ty(); let v = self.val(&t);
                        let k = match v { Val::Int(c) => crate::term::tosigned(c, t.bits()) as i64, _ => self.err("const gep idx") };
                        if first { off += k * cur.size() as i64; first = false; }
                        else { match cur.clone() { Ty::Arr(_, e) => { off += k * e.size() as i64; cur = (*e).clone(); } Ty::Struct(ref f, _) => { off += cur.field_off(k as usize) as i64; cur = f[k as usize].clone(); } _ => self.err("gep") } }
                    }
                    self.expp(')');
                    Val::Gep(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" => { self.expp('('); let t = self.ty(); let v = self.val(&t); self.eatid("to"); self.ty(); self.expp(')'); v }
                _ => self.err(&format!("value {}", s)),
            },
            Tok::MetaTok(_) => { if self.isp('{') { let mut d = 0; loop { match self.next() { Tok::P('{') => d += 1, Tok::P('}') => { d -= 1; if d == 0 { break; } } _ => {} } } } else if self.isp('(') { self.skip_paren(); } Val::Meta }
            Tok::P('{') => { let mut v = vec![]; if !self.eatp('}') { loop { let t = self.ty(); let x = self.val(&t); v.push((t, x)); if self.eatp('}') { break; } self.expp(','); } } Val::Agg(v) }
            Tok::P('[') => { let mut v = vec![]; if !self.eatp(']') { loop { let t = self.ty(); let x = self.val(&t); v.push((t, x)); if self.eatp(']') { break; } self.expp(','); } } Val::Agg(v) }
            Tok::P('<') => { if !self.eatp('{') { self.err("vector constant"); } let mut v = vec![]; loop { let t = self.ty(); let x = self.val(&t); v.push((t, x)); if self.eatp('}') { break; } self.expp(','); } self.expp('>'); Val::Agg(v) }
            _ => self.err("value"),
        }
    }
    fn tyval(&mut self) -> (Ty, Val) { let t = self.ty(); self.attrs(); let v = self.val(&t); (t, v) }
}
fn parse_f(s: &str) -> u128 {
    if let Some(h) = s.strip_prefix("f0x").or_else(|| s.strip_prefix("0x")) { u64::from_str_radix(h, 16).unwrap() as u128 } else { match s { "+qnan" | "+nan" => 0x7ff8000000000000, "-qnan" | "-nan" => 0xfff8000000000000, _ => s.parse::<f64>().unwrap().to_bits() as u128 } }
}

const BINS: [&str; 18] = ["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"];

pub fn parse(text: &str, m: &mut Module, file: usize) {
    let lines: Vec<&str> = text.lines().collect();
    let mut types: HashMap<String, Ty> = HashMap::new();
    // attribute groups containing noreturn
    let mut nr: HashMap<String, bool> = HashMap::new();
    for l in &lines {
        if l.starts_with("attributes #") { let n = l["attributes ".len()..].split(' ').next().unwrap().to_string(); nr.insert(n, l.contains(" noreturn ")); }
    }
    let suffix = |n: &str| n.to_string();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l);
            let mut r = HashMap::new(); let mut b = HashMap::new();
            let name = if let Tok::Reg(n) = &t[0] { n.clone() } else { String::new() };
            let ty = { let mut p = P { t: &t, i: 3, regs: &mut r, blocks: &mut b, types: &types, line: l }; p.ty_opt() };
            if let Some(ty) = ty { types.insert(name, ty); }
            i += 1; continue;
        }
        if l.starts_with('@') {
            let t = lex(l);
            let types2 = &types; let mm = &mut *m;
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let m = mm;
            let mut r = HashMap::new(); let mut b = HashMap::new();
            let mut p = P { t: &t, i: 0, regs: &mut r, blocks: &mut b, types: types2, line: l };
            let name = match p.next() { Tok::Glob(n) => n, _ => p.err("global") };
            p.expp('=');
            let mut constant = false; let mut external = false; let mut alias = false; let mut private = false;
            loop {
                match p.peek() {
                    Some(Tok::Id(s)) if s == "constant" => { constant = true; p.i += 1; break; }
                    Some(Tok::Id(s)) if s == "global" => { p.i += 1; break; }
                    Some(Tok::Id(s)) if s == "alias" => { alias = true; break; }
                    Some(Tok::Id(s)) => { if s == "external" { external = true; } if s == "private" || s == "internal" { private = true; } p.i += 1; if p.isp('(') { p.skip_paren(); } }
                    _ => break,
                }
            }
            if alias { return; }
            let ty = p.ty();
            let gname = if private { format!("{}\u{1}{}", name, file) } else { name.clone() };
            let init = if external { Val::Undef } else { p.val(&ty) };
            let mut align = 1;
            while p.i < p.t.len() { if p.eatid("align") { align = p.num() as u64; } else { p.i += 1; } }
            if !external || !m.globals.contains_key(&gname) { m.globals.insert(gname.clone(), Global { name: gname, ty, init, constant, align }); }
            }));
            i += 1; continue;
        }
        if l.starts_with("declare ") {
            let t = lex(l);
            let name = t.iter().find_map(|x| if let Tok::Glob(n) = x { Some(n.clone()) } else { None });
            if let Some(n) = name {
                // prefix with attribute comment or group
                let g = l.rsplit('#').next().map(|x| format!("#{}", x.split(' ').next().unwrap_or("")));
                let is = l.contains(" noreturn ") || g.map(|g| nr.get(&g).copied().unwrap_or(false)).unwrap_or(false);
                m.decl_noreturn.insert(suffix(&n), is);
            }
            i += 1; continue;
        }
        if l.starts_with("define ") {
            let t = lex(l);
            let mut regs = HashMap::new(); let mut blks = HashMap::new();
            let internal = l.starts_with("define internal") || l.starts_with("define private");
            let hdr = { let (rr, bb, tt) = (&mut regs, &mut blks, &types); std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let (regs, blks, types) = (rr, bb, tt);
                let mut p = P { t: &t, i: 1, regs, blocks: blks, types, line: l };
                let ret;
                loop {
                    // linkage words, attributes, then the type
                    p.attrs();
                    if let Some(ty) = p.ty_opt() { ret = ty; break; }
                    p.err("define type");
                }
                let name = match p.next() { Tok::Glob(n) => n, _ => p.err("fname") };
                p.expp('(');
                let mut params = vec![]; let mut anon = 0;
                if !p.eatp(')') {
                    loop {
                        if p.isp('.') { p.err("varargs"); }
                        let ty = p.ty(); p.attrs();
                        let rn = if let Some(Tok::Reg(n)) = p.peek().cloned() { p.i += 1; n } else { let n = format!("{}", anon); n };
                        if rn.bytes().all(|c| c.is_ascii_digit()) { anon += 1; }
                        let r = p.reg(&rn);
                        params.push((ty, r));
                        if p.eatp(')') { break; }
                        p.expp(',');
                    }
                }
                (name, params, ret)
            })) };
            let (name, params, ret) = match hdr { Ok(x) => x, Err(_) => { while lines[i] != "}" { i += 1; } i += 1; continue; } };
            let _ = internal;
            let fname = if internal { format!("{}\u{1}{}", name, file) } else { name.clone() };
            let mut blocks: Vec<Option<Block>> = vec![];
            i += 1;
            let mut cur: Option<u32> = None;
            let mut insts: Vec<Inst> = vec![];
            let mut names: Vec<(u32, String, Vec<Inst>)> = vec![];
            while lines[i] != "}" {
                let mut l = lines[i].to_string();
                i += 1;
                if l.trim().is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") { continue; }
                if !l.starts_with(' ') {
                    // label
                    let lab = l.split(':').next().unwrap().trim_matches('"').to_string();
                    // careful: labels may contain ':' inside quotes
                    let lab = if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { lab };
                    if let Some(c) = cur.take() { names.push((c, String::new(), std::mem::take(&mut insts))); }
                    let n = blks.len() as u32; let id = *blks.entry(lab.clone()).or_insert(n);
                    cur = Some(id);
                    continue;
                }
                if cur.is_none() { let n = blks.len() as u32; let id = *blks.entry("0".to_string()).or_insert(n); cur = Some(id); }
                if l.trim_start().starts_with("switch ") && l.trim_end().ends_with('[') {
                    while !lines[i].trim_start().starts_with(']') { l.push(' '); l.push_str(lines[i].trim()); i += 1; }
                    l.push_str(" ]"); i += 1;
                }
                let toks = lex(&l);
                let r = { let (rr, bb, tt) = (&mut regs, &mut blks, &types); std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut p = P { t: &toks, i: 0, regs: rr, blocks: bb, types: tt, line: &l }; inst(&mut p, i as u32) })) };
                insts.push(r.unwrap_or_else(|_| Inst { dst: None, op: Op::Unsupported(l.trim().to_string()), line: i as u32 }));
            }
            if let Some(c) = cur.take() { names.push((c, String::new(), std::mem::take(&mut insts))); }
            i += 1;
            let entry = names[0].0;
            blocks.resize_with(blks.len(), || None);
            let inv: HashMap<u32, String> = blks.iter().map(|(k, v)| (*v, k.clone())).collect();
            for (id, _, ins) in names { blocks[id as usize] = Some(Block { insts: ins, name: inv[&id].clone() }); }
            if entry != 0 { crate::term::fatal("entry block index"); }
            let f = Func { name: fname.clone(), params, ret, blocks: blocks.into_iter().map(|b| b.unwrap_or(Block { insts: vec![], name: String::new() })).collect(), nregs: regs.len() as u32, file };
            m.funcs.insert(fname, f);
            continue;
        }
        i += 1;
    }
}

fn inst(p: &mut P, line: u32) -> Inst {
    let mut dst = None;
    if let Some(Tok::Reg(n)) = p.peek().cloned() { if p.t.get(1) == Some(&Tok::P('=')) { dst = Some(p.reg(&n)); p.i = 2; } }
    let op = match p.next() { Tok::Id(s) => s, _ => p.err("opcode") };
    let k = match op.as_str() {
        o if BINS.contains(&o) => {
            let st = BINS.iter().find(|x| **x == o).unwrap();
            skip_flags(p);
            let t = p.ty(); let a = p.val(&t); p.expp(','); let b = p.val(&t);
            Op::Bin(st, t, a, b)
        }
        "icmp" => { p.eatid("samesign"); let pr = match p.next() { Tok::Id(s) => s, _ => p.err("pred") }; let t = p.ty(); let a = p.val(&t); p.expp(','); let b = p.val(&t); Op::ICmp(pr, t, a, b) }
        "fcmp" => { skip_flags(p); let pr = match p.next() { Tok::Id(s) => s, _ => p.err("pred") }; let t = p.ty(); if t != Ty::F64 { p.err("fcmp type"); } let a = p.val(&t); p.expp(','); let b = p.val(&t); Op::FCmp(pr, a, b) }
        "fneg" => { skip_flags(p); let t = p.ty(); if t != Ty::F64 { p.err("fneg type"); } Op::FNeg(p.val(&t)) }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fptrunc" | "fpext" | "ptrtoaddr" => { skip_flags(p); let t = p.ty(); let v = p.val(&t); if !p.eatid("to") { p.err("to"); } let t2 = p.ty(); Op::Cast(op.clone(), t, v, t2) }
        "select" => { skip_flags(p); let ct = p.ty(); let c = p.val(&ct); p.expp(','); let t = p.ty(); let a = p.val(&t); p.expp(','); let _ = p.ty(); let b = p.val(&t); Op::Select(c, t, a, b) }
        "phi" => {
            skip_flags(p);
            let t = p.ty(); let mut v = vec![];
            loop { p.expp('['); let x = p.val(&t); p.expp(','); let b = match p.next() { Tok::Reg(n) => p.blk(&n), _ => p.err("phi blk") }; p.expp(']'); v.push((x, b)); if !p.isp(',') || !matches!(p.t.get(p.i + 1), Some(Tok::P('['))) { break; } p.expp(','); }
            Op::Phi(t, v)
        }
        "load" => { p.eatid("volatile"); if p.eatid("atomic") { p.err("atomic"); } let t = p.ty(); p.expp(','); let (_, a) = p.tyval(); Op::Load(t, a) }
        "store" => { p.eatid("volatile"); if p.eatid("atomic") { p.err("atomic"); } let (t, v) = p.tyval(); p.expp(','); let (_, a) = p.tyval(); Op::Store(t, v, a) }
        "getelementptr" => {
            while let Some(Tok::Id(s)) = p.peek() { if matches!(s.as_str(), "inbounds" | "nuw" | "nusw" | "inrange") { p.i += 1; if p.isp('(') { p.skip_paren(); } } else { break; } }
            let t = p.ty(); p.expp(','); let (_, base) = p.tyval();
            let mut ix = vec![];
            while p.isp(',') { if matches!(p.t.get(p.i + 1), Some(Tok::MetaTok(_))) { break; } p.i += 1; ix.push(p.tyval()); }
            Op::Gep(t, base, ix)
        }
        "alloca" => { let t = p.ty(); let mut n = 1; if p.eatp(',') { if let Some(t2) = p.ty_opt() { match p.val(&t2) { Val::Int(c) => n = c as u64, _ => p.err("dynamic alloca") } } } Op::Alloca(t.size() * n) }
        "tail" | "notail" | "musttail" | "call" => {
            if op != "call" && !p.eatid("call") { p.err("call"); }
            // fast-math, cc, return attributes
            p.attrs();
            let ret = p.ty();
            if p.isp('(') { p.err("function type call"); }
            let callee = match p.next() { Tok::Glob(n) => Val::Global(n), Tok::Reg(n) => Val::Reg(p.reg(&n)), Tok::Id(s) if s == "asm" => Val::Global("asm".into()), _ => p.err("callee") };
            let mut args = vec![];
            if let Val::Global(n) = &callee { if n == "asm" { return Inst { dst, op: Op::Call { callee, ret, args }, line }; } }
            p.expp('(');
            if !p.eatp(')') { loop { args.push(p.tyval()); if p.eatp(')') { break; } p.expp(','); } }
            Op::Call { callee, ret, args }
        }
        "extractvalue" => { let (t, v) = p.tyval(); let mut ix = vec![]; while p.isp(',') { if matches!(p.t.get(p.i + 1), Some(Tok::MetaTok(_))) { break; } p.i += 1; ix.push(p.num() as u32); } Op::ExtractValue(t, v, ix) }
        "insertvalue" => { let (t, v) = p.tyval(); p.expp(','); let (t2, e) = p.tyval(); let mut ix = vec![]; while p.isp(',') { if matches!(p.t.get(p.i + 1), Some(Tok::MetaTok(_))) { break; } p.i += 1; ix.push(p.num() as u32); } Op::InsertValue(t, v, t2, e, ix) }
        "freeze" => { let (_, v) = p.tyval(); Op::Freeze(v) }
        "br" => {
            if p.eatid("label") { match p.next() { Tok::Reg(n) => Op::Br(p.blk(&n)), _ => p.err("br") } }
            else { let (_, c) = p.tyval(); p.expp(','); p.eatid("label"); let a = match p.next() { Tok::Reg(n) => p.blk(&n), _ => p.err("br") }; p.expp(','); p.eatid("label"); let b = match p.next() { Tok::Reg(n) => p.blk(&n), _ => p.err("br") }; Op::CondBr(c, a, b) }
        }
        "switch" => {
            let (t, v) = p.tyval(); p.expp(','); p.eatid("label"); let d = match p.next() { Tok::Reg(n) => p.blk(&n), _ => p.err("sw") };
            p.expp('['); let mut cs = vec![];
            while !p.eatp(']') { let t2 = p.ty(); let c = match p.val(&t2) { Val::Int(c) => c, _ => p.err("case") }; p.expp(','); p.eatid("label"); let b = match p.next() { Tok::Reg(n) => p.blk(&n), _ => p.err("sw") }; cs.push((c, b)); }
            Op::Switch(t, v, d, cs)
        }
        "ret" => { let t = p.ty(); if t == Ty::Void { Op::Ret(None) } else { let v = p.val(&t); Op::Ret(Some((t, v))) } }
        "unreachable" => Op::Unreachable,
        _ => p.err(&format!("opcode {}", op)),
    };
    Inst { dst, op: k, line }
}
fn skip_flags(p: &mut P) {
    while let Some(Tok::Id(s)) = p.peek() {
        if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.i += 1; } else { break; }
    }
}

pub fn regs_of(v: &Val, f: &mut dyn FnMut(u32)) { match v { Val::Reg(r) => f(*r), Val::Gep(b, _) => regs_of(b, f), Val::Agg(vs) => for (_, x) in vs { regs_of(x, f) }, _ => {} } }
/// every value operand of an instruction (phi operands excluded)
pub fn op_vals(o: &Op, f: &mut dyn FnMut(&Val)) {
    match o {
        Op::Bin(_, _, a, b) | Op::ICmp(_, _, a, b) | Op::FCmp(_, a, b) | Op::Store(_, a, b) | Op::InsertValue(_, a, _, b, _) => { f(a); f(b) }
        Op::Cast(_, _, a, _) | Op::Load(_, a) | Op::ExtractValue(_, a, _) | Op::FNeg(a) | Op::Freeze(a) | Op::CondBr(a, _, _) | Op::Switch(_, a, _, _) => f(a),
        Op::Select(a, _, b, c) => { f(a); f(b); f(c) }
        Op::Gep(_, a, ix) => { f(a); for (_, v) in ix { f(v) } }
        Op::Call { callee, args, .. } => { f(callee); for (_, v) in args { f(v) } }
        Op::Ret(Some((_, v))) => f(v),
        Op::Phi(..) | Op::Alloca(_) | Op::Br(_) | Op::Ret(None) | Op::Unreachable | Op::Unsupported(_) => {}
    }
}
