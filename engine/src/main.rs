mod audit; mod exec; mod ir; mod smt; mod term;
use exec::*; use smt::*; use std::collections::{BTreeMap, HashMap}; use term::*;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    let th = std::thread::Builder::new().stack_size(8 << 30).spawn(real).unwrap();
    let r = th.join();
    std::process::exit(match r { Ok(c) => c, Err(_) => 3 });
}

fn real() -> i32 {
    let mut lls: Vec<String> = vec![]; let mut harness = String::new(); let mut params = HashMap::new(); let mut timeout = 300u64; let mut bins = vec!["z3-new".to_string()];
    let mut conc: Option<HashMap<u64, u64>> = None; let mut out = String::new(); let mut keep = false; let mut verbose = false; let mut seed = 1u64; let mut max_iter = 400; let mut feas_after = 30; let mut dir = "/tmp".to_string(); let mut memkb = 6 << 20; let mut vtime = 0u64; let mut split = false; let mut diagrams = false; let mut budget = 800u64; let mut kinds: Option<String> = None; let mut covers_req = true; let mut aud = 0usize; let mut aud_secs = 10u64; let mut fix: HashMap<u64, u64> = HashMap::new();
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut n = || a.next().unwrap_or_default();
        match x.as_str() {
            "--ll" => lls.extend(n().split(',').map(|s| s.to_string())),
            "--harness" => harness = n(), "--timeout" => timeout = n().parse().unwrap(), "--solvers" => bins = n().split(',').map(|s| s.to_string()).collect(),
            "--param" => { let s = n(); let (k, v) = s.split_once('=').unwrap(); params.insert(k.parse().unwrap(), v.parse().unwrap()); }
            "--conc" => { let s = n(); let mut m = HashMap::new(); for p in s.split(',') { if let Some((k, v)) = p.split_once('=') { m.insert(k.parse().unwrap(), v.parse().unwrap()); } } conc = Some(m); }
            "--audit" => aud = n().parse().unwrap(), "--audit-secs" => aud_secs = n().parse().unwrap(),
            "--fix" => { let s = n(); for p in s.split(',') { if let Some((k, v)) = p.split_once('=') { fix.insert(k.parse().unwrap(), v.parse().unwrap()); } } }
            "--out" => out = n(), "--keep" => keep = true, "-v" => verbose = true, "--seed" => seed = n().parse().unwrap(), "--max-iter" => max_iter = n().parse().unwrap(), "--feas-after" => feas_after = n().parse().unwrap(), "--dir" => dir = n(), "--mem" => memkb = n().parse().unwrap(), "--vtime" => vtime = n().parse().unwrap(), "--split" => split = true, "--diagrams" => diagrams = true, "--budget" => budget = n().parse().unwrap(), "--kinds" => kinds = Some(n()), "--no-covers" => covers_req = false,
            _ => { eprintln!("unknown option {}", x); return 4; }
        }
    }
    let t0 = std::time::Instant::now();
    term::init(seed);
    term::st().diagrams = diagrams;
    audit::init(if conc.is_some() { 0 } else { aud }, seed);
    let mut m = ir::Module::default();
    { let hook = std::panic::take_hook(); std::panic::set_hook(Box::new(|_| {}));
      for (i, f) in lls.iter().enumerate() { let t = std::fs::read_to_string(f).unwrap_or_else(|e| fatal(&format!("{}: {}", f, e))); ir::parse(&t, &mut m, i); }
      std::panic::set_hook(hook); }
    let hkey = if m.funcs.contains_key(&harness) { harness.clone() } else { fatal(&format!("harness {} not found", harness)) };
    if verbose { eprintln!("parsed {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64()); }
    let mut ex = Exec::new(&m);
    ex.params = params; ex.conc = conc; ex.fix = fix; ex.max_iter = max_iter; ex.feas_after = feas_after;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(budget);
    ex.deadline = std::time::Instant::now() + std::time::Duration::from_secs(budget * 3 / 4);
    let solver = std::rc::Rc::new(std::cell::RefCell::new(Solver { quick: false, bins: bins.clone(), dir, stats: Default::default(), n: 0, keep, memkb }));
    let s2 = solver.clone();
    ex.feas = Some(Box::new(move |pc: &[T]| { let mut s = s2.borrow_mut(); s.quick = true; let r = s.solve(pc, 10); s.quick = false; match r { Ans::Unsat => Some(false), Ans::Sat(_) => Some(true), Ans::Unknown(_) => None } }));
    let mut aborted = String::new();
    let fin = {
        use std::sync::atomic::Ordering::Relaxed;
        let hook = std::panic::take_hook(); std::panic::set_hook(Box::new(|_| {}));
        IN_EXEC.store(true, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.call(&hkey, vec![], St { pc: vec![], mem: Default::default() })));
        IN_EXEC.store(false, Relaxed);
        std::panic::set_hook(hook);
        match r {
            Ok(f) => f,
            Err(p) => { aborted = match p.downcast::<Abort>() { Ok(a) => a.0, Err(p) => match p.downcast::<String>() { Ok(s) => *s, Err(p) => p.downcast::<&str>().map(|s| s.to_string()).unwrap_or_default() } }; if aborted.is_empty() { aborted = "execution ended".into(); } None }
        }
    };
    if verbose && !aborted.is_empty() { eprintln!("execution ended: {}", aborted); }
    let exec_s = t0.elapsed().as_secs_f64();
    let returns = fin.is_some();
    if verbose { eprintln!("executed: {} steps, {} forks, {} merges, {} terms, {} vcs, {} covers, {:.2}s", ex.steps, ex.forks, ex.merges, st().nodes.len(), ex.vcs.len(), ex.covers.len(), exec_s); for n in &ex.notes { eprintln!("note: {}", n); } }
    if verbose { for (id, t) in &ex.out_vals { eprintln!("out {} = {}", id, show(*t, 5)); } }
    let vcs: Vec<&Vc> = ex.vcs.iter().filter(|v| kinds.as_ref().map(|k| k.split(',').any(|x| x == v.kind)).unwrap_or(true)).collect();
    let mut status = "unsat"; let mut viol: Vec<String> = vec![]; let mut unknown_why = String::new();
    let nz: Vec<&&Vc> = vcs.iter().filter(|v| v.cond != FALSE).collect();
    if verbose { eprintln!("{} nontrivial vcs", nz.len()); for v in nz.iter().take(40) { eprintln!("  [{}] {} :: t{}", v.kind, v.id, v.cond); } }
    let mut per_id: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    for v in &vcs { let e = per_id.entry(format!("{}:{}", v.kind, v.id)).or_default(); e.0 += 1; if v.cond != FALSE { e.1 += 1; } }
    // quick concrete refutation through the signatures, then the solver
    let mut rep = |v: &Vc, model: &dyn Fn(u32) -> u128, ex: &Exec| {
        let mut ev = Evaluator::new(model);
        let vals: Vec<String> = ex.nds.iter().map(|(k, (t, _, _))| format!("\"{}\":\"{}\"", k, ev.eval(*t))).collect();
        viol.push(format!("{{\"id\":{},\"kind\":{},\"values\":{{{}}}}}", js(&v.id), js(v.kind), vals.join(",")));
    };
    let left = |want: u64| -> u64 { let r = deadline.saturating_duration_since(std::time::Instant::now()).as_secs(); want.min(r.max(1)) };
    if !nz.is_empty() {
        let decide = |groups: Vec<Vec<&&Vc>>, status: &mut &str, unknown_why: &mut String, rep: &mut dyn FnMut(&Vc, &dyn Fn(u32) -> u128, &Exec)| {
            for g in groups {
                let mut c = FALSE; for v in &g { c = or(c, v.cond); }
                let tt = Instant::now();
                let r = solver.borrow_mut().solve(&[c], left(if vtime > 0 { vtime } else { timeout }));
                if verbose { eprintln!("query of {} vcs: {} in {:.2}s", g.len(), match &r { Ans::Unsat => "unsat", Ans::Sat(_) => "sat", Ans::Unknown(_) => "unknown" }, tt.elapsed().as_secs_f64()); }
                match r {
                    Ans::Unsat => {}
                    Ans::Sat(m) => {
                        *status = "sat";
                        let f = |i: u32| *m.get(&i).unwrap_or(&st().vars[i as usize].lo);
                        let mut ev = Evaluator::new(&f);
                        let mut hit = false;
                        for v in &g { if ev.eval(v.cond) != 0 { rep(v, &f, &ex); hit = true; break; } }
                        if !hit { rep(g[0], &f, &ex); }
                        return;
                    }
                    Ans::Unknown(w) => { if *status != "sat" { *status = "unknown"; } unknown_why.push_str(&w); }
                }
            }
        };
        use std::time::Instant;
        if split { decide(nz.iter().map(|v| vec![*v]).collect(), &mut status, &mut unknown_why, &mut rep); }
        else { decide(vec![nz.clone()], &mut status, &mut unknown_why, &mut rep); }
    }
    if !aborted.is_empty() { if status != "sat" { status = "unknown"; } unknown_why = format!("{} {}", aborted, unknown_why); }
    audit::log().on = false;
    let au = audit::run(&mut solver.borrow_mut(), 20000, 40, aud_secs.min(10), aud_secs);
    if let Some(b) = &au.bad { fatal(&format!("simplification step refuted by the solver: {}", b)); }
    // vacuity witnesses
    let mut cov: BTreeMap<u64, bool> = BTreeMap::new(); let mut cov_unknown = vec![];
    let mut by: BTreeMap<u64, T> = BTreeMap::new();
    for (id, c) in &ex.covers { let e = by.entry(*id).or_insert(FALSE); *e = or(*e, *c); }
    if covers_req { for (id, c) in &by {
        if *c == TRUE || sig(*c).map(|s| s.iter().any(|x| *x != 0)).unwrap_or(false) { cov.insert(*id, true); continue; }
        match solver.borrow_mut().solve(&[*c], left(timeout)) { Ans::Sat(_) => { cov.insert(*id, true); } Ans::Unsat => { cov.insert(*id, false); } Ans::Unknown(_) => { cov_unknown.push(*id); } }
    } }
    let s = solver.borrow();
    let own: Vec<String> = ex.funcs_hit.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let res = format!("{{\"harness\":{},\"status\":{},\"unknown\":{},\"returns\":{},\"violations\":[{}],\"covers\":{{{}}},\"covers_unknown\":{:?},\"functions\":{{{}}},\"stubs\":[{}],\"notes\":[{}],\"steps\":{},\"forks\":{},\"merges\":{},\"max_loop\":{},\"terms\":{},\"vcs\":{},\"vcs_nontrivial\":{},\"vc_ids\":{{{}}},\"queries\":{},\"queries_trivial\":{},\"unsat\":{},\"sat\":{},\"solver_s\":{:.3},\"by\":{{{}}},\"max_query_bytes\":{},\"exec_s\":{:.3},\"total_s\":{:.3},\"outs\":{{{}}},\"nds\":{{{}}},\"int_samples\":{},\"audit\":{},\"audit_ok\":{},\"audit_unknown\":{},\"audit_skipped\":{},\"steps_logged\":{}}}",
        js(&harness), js(status), js(&unknown_why), returns, viol.join(","), cov.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), cov_unknown, own.join(","),
        ex.stubs_hit.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), ex.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        ex.steps, ex.forks, ex.merges, ex.max_loop, st().nodes.len(), vcs.len(), nz.len(),
        per_id.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","),
        s.stats.queries, s.stats.trivial, s.stats.unsat, s.stats.sat, s.stats.secs, s.stats.by.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), s.stats.sizes.iter().max().unwrap_or(&0), exec_s, t0.elapsed().as_secs_f64(),
        ex.out_vals.iter().map(|(k, v)| format!("\"{}\":{}", k, cval(*v).map(|c| format!("\"{}\"", c)).unwrap_or("null".into()))).collect::<Vec<_>>().join(","),
        ex.nds.iter().map(|(k, (_, l, h))| format!("\"{}\":[{},{}]", k, l, h)).collect::<Vec<_>>().join(","), s.stats.int_ok, au.tried, au.proved, au.unknown, au.skipped, audit::log().seen + audit::log().seen_dec);
    if out.is_empty() { println!("{}", res); } else { std::fs::write(&out, &res).unwrap(); }
    match status { "unsat" => 0, "sat" => 1, _ => 2 }
}
