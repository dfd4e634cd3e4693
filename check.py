#!/usr/bin/env python3
"""Runs the checks: ./check.py PROPERTY [--tier quick|thorough].

Regenerates the compiler's intermediate representation of /repo's current tree together with the harnesses, executes
the harnesses symbolically (engine/), lets SMT solvers decide the resulting conditions, and replays any
counterexample against a native build of the same tree before reporting it."""
import argparse, glob, itertools, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
BUILD = os.path.join(HERE, 'build')
CORES = int(os.environ.get('VF_CORES', '8'))
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
IR_FLAGS = ('--emit=llvm-ir,link -C codegen-units=1 -C panic=abort -C overflow-checks=on -C no-vectorize-loops '
            '-C no-vectorize-slp -C opt-level=2 -Zshare-generics=n -C embed-bitcode=no')
NO_IR = ('thiserror_impl', 'proc_macro2', 'quote', 'syn', 'unicode_ident', 'autocfg', 'build_script')
HOOKED = (('vf_hooks', 'hk_iter', 'hk_coord'), ('vf_hooks', 'hk_iter'), ('vf_hooks', 'hk_coord'), ())
PRINT = threading.Lock()


def say(*a):
    with PRINT:
        print(*a, flush=True)


def cargo(args, cwd, env, what):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN, **env)
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f'{what} failed:\n{r.stdout[-2000:]}\n{r.stderr[-6000:]}')


def build(only_setup=False):
    """engine, intermediate representation and native replay binary, all from current sources"""
    os.makedirs(BUILD, exist_ok=True)
    eng, ir, nat = (os.path.join(BUILD, x) for x in ('engine', 'ir', 'native'))
    har = os.path.join(HERE, 'harness')
    def hooked():
        """the harnesses of private parts (hk_*) may stop compiling when those parts are renamed: then they are left out"""
        err = None
        for cfg in HOOKED:
            fl = ''.join(' --cfg ' + c for c in cfg)
            try:
                with ThreadPoolExecutor(2) as p:
                    fs = [p.submit(cargo, ['build', '--release', '--offline', '-q', '--lib'], har,
                                   {'CARGO_TARGET_DIR': ir, 'RUSTC_BOOTSTRAP': '1', 'RUSTFLAGS': IR_FLAGS + fl}, 'IR build'),
                          p.submit(cargo, ['build', '--offline', '-q', '--bin', 'replay'], har,
                                   {'CARGO_TARGET_DIR': nat, 'RUSTFLAGS': fl.strip()}, 'native build')]
                    for f in fs:
                        f.result()
                return cfg
            except RuntimeError as e:
                err = err or e
        raise err
    jobs = [
        (lambda: cargo(['build', '--release', '--offline', '-q'], os.path.join(HERE, 'engine'), {'CARGO_TARGET_DIR': eng}, 'engine build')),
        hooked,
    ]
    # a stale .ll of an earlier crate hash must not be picked up
    for f in glob.glob(os.path.join(ir, 'release', 'deps', '*')):
        if re.match(r'(lib)?(vharness|h3_rs)-', os.path.basename(f)):
            os.remove(f)
    for f in glob.glob(os.path.join(ir, 'release', '.fingerprint', '*')):
        if re.match(r'(vharness|h3-rs)-', os.path.basename(f)):
            shutil.rmtree(f)
    with ThreadPoolExecutor(3) as p:
        cfg = [f.result() for f in [p.submit(j) for j in jobs]][1]
    lls = [f for f in sorted(glob.glob(os.path.join(ir, 'release', 'deps', '*.ll'))) if not os.path.basename(f).startswith(NO_IR)]
    if not any('/vharness-' in f for f in lls) or not any('/h3_rs-' in f for f in lls):
        raise RuntimeError('no intermediate representation produced')
    return os.path.join(eng, 'release', 'symex'), lls, os.path.join(nat, 'debug', 'replay'), cfg


def demangle(n):
    if not n.startswith('_R'):
        return n.split('\x01')[0]
    out, i = [], 2
    while i < len(n):
        m = re.match(r's[0-9a-zA-Z]*_', n[i:])
        if m and out == []:
            pass
        m = re.match(r'\d+', n[i:])
        if m and n[i] != '0':
            k = int(m.group())
            j = i + len(m.group())
            if j < len(n) and n[j] == '_':
                j += 1
            s = n[j:j + k]
            if len(s) == k and re.match(r'[A-Za-z_]\w*$', s):
                out.append(s)
                i = j + k
                continue
        # skip disambiguators
        m = re.match(r'Cs[0-9A-Za-z]+_', n[i:])
        if m:
            i += len(m.group())
            continue
        i += 1
    return '::'.join(out) or n


class Ctx:
    pass


def run_engine(cx, harness, params, budget, extra=(), seed=1):
    out = os.path.join(cx.scratch, f'o{threading.get_ident()}_{time.monotonic_ns()}.json')
    cmd = [cx.engine, '--ll', ','.join(cx.lls), '--harness', harness, '--timeout', str(budget), '--budget', str(budget), '--seed', str(seed),
           '--solvers', 'z3-new,cvc5', '--dir', cx.scratch, '--out', out]
    for i, v in enumerate(params):
        cmd += ['--param', f'{i}={v}']
    cmd += list(extra)
    t = time.time()
    sh = f'ulimit -v {cx.memkb}; exec ' + ' '.join("'" + c + "'" for c in cmd)
    try:
        r = subprocess.run(['bash', '-c', sh], capture_output=True, text=True, timeout=budget + 30)
        err = (r.stderr or '')[-300:] + (r.stdout or '')[-300:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        err, rc = 'time limit', 124
    j = None
    if os.path.exists(out):
        try:
            j = json.load(open(out))
        except Exception as e:
            err = str(e)
        os.remove(out)
    return j, rc, err, time.time() - t


def replay_cmd(cx, harness, params, values):
    return [cx.replay, harness] + [f'p={i}={v}' for i, v in enumerate(params)] + [f'{k}={v}' for k, v in sorted(values.items(), key=lambda x: int(x[0]))]


def run_native(cx, harness, params, values, limit=30):
    try:
        r = subprocess.run(replay_cmd(cx, harness, params, values), capture_output=True, text=True, timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'no answer within %d s' % limit


def known_findings(pid):
    p = os.path.join(HERE, 'known-findings.txt')
    fs = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                fs.append((m.group(2), m.group(3)))
    return fs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.prop == 'setup':
        build()
        say('setup done in %.0f s' % (time.time() - t0))
        return 0
    pid = a.prop
    P = props.PROPS[pid]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    rng = random.Random(a.seed)
    cx = Ctx()
    cx.scratch = os.path.join(BUILD, 'scratch_%s_%d' % (pid, os.getpid()))
    os.makedirs(cx.scratch, exist_ok=True)
    cx.memkb = 13 << 20
    try:
        return work(a, pid, P, tier, rng, cx, t0)
    finally:
        shutil.rmtree(cx.scratch, ignore_errors=True)


def work(a, pid, P, tier, rng, cx, t0):
    try:
        cx.engine, cx.lls, cx.replay, cx.cfg = build()
    except RuntimeError as e:
        say(str(e))
        return 3
    t_build = time.time() - t0
    wall = P.get('wall', {}).get(tier, 620 if tier == 'quick' else 3 * 3600)
    deadline = t0 + wall
    jobs = list(dict.fromkeys((h, tuple(ps), b) for h, ps, b in P['jobs'](tier, rng)))
    left_out = sorted({h for h, _, _ in jobs if h in props.NEEDS and props.NEEDS[h] not in cx.cfg})
    jobs = [j for j in jobs if j[0] not in left_out]
    if left_out:
        say('not compiled against this tree, left out:', ', '.join(left_out))
    stop = threading.Event()
    res, viol, known = [], [], []
    finds = known_findings(pid)

    deep = set(rng.sample(range(len(jobs)), min(len(jobs), 8 if tier == 'quick' else 64)))
    deep = {jobs[i] for i in deep}
    shallow = {jobs[i] for i in rng.sample(range(len(jobs)), min(len(jobs), 150))}

    def one(job, extra=(), tries=1):
        h, ps, b = job
        if stop.is_set() or time.time() > deadline - 5:
            return job, None, -1, 'not started', 0.0
        b = int(max(5, min(b, deadline - time.time())))
        au = ['--diagrams', '--audit', '3000', '--audit-secs', '25'] if h in props.DIAGRAMS else ['--audit', '300', '--audit-secs', '30'] if job in deep else ['--audit', '12', '--audit-secs', '2'] if job in shallow else []
        j, rc, err, dt = run_engine(cx, h, ps, b, au + list(extra), a.seed)
        return job, j, rc, err, dt

    def confirm(job, j):
        """native replay of every counterexample the solver gave; True when one is real and not a listed finding"""
        h, ps, _ = job
        real = False
        for v in j['violations']:
            rc, so = run_native(cx, h, ps, v['values'])
            ok = rc in (10, 11, 124) or rc < 0
            if ok and h in props.CONFIRM:
                # an inductive step: the counterexample has to show in a run from the start, too
                h2 = props.CONFIRM[h](ps, v)
                if h2 is None:
                    ok = False
                elif h2 != h:
                    h, (rc, so) = h2, run_native(cx, h2, ps, v['values'], 120)
                    ok = rc in (10, 11, 124) or rc < 0
            say(f'  counterexample {h}{list(ps)} {v["kind"]} {v["id"]} {v["values"]}: native replay {"reproduces it" if ok else "does not reproduce it"} (status {rc})')
            if not ok:
                continue
            key = f'{h}:{",".join(map(str, ps))}:{v["id"].replace(" ", "_")}'
            hit = next((f for f in finds if re.fullmatch(f[0], key)), None)
            if hit:
                if hit not in known:
                    known.append(hit)
                continue
            rd = os.path.join(BUILD, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f'{pid}_{len(viol)}.json')
            json.dump({'property': pid, 'harness': h, 'params': list(ps), 'kind': v['kind'], 'id': v['id'], 'values': v['values'],
                       'command': ' '.join(replay_cmd(cx, h, ps, v['values'])), 'native_status': rc, 'native_output': so[-2000:]}, open(path, 'w'), indent=1)
            viol.append(path)
            real = True
            say(f'VIOLATION property={pid} replay={path}')
        return real

    unconf = []
    with ThreadPoolExecutor(CORES) as pool:
        fs = [pool.submit(one, j) for j in jobs]
        for f in as_completed(fs):
            job, j, rc, err, dt = f.result()
            if j is not None and j['status'] == 'sat':
                if confirm(job, j):
                    if not a.keep_going:
                        stop.set()
                elif not known:
                    unconf.append(job)
            res.append((job, j, rc, err, dt))
            if a.v:
                say(job, j and j['status'], rc, '%.1fs' % dt, '' if j else err)
    und = [(job, rc, err if j is None else j['unknown'] or 'counterexample not reproduced natively') for job, j, rc, err, dt in res
           if (j is None or j['status'] == 'unknown' or (j['status'] == 'sat' and job in unconf)) and not (stop.is_set() and rc == -1)]
    narrowed = []
    if und and not viol:
        # the undecided cases again with most inputs pinned to seeded values: a smaller space, same decision procedure
        say(f'{len(und)} of {len(jobs)} cases undecided; retrying them on narrower input spaces')
        tasks = []
        for job, rc, err in und[:64]:
            fx = P.get('narrow')
            if fx:
                tasks += [(job, x) for x in fx(job, random.Random(f'{a.seed}/{job}'))]
                continue
            for k in range(2):
                tasks.append((job, narrow_default(job, random.Random(f'{a.seed}/{job}/{k}'))))
        with ThreadPoolExecutor(CORES) as pool:
            fs = {pool.submit(one, (job[0], job[1], 40), ['--fix', fix]): (job, fix) for job, fix in tasks if fix}
            for f in as_completed(fs):
                job, fix = fs[f]
                _, j, rc, err, dt = f.result()
                if a.v:
                    say(job, fix, j and j['status'], rc, '' if j else err)
                narrowed.append((job, fix, j and j['status']))
                if j is not None and j['status'] == 'sat' and confirm(job, j):
                    stop.set()
    # conformance of the symbolic executor: the same concrete inputs natively and through it
    conf, conf_bad = 0, []
    done = [(job, j) for job, j, rc, err, dt in res if j is not None and j.get('nds')]
    if not viol and done:
        want = P.get('conform', 10 if tier == 'quick' else 60)
        picks = [done[rng.randrange(len(done))] for _ in range(want)]

        def conform(x):
            (h, ps, _), j, s = x
            r2 = random.Random(s)
            vals = {}
            for k, (lo, hi) in j['nds'].items():
                c = r2.random()
                vals[k] = lo if c < .15 else hi if c < .25 else r2.randint(int(lo), int(hi))
            rc, so = run_native(cx, h, ps, vals)
            # decision diagrams make no difference to constants
            j2, rc2, err, _ = run_engine(cx, h, ps, 60, ['--conc', ','.join(f'{k}={v}' for k, v in vals.items())])
            if j2 is None:
                return x, vals, rc, 'engine: ' + err
            e = 12 if not j2['returns'] and j2['status'] == 'unsat' else 0 if j2['status'] == 'unsat' else 10
            nat = 10 if rc == 11 else rc
            if e != nat:
                return x, vals, rc, f'engine outcome {e}'
            no = {m.group(1): m.group(2) for m in re.finditer(r'^OUT (\d+) (\d+)$', so, re.M)}
            eo = {k: v for k, v in j2['outs'].items() if v is not None}
            if e == 0 and no != eo:
                return x, vals, rc, f'outputs {no} {eo}'
            nc = set(re.findall(r'^COVER (\d+)$', so, re.M))
            ec = {k for k, v in j2['covers'].items() if v}
            if e == 0 and nc != ec:
                return x, vals, rc, f'covers {nc} {ec}'
            return None
        with ThreadPoolExecutor(CORES) as pool:
            for r in pool.map(conform, [(job, j, rng.random()) for job, j in picks]):
                conf += 1
                if r:
                    conf_bad.append(r)
    decided = [(job, j, dt) for job, j, rc, err, dt in res if j is not None and j['status'] in ('unsat', 'sat') and job not in unconf]
    # vacuity: every witness of a harness must be reachable in one of its cases
    cov, some = {}, {}
    for job, j, dt in decided:
        for k, v in j['covers'].items():
            cov[(job[0], k)] = cov.get((job[0], k), False) or v
        some[job] = any(j['covers'].values())
    vac = [f'{h}:{k}' for (h, k), v in sorted(cov.items()) if not v and h not in props.OPTIONAL] if not viol else []
    vac_jobs = [f'{j[0]}{list(j[1])}' for j, v in some.items() if not v and not any(m in j[0] for m in P.get('may_be_vacuous', ()))]
    J = [j for _, j, _ in decided]
    tot = lambda k: sum(j.get(k, 0) for j in J)
    funcs = {}
    for j in J:
        for k, v in j['functions'].items():
            d = demangle(k)
            funcs[d] = funcs.get(d, 0) + v
    lib = sorted(f for f in funcs if f.startswith('h3_rs'))
    stubs = sorted({s for j in J for s in j['stubs']})
    by = {}
    for j in J:
        for k, v in j['by'].items():
            by[k] = by.get(k, 0) + v
    samples = []
    for job, j, dt in decided[:: max(1, len(decided) // 6)][:6]:
        samples.append({'harness': job[0], 'case': list(job[1]), 'status': j['status'], 'conditions': j['vcs'], 'left_after_simplification': j['vcs_nontrivial'],
                        'queries': j['queries'], 'solver_s': j['solver_s'], 'instructions': j['steps'], 'inputs': j.get('nds'), 'deepest_loop': j['max_loop']})
    per = {}
    for job, j, dt in decided:
        p = per.setdefault(job[0], {'cases': 0, 'seconds': 0.0, 'conditions': 0, 'slowest_s': 0.0})
        p['cases'] += 1; p['seconds'] = round(p['seconds'] + dt, 2); p['conditions'] += j['vcs']; p['slowest_s'] = max(p['slowest_s'], round(dt, 2))
    ev = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('merges') + tot('forks') + len(J), 'transitions': tot('steps'), 'traces_validated_against_impl': conf, 'samples': samples,
            'explanation': 'states: symbolic program states created (starts, forks and joins); transitions: IR instructions executed symbolically; '
                           'traces_validated_against_impl: concrete inputs run both natively and through the executor with equal outcome',
            'bounds': P['bounds'][tier], 'outside': P.get('outside', ''),
            'cases': len(jobs), 'cases_decided': len(decided), 'by_harness': per,
            'conditions': tot('vcs'), 'conditions_closed_by_simplification': tot('vcs') - tot('vcs_nontrivial'), 'conditions_left_to_solver': tot('vcs_nontrivial'),
            'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'solver_s': round(tot('solver_s'), 2), 'answers_by_solver': by,
            'integer_readings_sampled': tot('int_samples'), 'audit_lemmas': tot('audit'), 'audit_proved': tot('audit_ok'), 'audit_undecided': tot('audit_unknown'), 'rewriting_steps_logged': tot('steps_logged'), 'audit_skipped_for_size_or_floats': tot('audit_skipped'),
            'largest_query_bytes': max([j['max_query_bytes'] for j in J] or [0]), 'execution_s': round(tot('exec_s'), 2),
            'functions_encoded': lib, 'functions_encoded_other': sorted(f for f in funcs if not f.startswith('h3_rs'))[:80], 'stubs': stubs,
            'undecided': [f'{job[0]}{list(job[1])}: {str(err)[-160:]}' for job, rc, err in und][:100], 'undecided_count': len(und),
            'left_out_not_compiled': left_out,
            'narrowed_retries': len(narrowed), 'narrowed_decided': sum(1 for n in narrowed if n[2] == 'unsat'),
            'unreached_witnesses': vac, 'cases_without_witness': vac_jobs[:40], 'notes': sorted({n for j in J for n in j['notes']})[:20],
            'known_findings_seen': [k[1] for k in known], 'build_s': round(t_build, 1),
        },
        'assumptions': P.get('assumptions', []) + props.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)
    for k in known:
        say(f'KNOWN-FINDING: property={pid} {k[1]}')
    c = ev['coverage']
    say(f'{pid} {tier}: {len(decided)}/{len(jobs)} cases decided, {c["conditions"]} conditions, {c["queries"]} queries ({c["solver_s"]} s in solvers), '
        f'{c["audit_proved"]}/{c["audit_lemmas"]} rewrite lemmas proved, {conf} concrete traces compared, build {t_build:.0f} s, total {time.time() - t0:.0f} s')
    if viol:
        return 1
    for x in conf_bad[:5]:
        say('MISMATCH between native run and executor:', x)
    if conf_bad:
        return 2
    if vac:
        say('VACUOUS: witnesses not reached:', vac)
        return 2
    if und:
        say(f'UNDECIDED: {len(und)} of {len(jobs)} cases')
        for job, rc, err in und[:8]:
            say('  ', job[0], list(job[1]), rc, str(err)[-200:].strip())
        if sum(1 for x in und if x[0][0] not in props.OPTIONAL) * 2 > sum(1 for x in jobs if x[0] not in props.OPTIONAL):
            return 2
    return 0


def narrow_default(job, r):
    """pin all but four digits of the first cell"""
    h, ps, _ = job
    if not ps or not isinstance(ps[0], int) or ps[0] < 4 or ps[0] > 15:
        return None
    free = set(r.sample(range(1, ps[0] + 1), 4))
    return ','.join(f'{k}={r.choice([0, 2, 3, 4, 5, 6])}' for k in range(1, ps[0] + 1) if k not in free)


if __name__ == '__main__':
    sys.exit(main())
