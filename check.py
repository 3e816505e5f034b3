#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree.

1. compile /repo (hook cfg av1enc_verif, harness/<P>.rs included as a module) to whole-program LLVM IR,
2. run the symbolic executor (engine/) on every harness function of the property,
3. replay every counterexample, and a sample of passing paths, on a native build of the same tree,
4. write evidence/<P>.json.   exit 0 held / 1 violation / 3 inconclusive or machinery error
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, threading, tempfile, glob, signal
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('AV1ENC_REPO', '/repo')
CORES = os.cpu_count() or 8
BUDGET = {'quick': 780, 'thorough': 6 * 3600}; GRACE = float(os.environ.get('AV1ENC_GRACE', '90'))   # quick: seconds the other harnesses go on after one has reported a violation

def die(msg): print('ERROR: ' + msg, flush=True); sys.exit(3)

def directives(prop):
    runs, meta = [], {'bounds': [], 'outside': [], 'assume': []}
    for l in open(f'{V}/harness/{prop}.rs'):
        m = re.match(r'//@\s*(\w+)\s+(.*)', l)
        if not m: continue
        if m.group(1) == 'run':
            f = m.group(2).split(); r = {'fn': f[0], 'tier': 'quick', 'workers': 1, 'known': None, 'samples': 2, 'z3ms': 120000, 'steps': 30000000}
            for kv in f[1:]: k, v = kv.split('=', 1); r[k] = int(v) if v.isdigit() else v
            runs.append(r)
        else: meta.setdefault(m.group(1), []).append(m.group(2).strip())
    return runs, meta

def engine(work):
    h = hashlib.sha256()
    for f in sorted(glob.glob(f'{V}/engine/*')): h.update(open(f, 'rb').read())
    d = f'{V}/.build'; os.makedirs(d, exist_ok=True); exe = f'{d}/symex-{h.hexdigest()[:16]}'
    if not os.path.exists(exe):
        t = f'{exe}.{os.getpid()}'; r = subprocess.run(['bash', f'{V}/engine/build.sh', t], capture_output=True, text=True)
        if r.returncode: die('engine build failed:\n' + r.stderr[-3000:])
        os.rename(t, exe)
    return exe

def cargo(prop, kind, src):
    """kind: ir | dev | rel ; builds the working tree copied to `src` (so that /repo is never written)"""
    env = dict(os.environ); env.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', AV1ENC_VERIF_HARNESS=f'{V}/harness/{prop}.rs', CARGO_TERM_COLOR='never')
    for k in list(env):
        if k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS') or k.startswith('CARGO_PROFILE_'): del env[k]
    td = f'{V}/.build/t-{prop}-{kind}'; base = '--cfg av1enc_verif --cap-lints allow'
    if kind == 'ir':
        env.update(CARGO_PROFILE_RELEASE_LTO='fat', CARGO_PROFILE_RELEASE_PANIC='abort', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true', CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS='false', CARGO_PROFILE_RELEASE_DEBUG='line-tables-only', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='1', CARGO_PROFILE_RELEASE_INCREMENTAL='false',
            RUSTFLAGS=base + ' -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all')
        cmd = ['cargo', 'rustc', '--release', '--offline', '--target-dir', td, '--bin', 'av1enc', '--', '--emit=llvm-ir']
        for f in glob.glob(f'{td}/release/deps/av1enc-*.ll'): os.remove(f)
    else:
        env.update(RUSTFLAGS=base + ' --cfg verif_replay'); cmd = ['cargo', 'build', '--offline', '--target-dir', td, '--bin', 'av1enc'] + (['--release'] if kind == 'rel' else [])
    env['CARGO_INCREMENTAL'] = '0'
    r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
    if r.returncode: die(f'build of the tree with the harness failed ({kind}):\n' + r.stderr[-6000:])
    if kind == 'ir':
        ll = glob.glob(f'{td}/release/deps/av1enc-*.ll')
        if len(ll) != 1: 
            # cargo considered it fresh: force
            os.utime(f'{src}/src/main.rs'); r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True); ll = glob.glob(f'{td}/release/deps/av1enc-*.ll')
        if len(ll) != 1: die('no IR produced')
        return ll[0]
    return f'{td}/{"release" if kind == "rel" else "debug"}/av1enc'

def copy_tree():
    src = f'{V}/.build/src'; os.makedirs(src, exist_ok=True)
    # mirror the working tree (contents compared, so unchanged files keep their mtime)
    def mirror(a, b):
        names = set(os.listdir(a)) - {'.git', 'target'}
        for n in set(os.listdir(b)) - names - {'Cargo.lock'}:
            p = f'{b}/{n}'; shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
        for n in names:
            x, y = f'{a}/{n}', f'{b}/{n}'
            if os.path.isdir(x): os.makedirs(y, exist_ok=True); mirror(x, y)
            else:
                c = open(x, 'rb').read()
                if not os.path.exists(y) or open(y, 'rb').read() != c: open(y, 'wb').write(c)
    mirror(REPO, src)
    if not os.path.exists(f'{src}/Cargo.lock'): shutil.copy('/opt/vp/av1enc/Cargo.lock', f'{src}/Cargo.lock')
    return src

def native(exe, fn, inputs, timeout=60):
    with tempfile.NamedTemporaryFile('w', suffix='.in', delete=False) as f:
        for n, l, h in inputs: f.write(f'{n} {l} {h}\n')
    d = tempfile.mkdtemp()
    try:
        r = subprocess.run([exe], env={**os.environ, 'AV1ENC_VERIF_FN': fn, 'AV1ENC_VERIF_INPUT': f.name, 'RUST_BACKTRACE': '0'}, capture_output=True, timeout=timeout, cwd=d, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: os.remove(f.name); shutil.rmtree(d)

def reproduces(v, code, text):
    if v['kind'] == 'assert': return code == 42 and f"NATIVE assert {v['label']}" in text
    if v['kind'] == 'panic': return code == 101 or (isinstance(code, int) and code < 0)
    if v['kind'] == 'nontermination': return code == 'timeout'
    return code == 'timeout' or (code != 0 and code not in (42, 43, 44, 45))

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, bool) or k in ('wall_s', 'vars'): a[k] = max(a.get(k, 0), v)
        elif k == 'max_query_s': a[k] = max(a.get(k, 0), v)
        elif isinstance(v, (int, float)): a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, y in v.items(): d[x] = d.get(x, 0) + y
        elif isinstance(v, list):
            l = a.setdefault(k, [])
            for x in v:
                if k in ('violations', 'samples') or x not in l: l.append(x)
    return a

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); only = sys.argv[3:] 
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time(); budget = float(os.environ.get('VERIF_BUDGET', BUDGET[tier]))
    runs, meta = directives(prop); runs = [r for r in runs if (tier == 'thorough' or r['tier'] != 'thorough') and not (tier == 'thorough' and r['tier'] == 'quickonly') and (not only or r['fn'] in only)]
    known = [k for k in json.load(open(f'{V}/known_findings.json'))['findings'] if k['property'] == prop]
    os.makedirs(f'{V}/.build', exist_ok=True); os.makedirs(f'{V}/evidence', exist_ok=True)
    import fcntl; lock = open(f'{V}/.build/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    src = copy_tree(); res = {}
    bl = {}; th = [threading.Thread(target=lambda k=k, f=f: bl.__setitem__(k, f())) for k, f in (('eng', lambda: engine(src)), ('ll', lambda: cargo(prop, 'ir', src)), ('dev', lambda: cargo(prop, 'dev', src)))]
    def quiet(t):
        t.start()
    for t in th: quiet(t)
    for t in th: t.join()
    if not all(k in bl for k in ('eng', 'll', 'dev')): sys.exit(3)
    fcntl.flock(lock, fcntl.LOCK_UN); tb = time.time() - t0
    od = tempfile.mkdtemp(prefix='run-', dir=f'{V}/.build')
    slots = [CORES]; cv = threading.Condition(); procs = []; found = []   # found: when the first harness reported a violation
    def one(r):
        w = min(int(r['workers']), CORES)
        with cv:
            while slots[0] < w: cv.wait()
            slots[0] -= w
        try:
            left = budget - (time.time() - t0); o = f'{od}/{r["fn"]}.json'
            if left < 5 or (found and tier == 'quick' and time.time() - found[0] > GRACE): res[r['fn']] = {'errors': {'no time left': 1}}; return
            cmd = [bl['eng'], '--ll', bl['ll'], '--fn', r['fn'], '--out', o, '--timeout', str(int(min(left, float(r.get('timeout', 10 ** 9))))), '--workers', str(w), '--z3ms', str(r['z3ms']), '--steps', str(r['steps']), '--samples', str(r['samples']), '--seed', str(seed), '--mem', str(r.get('mem', 3500 if w > 1 else 6000))]
            if 'maxviol' in r: cmd += ['--max-viol', str(r['maxviol'])]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True); procs.append(p)
            while True:
                try: outp, _ = p.communicate(timeout=2); break
                except subprocess.TimeoutExpired:
                    if time.time() - t0 > budget + 60 or (found and tier == 'quick' and time.time() - found[0] > GRACE): os.killpg(p.pid, signal.SIGKILL); outp = p.communicate()[0] + b'stopped'; break
            a = {}
            for f in [o] + sorted(glob.glob(o + '.w*')):
                if os.path.exists(f):
                    try: merge(a, json.load(open(f)))
                    except ValueError as e: a.setdefault('errors', {})[f'bad engine output {e}'] = 1
            if p.returncode or not a: a.setdefault('errors', {})[f'engine exit {p.returncode}: {outp.decode("utf8", "replace")[-400:]}'] = 1
            res[r['fn']] = a
            if a.get('violations'): found.append(time.time())
        finally:
            with cv: slots[0] += w; cv.notify_all()
    ths = [threading.Thread(target=one, args=(r,)) for r in sorted(runs, key=lambda r: int(r['workers']))]
    for t in ths: t.start()
    for t in ths: t.join()
    # ---- judge
    viol, errs, knownseen, validated, samples = [], [], [], 0, []; rel = None
    for r in runs:
        a = res[r['fn']]
        for v in a.get('violations', []):
            code, text = native(bl['dev'], r['fn'], v['inputs'], 30); prof = 'dev'
            if not reproduces(v, code, text) and v['kind'] != 'panic':
                if rel is None: rel = cargo(prop, 'rel', src)
                c2, t2 = native(rel, r['fn'], v['inputs'], 30)
                if reproduces(v, c2, t2): code, text, prof = c2, t2, 'release'
                # an assertion found symbolically may show up natively as a different failure of the same run
            if not reproduces(v, code, text) and (code == 42 or code == 101): v['native_differs'] = f'{code} {text.strip()[-200:]}'
            elif not reproduces(v, code, text): errs.append(f"{r['fn']}: counterexample does not reproduce natively ({v['kind']} {v['label']} {v['loc']}; native {code} {text.strip()[-200:]})"); continue
            k = next((k for k in known if k['status'] == 'known' and k['fn'] == r['fn'] and re.search(k['match'], f"{v['kind']}:{v['label']}:{v['loc']}")), None)
            if k: knownseen.append(k); continue
            viol.append((r, v, prof, text))
        for e, n in a.get('errors', {}).items():
            if not a.get('violations'): errs.append(f"{r['fn']}: {e} (x{n})")
        if not a.get('violations') and not a.get('errors'):
            if not a.get('ended'): errs.append(f"{r['fn']}: no path reached the end of the harness (vacuous)")
            if not a.get('asserts') and not r.get('noassert'): errs.append(f"{r['fn']}: no assertion was evaluated (vacuous)")
            for need in filter(None, str(r.get('reach', '')).split(',')):
                if not a.get('reach', {}).get(need): errs.append(f"{r['fn']}: witness '{need}' not reachable (vacuous)")
        for s in a.get('samples', [])[:4]:
            code, text = native(bl['dev'], r['fn'], s['inputs'], 60); no = [int(x) for x in re.findall(r'^NATIVE out (\d+)', text, re.M)]
            if s['panic']: ok = code == 0 and 'expected-panic' in text
            else: ok = code == 0 and 'NATIVE end' in text and no == s['outs']
            if ok: validated += 1
            elif not a.get('violations'): errs.append(f"{r['fn']}: engine and native build disagree on a sampled path {s['inputs']}: native {code} {text[-300:]!r} engine outs {s['outs']}")
            if len(samples) < 12: samples.append({'harness': r['fn'], 'inputs': {f'{i}:{n}': '0x' + bytes.fromhex(h)[::-1].hex() if l <= 8 else h for i, (n, l, h) in enumerate(s['inputs'])}, 'observed': s['outs'][:8]})
    shutil.rmtree(od, ignore_errors=True)
    tot = {}
    for a in res.values(): merge(tot, {k: v for k, v in a.items() if k in ('paths', 'ended', 'forks', 'queries', 'solver_calls', 'sat', 'unsat', 'unknown', 'cache_hits', 'model_hits', 'ranged', 'insts', 'asserts', 'assert_queries', 'solver_s', 'max_query_s', 'functions', 'externals')})
    fns = [f for f in tot.get('functions', []) if not f.startswith('/') and '::' in f]
    repo_fns = sorted({f for f in tot.get('functions', []) if f.startswith('src/')})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'violations': len(viol), 'wall_s': round(time.time() - t0, 2),
        'coverage': {'states': tot.get('paths', 0), 'transitions': tot.get('forks', 0), 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no completed path in this run'}],
            'explanation': 'states = symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = feasible branch alternatives; every path condition, bound and assertion decided by z3 over all values inside the bounds; traces_validated = sampled path witnesses re-executed on the native build with equal observables',
            'functions_encoded': repo_fns, 'bounds': meta.get('bounds', []), 'outside_bounds': meta.get('outside', []),
            'queries_discharged': tot.get('queries', 0), 'solver_calls': tot.get('solver_calls', 0), 'sat': tot.get('sat', 0), 'unsat': tot.get('unsat', 0), 'unknown': tot.get('unknown', 0), 'assertions_evaluated': tot.get('asserts', 0), 'assertions_sent_to_solver': tot.get('assert_queries', 0), 'decided_by_interval_reasoning': tot.get('ranged', 0), 'solver_s': round(tot.get('solver_s', 0), 2), 'max_query_s': tot.get('max_query_s', 0), 'ir_instructions_interpreted': tot.get('insts', 0), 'externals_modelled': sorted(tot.get('externals', [])), 'build_s': round(tb, 1),
            'harnesses': {r['fn']: {k: res[r['fn']].get(k) for k in ('paths', 'ended', 'queries', 'solver_calls', 'solver_s', 'wall_s', 'assert_labels', 'reach', 'errors')} for r in runs},
            'known_findings_observed': [k['id'] for k in knownseen], 'inconclusive': errs, 'exhaustive': not errs},
        'assumptions': meta.get('assume', []) + ['rustc/LLVM lowering to IR, the engine and z3 are trusted; sampled paths are cross-checked against the native build']}
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    seenk = set()
    for k in knownseen:
        if k['id'] not in seenk: seenk.add(k['id']); print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
    for e in errs: print('INCONCLUSIVE ' + e, flush=True)
    partial = lambda e: tot.get('ended', 0) > 0 and re.search(r': (timeout|unexplored states left|no time left) \(x', e)
    hard = [e for e in errs if not partial(e)]
    if viol:
        rd = f'{V}/.build/replay'; os.makedirs(rd, exist_ok=True)
        for i, (r, v, prof, text) in enumerate(viol):
            p = f'{rd}/{prop}-{r["fn"]}-{i}.json'; json.dump({'property': prop, 'harness': r['fn'], 'violation': v, 'profile': prof, 'native_output': text, 'how': f'python3 /verif/replay.py {p}'}, open(p, 'w'), indent=1)
            print(f"  {r['fn']}: {v['kind']} '{v['label']}' {v['loc']} inputs={[(n, '0x' + bytes.fromhex(h)[::-1].hex()) for n, l, h in v['inputs']][:12]}" + (f" [native: {v['native_differs']}]" if 'native_differs' in v else ''), flush=True)
            print(f'VIOLATION property={prop} replay={p}', flush=True)
        sys.exit(1)
    if hard: sys.exit(3)
    if errs: print('PARTIAL: the time budget ran out before every path was explored; no violation on what was explored', flush=True)
    print(f"OK {prop} {tier}: {tot.get('paths', 0)} paths, {tot.get('queries', 0)} queries ({tot.get('solver_calls', 0)} solver calls, {tot.get('solver_s', 0):.1f}s), {validated} traces validated natively, {time.time() - t0:.1f}s")

if __name__ == '__main__': main()
