#!/usr/bin/env python3
"""seed.py new ID PROP 'needs' 'breaks' DEMO.rs FILE<<edits   |   seed.py verify ID... [--check]
verify: in a scratch copy of /repo: demo passes unpatched; patch applies, builds, tests pass, demo fails; --check: the property's check reports it."""
import sys, os, json, subprocess, shutil, tempfile
V = '/verif'; SC = '/tmp/seedrepo'
def sh(c, cwd=None, env=None, t=900): r = subprocess.run(c, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t); return r.returncode, r.stdout + r.stderr
DEMO = '''#!/bin/bash
# builds the current tree with the demonstration (demo.rs) as its verification module and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export AV1ENC_VERIF_HARNESS="$d/demo.rs" RUSTFLAGS="--cfg av1enc_verif --cap-lints allow" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --target-dir "$t/target" --bin av1enc || exit 0
cd "$t" && timeout 120 "$t/target/debug/av1enc"
'''
def scratch():
    if os.path.exists(SC): shutil.rmtree(SC)
    sh(f'cp -a /repo {SC}'); sh('git checkout -- .', SC)
def new(id, prop, needs, breaks, demo, edits):
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True); scratch()
    for f, a, b in edits:
        p = f'{SC}/src/{f}'; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a); open(p, 'w').write(s.replace(a, b))
    open(f'{d}/patch.diff', 'w').write(sh('git diff', SC)[1]); open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755); open(f'{d}/demo.rs', 'w').write(demo if 'pub fn args(' in demo else demo + 'pub fn args(a: Vec<String>) -> Vec<String> { a }\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
def verify(id, check=False):
    d = f'{V}/seeded/{id}'; m = json.load(open(f'{d}/meta.json')); scratch(); tmp = tempfile.mkdtemp(); sh(f'cp {d}/demo.sh {d}/demo.rs {tmp}/')
    c0, o0 = sh(f'bash {tmp}/demo.sh', SC)
    ca, oa = sh(f'git apply {d}/patch.diff', SC)
    ct, ot = sh('cargo test --workspace --no-fail-fast --offline', SC, {'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': '/tmp/seedtarget', 'RUSTFLAGS': '--cap-lints allow'})
    c1, o1 = sh(f'bash {tmp}/demo.sh', SC); shutil.rmtree(tmp)
    ok = c0 == 0 and ca == 0 and ct == 0 and c1 != 0
    print(id, m['property'], 'OK' if ok else f'BAD demo0={c0} apply={ca} test={ct} demo1={c1}\n{o0[-600:]}\n{oa}\n{ot[-1500:] if ct else ""}\n{o1[-300:]}', flush=True)
    if check and ok:
        cc, oc = sh(f"python3 {V}/check.py {m['property']} quick", V, {'AV1ENC_REPO': SC, 'AV1ENC_GRACE': '3'}, 1000)
        print('   check', m['property'], 'exit', cc, 'CAUGHT' if cc == 1 and f"VIOLATION property={m['property']} " in oc else 'MISSED', [l for l in oc.splitlines() if l.strip()][0][:200] if oc.strip() else '', flush=True)
if __name__ == '__main__' and sys.argv[1] == 'verify':
    ids = [a for a in sys.argv[2:] if a != '--check'] or sorted(os.listdir(f'{V}/seeded'))
    for i in ids: verify(i, '--check' in sys.argv)
    shutil.rmtree(SC, ignore_errors=True)
