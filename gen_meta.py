#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, subprocess
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, state=state))
exec(open('properties.py').read())
with open('properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']], 'hook_needed': 'harness module compiled into the crate under cfg(av1enc_verif)'}}) + '\n')
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif hook'], capture_output=True, text=True).stdout.split()
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py',
    'hooks': {'guard': 'cfg(av1enc_verif)', 'enable': 'RUSTFLAGS="--cfg av1enc_verif" and AV1ENC_VERIF_HARNESS=<harness file>: main.rs then includes that file as a module and calls it first', 'source_commits': hook},
    'checks': [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} quick", 'thorough_cmd': f"python3 check.py {p['id']} thorough", 'technique': 'symbolic execution of the rustc LLVM IR, decided by z3 (bounded, all values)', 'level': 'model_checking', 'level_note': p['note']} for p in P if p['note']],
    'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in P if not p['note']],
    'notes': 'Every check compiles the working tree of /repo to LLVM IR, executes the harness functions symbolically, replays counterexamples natively. See DESIGN.md.'}, open('MANIFEST.json', 'w'), indent=1)
