#!/usr/bin/env python3
"""composes DESIGN.md from its hand-written parts, the property table, the findings file and the planted bugs"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
exec(open('tools/design_props.py').read())
o = [open('tools/design_head.md').read().rstrip(), '']
ps = [json.loads(l) for l in open('properties.jsonl')]
for p in ps:
    i = p['id']; how, oracle, cost = D[i]; src = open(f'harness/{i}.rs').read()
    g = lambda k: '; '.join(re.findall(rf'^//@ {k}\s+(.*)$', src, re.M))
    runs = re.findall(r'^//@ run (\S+)(.*)$', src, re.M); th = [f for f, a in runs if 'tier=thorough' in a]; q = [f for f, a in runs if 'tier=thorough' not in a]
    o += [f'### {i} {p["title"]}', '', f'*How.* {how}', '', f'*Oracle.* {oracle}. *Harness functions.* {", ".join("`" + f + "`" for f in q)}' + (f'; thorough also {", ".join("`" + f + "`" for f in th)}' if th else '') + '.', '',
        f'*Bounds.* {g("bounds")}. *Outside.* {g("outside")}.', '', f'*Cost.* {cost} s. *Beyond the tests.* {p["why_tests_cant"]}', '']
fs = json.load(open('known_findings.json'))['findings']
o += ['## 3. Defects found and repaired', '', f'{len(fs)} genuine defects were found by the checks (or while writing the reference rules and then confirmed by the check) and repaired in separate `fix:` commits; `known_findings.json` lists them (status `fixed` suppresses nothing). None is left as a known finding.' if all(f['status'] == 'fixed' for f in fs) else 'See known_findings.json.', '', '| id | property | commit | what failed |', '|---|---|---|---|']
o += [f"| {f['id']} | {f['property']} | {f.get('commit', '')[:7]} | {f['what']} |" for f in fs]
o += ['', '## 4. Planted bugs and the checks that catch them', '', 'Each passes build and tests, and its demonstration fails only with it. "Caught" = quick check of the named property exits 1 with its VIOLATION line.', '', '| planted bug | needs | caught by |', '|---|---|---|']
missed = json.load(open('tools/missed.json')) if os.path.exists('tools/missed.json') else {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); s = m.split('/')[1]; o.append(f"| {s} | {d['needs']} | {missed.get(s, d['property'])} |")
o += ['', open('tools/design_tail.md').read().rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(o))
