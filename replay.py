#!/usr/bin/env python3
"""replay.py REPLAY.json   re-run one counterexample on a native build of /repo's current tree (exit 1 if it still fails)."""
import sys, json
import check
j = json.load(open(sys.argv[1])); src = check.copy_tree(); exe = check.cargo(j['property'], 'rel' if j['profile'] == 'release' else 'dev', src)
code, text = check.native(exe, j['harness'], j['violation']['inputs'], 60)
print(text); print('exit', code); sys.exit(0 if code == 0 else 1)
