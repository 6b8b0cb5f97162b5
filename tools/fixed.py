#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo.
Run by hand after adding a fix; tools/fixes.json maps commit subjects to properties."""
import json, subprocess, os
fixes = json.load(open('/verif/tools/fixes.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
lines = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    prop, what = fixes[s]
    lines.append(f'fixed: property={prop} {h} {what}')
p = '/verif/known_findings.txt'
old = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if not l.startswith('fixed:')]
open(p, 'w').write('\n'.join(old + lines) + '\n')
