#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.json from the fix: commits listed here and in /repo's log."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tab = {}
for l in open(os.path.join(V, 'tools', 'fix_props.txt')):
    l = l.strip()
    if l:
        p, subj = l.split(' ', 1)
        tab[subj] = p
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p))
d['findings'] = [f for f in d['findings'] if f.get('status') != 'fixed']
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        if s not in tab:
            print('no property for: ' + s); continue
        d['findings'].append({'id': 'F-' + h, 'property': tab[s], 'status': 'fixed', 'commit': h,
                              'what': 'fixed: property=%s %s %s' % (tab[s], h, s)})
json.dump(d, open(p, 'w'), indent=1)
