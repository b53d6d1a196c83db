"""Adds entries to known_findings.json: findings.py known PID KEY WHAT | findings.py sync (lists new fix: commits, PID taken from the argument)."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, 'known_findings.json')
d = json.load(open(P))
if sys.argv[1] == 'known':
    pid, key, what = sys.argv[2:5]
    d['findings'] = [f for f in d['findings'] if not (f['property'] == pid and f['key'] == key)]
    d['findings'].append(dict(property=pid, key=key, status='known', what=what))
else:
    pid = sys.argv[2]
    have = {f.get('what') for f in d['findings'] if f['status'] == 'fixed'}
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '5a8b947..HEAD'], capture_output=True, text=True).stdout
    for line in log.strip().split('\n'):
        h, s = line.split(' ', 1)
        w = s[len('fix: '):]
        for f in d['findings']:
            if f.get('what') == w and f['status'] == 'fixed':
                f.update(commit=h, line=f'fixed: property={f["property"]} {h} {w}')
        if w not in have:
            d['findings'].append(dict(property=pid, key='', status='fixed', commit=h, what=w, line=f'fixed: property={pid} {h} {w}'))
            print('fixed', pid, h, w)
json.dump(d, open(P, 'w'), indent=1)
