"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'runtime monitoring: differential and invariant oracles over executions of the real code under generated workloads'
NOTES = {
    'C01': 'TFLite interpreter output vs PyTorch output for random instances of every operator in the table, several inputs per file; sampled, not exhaustive',
}
NOTES_FILE = os.path.join(V, 'tools', 'notes.json')
if os.path.exists(NOTES_FILE):
    NOTES.update(json.load(open(NOTES_FILE)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = f'checks/{p["id"].lower()}.py'
    if os.path.exists(os.path.join(V, f)) and p['id'] in NOTES:
        checks.append({
            'property': p['id'],
            'quick_cmd': f'/opt/venv/bin/python {f} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python {f} --tier thorough',
            'technique': TECH,
            'level': 'exploration',
            'level_note': NOTES[p['id']],
        })
    else:
        na.append({'property': p['id'], 'reason': 'the check for this property is not built yet'})
m = {
    'version': 1,
    'setup_cmd': "/opt/venv/bin/python -c 'import torch, numpy, tensorflow'",
    'hooks': {'guard': 'none', 'enable': 'no hooks are needed in /repo: the monitors wrap objects from outside', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
