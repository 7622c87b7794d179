"""Writes MANIFEST.json from the checks in props/ and properties.jsonl."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.path.insert(0, '/repo')
NA = {
    'C17': 'Idempotence relates two runs of the whole formatter (lexer, '
    'parser, layout search, writer); the second run reads what the first '
    'wrote, so a contract would have to determine the complete layout of '
    'every tree, and the layout search does not provide it: reflowed '
    'comments and fallback layouts are known to move once more on a second '
    'run. No function-level contract within reach expresses or decides it.',
}
PENDING = 'No contract for it has been written yet.'
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(H, 'props', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': NA.get(pid, PENDING)})
        continue
    c = importlib.import_module('props.' + pid.lower()).Check
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s --tier quick' % pid,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % pid,
        'technique': c.technique, 'level': c.level,
        'level_note': c.level_note})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the real sources are read and executed unmodified. '
     'Known findings are in known-findings.json.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
