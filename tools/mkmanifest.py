"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import importlib

AI = 'abstract interpretation of the bytecode over order types'
NA = {
 'C31': 'asymptotic cost depends on amortised heap and tree behaviour over runtime sizes; no static bound in reach.',
}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(ROOT, 'sa', 'checks', pid.lower() + '.py')
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    elif not os.path.exists(path):
        na.append({'property': pid, 'reason': 'check not built yet'})
    else:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 -m sa.check ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.check ' + pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': getattr(mod, 'TECHNIQUE', AI),
            'level': 'other',
            'level_note': mod.EXPLANATION + ' Assumes: ' + '; '.join(
                    mod.ASSUMPTIONS) + '.'})
json.dump({'version': 1,
           'setup_cmd': 'python3 -c "import sys; assert sys.version_info[:2] == (3, 12), sys.version"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed. All checks inspect /repo\'s current source; nothing of it is executed by the host interpreter.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
