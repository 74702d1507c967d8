"""regenerate MANIFEST.json from properties.jsonl and the check modules (run by hand)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in NA:
        continue
    assert os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')), pid
    cmd = 'python3 /verif/run.py %s' % pid
    checks.append({
        'property': pid,
        'quick_cmd': cmd + ' --tier quick',
        'thorough_cmd': cmd + ' --tier thorough',
        'technique': 'symbolic execution of the real Python code (pysym), assertions and branch '
                     'feasibility decided by z3 over all values within the bounds; '
                     'counterexamples replayed on the unmodified code',
        'level': 'other',
        'level_note': 'bounded solver verdict: holds for every value of the symbolic inputs within '
                      'the bounds listed per obligation in the evidence; nothing is claimed '
                      'outside them',
        'evidence_file': 'evidence/%s.json' % pid,
    })
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup_check.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'no hooks in /repo; known and fixed findings are in KNOWN_FINDINGS.jsonl'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
