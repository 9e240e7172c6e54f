#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOT_APPLICABLE = {}
NOTES = {
    'C19': ' The data frame library is replaced by a small stand-in while symbolic; witnesses are replayed with pandas.',
    'C22': ' Pickling runs natively on tokens standing for the symbolic leaves; digests are injective symbols.',
    'C23': ' The allowed non-id keys and short names come from a snapshot of the documented registry kept in /verif.',
    'C32': ' numpy and pandas run natively on marks standing for the symbolic cells; the hashed bytes are decoded back to symbols.',
    'C33': ' Threads are real, run one at a time, and change at symbolic steps (calls of the scheduler put before each statement).',
}
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(HERE, 'sx/props/%s.py' % pid.lower())):
        na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'its check is not built yet')})
        continue
    checks.append({
        'property': pid, 'quick_cmd': 'bash run.sh %s quick' % pid, 'thorough_cmd': 'bash run.sh %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'symbolic execution of the real Python code (own engine), assertions decided by z3, cross-checked with cvc5, '
                     'counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Bounded: holds for every input within the bounds listed per job in the evidence when the job is exhausted, and on '
                      'every explored path class otherwise. Trusts the engine\'s model of str/int/float/list/dict/set/re '
                      '(path witnesses are replayed natively on the unmodified code) and z3.' + NOTES.get(pid, ''),
    })
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: /repo is instrumented in memory when it is imported. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
