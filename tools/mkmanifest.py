"""Writes MANIFEST.json: one check per property."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = 'TLA+ specification checked with TLC; trace validation of recorded library calls and replay of specification behaviours'
NOTE = ('Every recorded call is judged by TLC against the executable TLA+ specification (spec/Api.tla); bounded models are '
        'explored exhaustively. Assurance over inputs is bounded by the recorded sessions and the model constants; trusted: TLC, '
        'the JVM hash primitives (cross-checked with hashlib), the specification text.')
m = {'version': 1,
     'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'python3 check.py ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE} for p in props],
     'not_applicable': [],
     'notes': 'TLA+ with TLC. No hooks in /repo: the library is sequential and its public API exposes its state. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
