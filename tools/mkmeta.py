#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (both are committed)."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))

from properties import C, NA  # noqa
from sim.budget import BUDGET  # noqa

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
    for pid in sorted(C):
        assert len(C[pid]['title']) <= 80, pid
        fp.write(json.dumps(C[pid]) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': 'python3 check.py selftest',
    'checks': [{
        'property': pid,
        'quick_cmd': 'python3 check.py ' + pid,
        'thorough_cmd': 'python3 check.py {} thorough'.format(pid),
        'evidence_file': 'evidence/{}.json'.format(pid),
        'technique': BUDGET[pid]['technique'],
        'level': BUDGET[pid]['level'],
        'level_note': BUDGET[pid]['note'],
    } for pid in sorted(C) if pid in BUDGET],
    'not_applicable': [
        {'property': pid, 'reason': NA.get(pid, 'no check yet')}
        for pid in sorted(C) if pid not in BUDGET],
    'notes': 'Deterministic simulation with fault injection; see DESIGN.md. '
    'No hooks in /repo: the seams are the operating system calls, the opener '
    'argument of the parsers and the WSGI interface. "python3 check.py '
    'replay FILE" runs a replay file again.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(manifest, fp, indent=1)
    fp.write('\n')
