"""
Is the simulator repeatable? Runs a few cases of every check twice, in
processes of their own, and compares the digests of all that they did.
"""
import json
import os
import subprocess
import sys
import time

from . import budget, core, seams

CASES = 4


def digests(prop, seed, hashseed, workers):
    found = {}
    procs = []
    for w in range(0, core.WORKERS, core.WORKERS // workers):
        procs.append(subprocess.Popen(
            [sys.executable, '-m', 'sim.worker', prop, 'quick', str(seed),
             str(w), str(CASES * core.WORKERS // workers),
             str(time.time() + 300), '[]'], cwd='/',
            env=core.worker_env(hashseed or w + 1), stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        text = p.communicate()[0].decode('utf-8', 'replace')
        for line in text.split('\n'):
            if line.startswith('{'):
                msg = json.loads(line)
                if msg['kind'] == 'case':
                    found[msg['i']] = msg['digest']
        if p.returncode:
            print(text[-3000:])
    return found


def main():
    sys.path.insert(0, core.VERIF)
    bad = 0
    for prop in sorted(budget.BUDGET):
        first = digests(prop, 1, 0, 4)
        again = digests(prop, 1, 0, 4)
        if not first or first != again:
            print('{}: not repeatable: {} {}'.format(prop, first, again))
            bad += 1
        else:
            print('{}: {} cases repeatable'.format(prop, len(first)))
    bad += seams.main()     # (last: it puts the seams in place)
    return 1 if bad else 0
