"""
An interpreter with another hash seed, that runs cases on request: one JSON
line in, one out.
"""
import json
import os
import subprocess
import sys

from . import core


def serve(prop):
    core.setup_worker()
    mod = core.load(prop)
    mod.prepare()
    for line in sys.stdin:
        case, variant = json.loads(line)
        sys.stdout.write(json.dumps(mod.observe(case, variant)) + '\n')
        sys.stdout.flush()


class Helper:
    def __init__(self, prop, seed):
        self.proc = subprocess.Popen(
            core.no_aslr() + [sys.executable, '-m', 'sim.helper', prop],
            cwd='/', env=core.worker_env(seed), stdin=subprocess.PIPE,
            stdout=subprocess.PIPE)

    def ask(self, case, variant):
        self.proc.stdin.write(
            json.dumps([case, variant]).encode('utf-8') + b'\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise core.ProcessProblem('helper died')
        return json.loads(line.decode('utf-8'))


_helpers = {}


def helper(prop, n):
    """Helper n of this worker."""
    base = int(os.environ.get('PYTHONHASHSEED') or 1)
    if n not in _helpers:
        _helpers[n] = Helper(prop, base * 100 + n)
    return _helpers[n]


if __name__ == '__main__':
    serve(sys.argv[1])
