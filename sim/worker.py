import json
import sys

from . import core

if __name__ == '__main__':
    prop, tier, seed, w, count, deadline, known = sys.argv[1:]
    core.worker_main(prop, tier, int(seed), int(w), int(count),
                     float(deadline), json.loads(known))
