"""C01: at every instant each config file is its old or its new self."""
import random

from . import rewrite
from .rewrite import FAULTS, Run, Tree, Watch, applies, describe

prepare = rewrite.prepare


def generate(rng, tier):
    case = rewrite.generate(rng, tier)
    case['fault'] = rng.choice(FAULTS)
    if rng.random() < .25:      # several faults in one run
        case['multi'] = [[rng.random(), rng.choice(FAULTS)]
                         for _ in range(rng.choice([2, 2, 3, 5]))]
    if rng.random() < .1:
        case['busy'] = rng.randrange(len(case['files']))
    return case


def execute(case, out):
    tree = Tree(case)
    watch = Watch(tree, {'content': 1, 'power': 2})
    run = Run(out, tree, tree.fs, {}, watch, b'y\n')
    if not run.ok:
        return
    judge(out, tree, run, {})
    base = run
    if base.prompt is None:
        out.sign('nothing to do')
        return
    out.nontrivial = True
    first = base.prompt - 1
    if 'only' in case:
        plans = [case['only']]
    elif case.get('multi'):
        plans = [multi(case, base, first)]
    else:
        plans = [{op[0]: case['fault']} for op in base.log[first:]
                 if applies(case['fault'], op)]
    for plan in plans:
        tree = Tree(case)
        watch = Watch(tree, {'content': 1, 'power': 1})
        run = Run(out, tree, tree.fs, plan, watch, b'y\n')
        if not run.ok:
            out.hint = {'only': plan}
            return
        if judge(out, tree, run, plan):
            out.hint = {'only': plan}
            return


def multi(case, base, first):
    plan = {}
    rng = random.Random(case['seed'] + 2)
    for where, fault in case['multi']:
        ops = [op for op in base.log[first:] if applies(fault, op)]
        if ops:
            plan[ops[int(where * len(ops))][0]] = fault
            if rng.random() < .5:       # and in the clean up, right after
                plan[ops[int(where * len(ops))][0] + 1] = fault
    return plan


def judge(out, tree, run, plan):
    fs = run.res.fs
    bad = list(run.res.observed or ())
    out.probe('power_loss_states', len(fs.log))
    # What is there in the end, for whoever comes next.
    for k, path in enumerate(tree.paths):
        data = fs.content(path)
        if data not in (tree.old[k], tree.new[k]):
            bad.append(('torn', 'in the end {} is {!r}'.format(
                path, data if data is None else data[:200])))
    rng = random.Random(tree.case['seed'] + 3)
    for _ in range(4):
        later = fs.after_power_loss(rng)
        for k, path in enumerate(tree.paths):
            data = later.content(path)
            if data not in (tree.old[k], tree.new[k]):
                bad.append(('torn', 'in the end, after a power loss, {} is '
                            '{!r}'.format(
                                path, data if data is None else data[:200])))
    out.sign(run.res.exit, run.fired, [
        (fs.content(p) == tree.new[k]) for k, p in enumerate(tree.paths)],
        [i[1] for i in run.log[-1:]])
    for kind, text in bad[:3]:
        out.violate(kind, text)
    if bad:
        describe(out, run, plan)
    return bool(bad)


shrink = rewrite.shrink
