"""C02: a rewrite changes nothing but the contents of the reported files."""
from . import c01, rewrite
from .rewrite import (
    FAULTS, Run, Tree, Watch, applies, describe, leftovers, unannounced)

prepare = rewrite.prepare
shrink = rewrite.shrink


def generate(rng, tier):
    case = c01.generate(rng, tier)
    if rng.random() < .5:       # the ends which leave something to clean up
        case['fault'] = rng.choice([
            i for i in FAULTS if i[0] not in ('crash', 'crash_after')])
    return case


def execute(case, out):
    tree = Tree(case)
    run = Run(out, tree, tree.fs, {}, Watch(tree, {'meta': 1, 'others': 1}),
              b'y\n')
    if not run.ok:
        return
    if judge(out, tree, run, {}):
        out.hint = {'only': {}}
        return
    base = run
    if base.prompt is None:
        out.sign('nothing to do')
        return
    out.nontrivial = True
    first = base.prompt - 1
    if 'only' in case:
        plans = [case['only']]
    elif case.get('multi'):
        plans = [c01.multi(case, base, first)]
    else:
        plans = [{op[0]: case['fault']} for op in base.log[first:]
                 if applies(case['fault'], op)]
    for plan in plans:
        tree = Tree(case)
        run = Run(out, tree, tree.fs, plan,
                  Watch(tree, {'meta': 1, 'others': 1}), b'y\n')
        if not run.ok or judge(out, tree, run, plan):
            out.hint = {'only': plan}
            return


def judge(out, tree, run, plan):
    fs = run.res.fs
    bad = list(run.res.observed or ()) + unannounced(tree, run)
    left = leftovers(tree, fs)
    if left and not run.stopped:
        # If it cannot be removed, it cannot be helped.
        excused = any(op[1] == 'unlink' and op[3] for op in run.log)
        # (Something that cannot even be looked up.)
        nodes = [fs.node(i, follow=False) for i in left]
        excused = excused or all(i and i.ino in fs.bad for i in nodes)
        # (An interrupt while it already was cleaning up after something.)
        interrupts = sum(1 for op in run.log if 'sigint' in op[3])
        excused = excused or interrupts > 1 or (
            interrupts and (tree.unowned or tree.raises or len(plan) > 1
                           or tree.case.get('busy') is not None))
        # (After its creation, but before it was known.)
        excused = excused or any(
            op[1] == 'openw' and 'sigint_after' in op[3] for op in run.log)
        if excused:
            out.probe('leftover_excused')
        else:
            bad.append(('leftover', 'the run ended (exit {}), and left '
                        '{}'.format(run.res.exit, left)))
    if fs.fds and not run.stopped and not plan:
        out.probe('open_at_exit')
    out.sign(run.res.exit, run.fired, bool(left), [i[1] for i in run.log[-1:]],
             sorted(set(tree.meta)))
    for kind, text in bad[:3]:
        out.violate(kind, text)
    if bad:
        describe(out, run, plan)
    return bool(bad)
