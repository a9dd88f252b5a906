"""C03: exactly the reported lines, and restarts converge."""
import random

from . import rewrite
from .rewrite import (
    FAULTS, MUTATING, Run, Tree, Watch, announced, applies, describe,
    unannounced)

prepare = rewrite.prepare
DECLINE = ['n\n', '', '\n', 'no\n', 'q\n', 'n', 'x\n']


def generate(rng, tier):
    case = rewrite.generate(rng, tier)
    what = rng.random()
    if what < .15:
        case['mode'] = 'decline'
        case['answer'] = rng.choice(DECLINE)
    elif what < .4:
        case['mode'] = 'sweep'
        case['fault'] = rng.choice(FAULTS)
    else:
        case['mode'] = 'restart'
        case['faults'] = [
            [rng.random(), rng.choice(FAULTS), rng.random() < .4]
            for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    return case


def execute(case, out):
    tree = Tree(case)
    answer = case['answer'].encode()
    base = Run(out, tree, tree.fs, {}, None, answer)
    if not base.ok:
        return
    if case['mode'] == 'decline':
        declined(out, tree, base, {})
        out.nontrivial = base.prompt is not None
        if base.prompt is not None:
            # And when the question cannot be asked or answered.
            for fault in (['errno', 'EIO'], ['sigint'], ['crash']):
                for op in (base.prompt,):
                    if 'only' in case and case['only'] != {str(op): fault}:
                        continue
                    tree = Tree(case)
                    run = Run(out, tree, tree.fs, {op: fault}, None, b'y\n')
                    if not run.ok or declined(out, tree, run, {op: fault}):
                        out.hint = {'only': {str(op): fault}}
                        return
        return
    bad = undisturbed(out, tree, base)
    if report(out, base, {}, bad):
        return
    if base.prompt is None:
        out.sign('nothing to do')
        return
    out.nontrivial = True
    if case['mode'] == 'sweep':
        ops = base.log if case['tool'] != 'custom' else (
            base.log[base.prompt - 1:])
        plans = [{op[0]: case['fault']} for op in ops
                 if applies(case['fault'], op)]
        if 'only' in case:
            plans = [case['only']]
        for plan in plans:
            tree = Tree(case)
            run = Run(out, tree, tree.fs, plan, None, b'y\n')
            if not run.ok:
                out.hint = {'only': plan}
                return
            if report(out, run, plan, faulted(out, tree, run)):
                out.hint = {'only': plan}
                return
        return
    restart(case, out, base)


def undisturbed(out, tree, run, fs_old=None):
    """Nothing went wrong, other than what was wrong with the config."""
    bad = []
    fs = run.res.fs
    out.sign(run.res.exit, len(tree.hot), tree.case['tool'],
             bool(tree.raises), tree.unowned)
    if tree.raises or tree.unowned or tree.unreadable:
        out.probe('cannot_be_done')
        bad += only_old_or_new(tree, fs)
        if tree.raises and fs.content(
                tree.paths[tree.raises[0]]) != tree.old[tree.raises[0]]:
            bad.append(('half', 'a file with a line that cannot be '
                        'converted was rewritten'))
        if tree.raises and run.res.exit == 0 and run.prompt is not None and (
                tree.case['tool'] == 'execif' or
                tree._issue_no(tree.raises[0]) is not None):
            bad.append(('exit', 'success, but not all was converted'))
        return bad
    if run.res.exit != 0:
        return [('exit', 'exit {}: {}'.format(
            run.res.exit, run.res.error or run.res.err))]
    for k, path in enumerate(tree.paths):
        if fs.content(path) != tree.new[k]:
            bad.append(('result', '{} is {!r}, should be {!r}'.format(
                path, fs.content(path), tree.new[k])))
    if not tree.hot:
        if any(op[1] in MUTATING or op[1] == 'in' for op in run.log):
            bad.append(('idle', 'nothing to do, and yet it did'))
    return bad


def only_old_or_new(tree, fs):
    bad = []
    for k, path in enumerate(tree.paths):
        if fs.content(path) not in (tree.old[k], tree.new[k]):
            bad.append(('result', '{} is {!r}, should be {!r}'.format(
                path, fs.content(path), tree.new[k])))
    return bad


def faulted(out, tree, run):
    """
    One run with a fault: no file is anything but old or new; and if it was
    stopped before the answer, nothing is new; and if it says that it was
    done, everything it announced is.
    """
    fs = run.res.fs
    bad = only_old_or_new(tree, fs) + unannounced(tree, run)
    out.sign(run.res.exit, run.fired, [
        fs.content(p) == tree.new[k] for k, p in enumerate(tree.paths)])
    new = [k for k in tree.hot if fs.content(tree.paths[k]) == tree.new[k]]
    if run.prompt is None and new:
        bad.append(('unasked', 'rewritten before the question was answered'))
    if (run.res.exit == 0 and run.prompt is not None and run.fired and
            not (tree.raises or tree.unowned)):
        named = announced(tree, run.res.asked)
        for k in tree.hot:
            if k not in new and k in named:
                bad.append(('exit', 'success, but {} was not '
                            'converted'.format(tree.paths[k])))
    return bad


def declined(out, tree, run, plan):
    fs = run.res.fs
    bad = []
    writes = [op for op in run.log if op[1] in MUTATING]
    if writes:
        bad.append(('declined', 'it was declined, but did {}'.format(
            writes[:3])))
    if fs.tree() != tree.before:
        bad.append(('declined', 'it was declined, but something has changed'))
    out.sign('decline', run.res.exit, run.fired)
    return report(out, run, plan, bad)


def restart(case, out, base):
    tree = Tree(case)
    fs = tree.fs
    rng = random.Random(case['seed'] + 5)
    last = base
    plans = []
    faults = case['faults']
    if case['tool'] == 'custom':
        # (Line numbers do not survive a first conversion.)
        faults = faults[:1]
    for where, fault, power in faults:
        ops = [op for op in last.log if applies(fault, op)]
        if last.prompt:     # (mostly once it has begun)
            ops = [op for op in ops if op[0] >= last.prompt] or ops
        if not ops:
            continue
        plan = {ops[int(where * len(ops))][0]: fault}
        plans.append(plan)
        run = Run(out, tree, fs, plan, None, b'y\n')
        if not run.ok:
            return
        if report(out, run, plan, only_old_or_new(tree, run.res.fs)):
            return
        if run.stopped and power:
            out.fault('power_loss')
            fs = run.res.fs.after_power_loss(rng)
        else:
            fs = run.res.fs.after_crash()
        if run.stopped:
            out.fault('restart')
        last = run
    if case['tool'] == 'custom':
        return
    run = Run(out, tree, fs, {}, None, b'y\n')
    if not run.ok:
        return
    bad = undisturbed(out, tree, run) if not (
        tree.raises or tree.unowned or tree.unreadable) else only_old_or_new(
            tree, run.res.fs)
    if not bad and not (tree.raises or tree.unowned or tree.unreadable):
        again = Run(out, tree, run.res.fs.after_crash(), {}, None, b'y\n')
        if not again.ok:
            return
        if again.prompt is not None or any(
                op[1] in MUTATING for op in again.log):
            bad.append(('idempotence', 'there was more to do after all was '
                        'done: {}'.format(again.res.out)))
        elif again.res.exit != 0:
            bad.append(('exit', 'nothing to do, and exit {}: {}'.format(
                again.res.exit, again.res.error)))
        out.probe('converged')
    report(out, run, plans, bad)


def report(out, run, plan, bad):
    for kind, text in bad[:3]:
        out.violate(kind, text)
    if bad:
        describe(out, run, plan)
    return bool(bad)


shrink = rewrite.shrink
