"""C05: a web answer depends on its request alone."""
import errno
import json

from .. import conf, core, proc, vfs
from . import web

prepare = web.prepare


def generate(rng, tier):
    history = []
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        if history and rng.random() < .3:
            spec = dict(rng.choice(history))
            spec.pop('internal', None)
        elif history and rng.random() < .4:
            spec = related(rng, rng.choice(history))
        else:
            spec = web.any_request(rng)
            if rng.random() < .2:
                spec = refused(rng)
        history.append(spec)
    if rng.random() < .3:
        spec = rng.choice(history)
        spec['internal'] = rng.choice(
            [errno.EMFILE, errno.EACCES, errno.EIO, errno.ENOENT])
    return {'history': history}


def related(rng, spec):
    """One with much of another in it: what one has, the other lacks."""
    if 'files' not in spec:
        return web.check_request(web.any_text(rng))
    lines = spec['files'].get('extensions.conf', '').split('\n')
    what = rng.random()
    keep = rng.choice([.3, .7, .9])
    if what < .6:
        lines = [i for i in lines if rng.random() < keep]
    elif what < .8:
        lines = lines + [conf.jump_line(rng, i)[1]
                         for i in range(rng.choice([1, 2, 4]))]
    else:
        at = rng.randrange(len(lines))
        lines[at:at] = web.any_text(rng).split('\n')
    return web.check_request('\n'.join(lines))


def refused(rng):
    """One that fails half way."""
    text = web.any_text(rng).split('\n')
    text.insert(rng.randrange(len(text) + 1), rng.choice(
        ['#include "x.conf"', '#tryinclude y', '#include <z>']))
    return web.check_request('\n'.join(text))


def key_of(spec):
    return json.dumps({k: v for k, v in spec.items() if k != 'internal'},
                      sort_keys=True)


def execute(case, out):
    history = case['history']
    alone = {}
    for spec in history:
        key = key_of(spec)
        if key not in alone:
            spec = json.loads(key)
            res = web.run(out, [spec])
            if res is None:
                return
            alone[key] = res.extra[0]
            if not compare_cli(spec, res.extra[0], out):
                out.hint = {'history': [spec]}
                return
    res = web.run(out, history)
    if res is None:
        return
    out.nontrivial = len(history) > 1
    for n, (spec, got) in enumerate(zip(history, res.extra)):
        want = alone[key_of(spec)]
        out.sign(got['answer'][0], got['fired'], n and
                 res.extra[n - 1]['answer'][0], n and res.extra[n - 1][
                     'fired'])
        if spec.get('internal'):
            # It may fail, and it may not give a wrong answer.
            if got['answer'] != want['answer'] and not failed(got['answer']):
                out.violate('wrong', 'answer to request {}, while a '
                            'directory cannot be read: {}; alone: {}'.format(
                                n, *differ(got['answer'], want['answer'])))
        elif got['answer'] != want['answer']:
            out.violate('history', 'answer to request {} after the others: '
                        '{}; alone: {}'.format(
                            n, *differ(got['answer'], want['answer'])))
        if out.violations:
            for i, one in enumerate(history):
                out.trace.append('{} {} -> {}'.format(
                    i, json.dumps(one)[:400], res.extra[i]['answer']))
            out.hint = {'history': history[:n + 1]}
            return


def failed(answer):
    """Status 5xx; in HTTP/0.9 there is only the text of it."""
    return answer[0][8:10] == ' 5' or 'server error' in (
        answer[0] + answer[2])


def differ(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, str) and len(x) > 300:
                at = next((i for i, (p, q) in enumerate(zip(x, y))
                           if p != q), min(len(x), len(y)))
                at = max(0, at - 100)
                return x[at:at + 300], y[at:at + 300]
            return x, y
    return a, b


def compare_cli(spec, result, out):
    """The issues are those of the command."""
    if 'files' not in spec or not result['answer'][0].endswith(' 200 OK'):
        return True
    if result['fired'] or spec['path'] != '/dialplan-check':
        return True
    try:
        text = spec['files']['extensions.conf'].encode('utf-8')
    except UnicodeEncodeError:
        return True
    try:
        answer = json.loads(result['answer'][2])['results']
    except (ValueError, KeyError):
        out.violate('answer', 'no results in {}'.format(
            result['answer'][2][:300]))
        return False
    fs = vfs.FS()
    fs.mkdirs('/home/user')
    fs.mkdirs('/work')
    fs.put('/work/extensions.conf', text)
    fs.cwd = '/work'
    fs.seal()
    res = proc.cli(out, fs, ['dialplan-check', 'extensions.conf'])
    if res is None:
        return False
    want, have = {}, {}
    for line in res.err.split('\n'):
        for (name, no, class_), n in conf.parse_report(line)[0].items():
            key = (name, no, class_, line.split(class_ + ': ', 1)[1])
            want[key] = want.get(key, 0) + 1
    for name, issues in answer.items():
        for i in issues:
            desc = i['desc'].split('\n')[0].encode(
                'utf-8', 'backslashreplace').decode('utf-8')
            key = (name, i['line'], i['class'], desc)
            have[key] = have.get(key, 0) + 1
    if list(answer) != ['extensions.conf'] or want != have:
        a = [i for i in want if want[i] != have.get(i, 0)][:3]
        b = [i for i in have if have[i] != want.get(i, 0)][:3]
        out.violate('command', 'the command says {}, the service {}'.format(
            a, b))
        out.trace.append(res.err)
        out.trace.append(result['answer'][2])
        return False
    if have:
        out.probe('issues compared with the command')
    return True


def shrink(case):
    history = case['history']
    for keep in core.shrink_list(history):
        if keep:
            yield dict(case, history=keep)
    for n, spec in enumerate(history):
        def with_spec(new):
            return dict(case, history=history[:n] + [new] + history[n + 1:])
        for key in ('internal', 'headers', 'version', 'multiprocess',
                    'direct', 'length'):
            if key in spec:
                yield with_spec({k: v for k, v in spec.items() if k != key})
        if spec.get('net', ['ok', 0]) != ['ok', 0]:
            yield with_spec(dict(spec, net=['ok', 0]))
        if 'files' in spec:
            lines = spec['files'].get('extensions.conf', '').split('\n')
            for keep in core.shrink_list(lines):
                yield with_spec(dict(spec, files={
                    'extensions.conf': '\n'.join(keep)}))
