"""C06: the web service gives away nothing and stays available."""
import errno
import json
import os
import posixpath
import sys

from .. import core, vfs
from ..core import REPO
from . import web

LIMIT = 64 * 1024
TARGETS = [
    '/etc/passwd', '/etc/asterisk/extensions.conf', 'secret.conf',
    './secret.conf', '../work/secret.conf', '/work/secret.conf',
    '/work/extensions.conf', '/proc/self/environ', '~/secret.conf',
    '/home/user/secret.conf', 'func_odbc.conf', '/etc/asterisk/*.conf',
    '*.conf', '/', '.', '..', '/dev/null', 'nosuch.conf', '/nosuch/x',
    'extensions.conf.d/x', 'EXTENSIONS.CONF',
    'wsgi.py', 'index.html', 'http://localhost/x', '\xe9.conf',
    REPO + '/README.rst', REPO + '/web/wsgi.py', '//etc/passwd',
    '/etc/./passwd', '/etc/../etc/passwd', 'a b.conf', '0', '-']
SELF = ['extensions.conf', './extensions.conf', 'extensions.conf/']
FORMS = ['#include {}', '#include "{}"', '#include <{}>', '#tryinclude {}',
         '#tryinclude "{}"', '#include    {}', '#include\t"{}"',
         '#include {} ; comment', '#include "{}" ;x']


def literals():
    """Words that mean something to the service."""
    import ast
    with open(web.WSGI, 'rb') as fp:
        tree = ast.parse(fp.read())
    words = {i.value for i in ast.walk(tree) if isinstance(i, ast.Constant) and
             isinstance(i.value, str) and 0 < len(i.value) < 40}
    return sorted(i for i in words if not set(i) & set(' \r\n"<>;\\\0'))


_literals = []


def target(rng):
    if not _literals:
        _literals.extend(literals() or ['x'])
    if rng.random() < .6:
        return rng.choice(TARGETS)
    return rng.choice(['{}', '{}/x.conf', '{}x.conf', '{}../../etc/passwd',
                       '{}/../../work/secret.conf', '{}../secret.conf',
                       '../{}', '/{}', 'x{}', './{}', '{}../index.html',
                       ]).format(rng.choice(_literals))


def prepare():
    web.prepare()
    sys.addaudithook(audit)


# Whatever the code looks at outside of the simulated file system.
_seen = None
_own = tuple(os.path.realpath(i) + '/' for i in (
    os.path.dirname(os.__file__), core.VERIF, sys.prefix + '/lib'))
EVENTS = {'open', 'os.listdir', 'os.scandir', 'os.system', 'os.exec',
          'os.posix_spawn', 'subprocess.Popen', 'os.remove', 'os.rename',
          'os.mkdir', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate',
          'socket.connect', 'socket.bind', 'os.chmod', 'os.utime'}


def audit(event, args):
    if _seen is None or event not in EVENTS:
        return
    path = args[0] if args else ''
    if event in ('open', 'os.listdir', 'os.scandir'):
        if isinstance(path, int):
            return
        try:
            path = os.path.normpath(os.fsdecode(path))
        except (TypeError, ValueError):
            return
        # The code itself is loaded when it is first used, and read again
        # for a traceback.
        if path.startswith(_own) or (path + '/').startswith(
                REPO + '/asterisklint/') or (
                    path.startswith(REPO) and path.endswith('.py')):
            return
    _seen.append([event, str(path)])


def collect():
    global _seen
    ret, _seen = _seen, []
    return ret


# -- cases ------------------------------------------------------------------

def hostile(rng):
    """Text of at most 60 kB which asks a lot."""
    n = rng.choice([10, 300, 1500, 20000])
    kind = rng.choice(['nest', 'diamond', 'jumps', 'repeat', 'wide', 'line',
                       'contexts', 'same', 'ladder', 'blank'])
    lines = ['[general]', '[globals]', '[default]']
    if kind == 'nest':
        opening = rng.choice(['${', '$[', '(', '[', '"', '\\', '${x:', '"(',
                              'IF(', '${IF(', '${A(', '$[${', ',', '{', '<'])
        closing = rng.choice(['', '}', ')', ']', ')}', '"', '}]'])
        shape = rng.choice(['exten => s,1,NoOp({})', 'exten => s,1,Set(a={})',
                            'exten => {},1,NoOp', 'include => {}', '{}',
                            'exten => s,1,Goto({})', '[{}]',
                            'exten => s,1,Set({}=1)', 'exten => _{},1,NoOp',
                            'exten => s,1,ExecIf({}?NoOp({}))', 'x = {}',
                            'exten => s,1,{}', 'exten => s,1,While($[{}])'])
        n = min(n, 50000 // (len(opening) + len(closing)))
        lines.append(shape.replace('{}', opening * n + closing * n, 1))
    elif kind == 'diamond':
        for i in range(min(n, 700)):
            lines += ['[c{}]'.format(i), 'include => c{}'.format(i + 1),
                      'include => c{}'.format(i + rng.choice([1, 2]))]
        lines += ['[x]', 'exten => s,1,Goto(c0,s,1)', 'exten => s,2,Gosub('
                  'c1,nosuch,1)']
    elif kind == 'ladder':
        m = min(n, 60)
        for i in range(m):
            lines.append('[c{}]'.format(i))
            lines += ['include => c{}'.format(j) for j in range(m)]
        lines += ['exten => s,{},Goto(c{},{},1)'.format(i + 1, i, i)
                  for i in range(m)]
    elif kind == 'jumps':
        m = min(n, 600)
        for i in range(m):
            lines.append('exten => e{},1,Goto(e{},1)'.format(
                i, rng.randrange(m)))
    elif kind == 'repeat':
        line = rng.choice(['exten => s,1,NoOp', 'include => default', '[a]',
                           'same => n,Foo()', ';', '#exec x', '[globals]',
                           'exten => _X.,1,Goto(1)', '[default](+)', '\\',
                           'switch => x', 'ignorepat => 9', ';--', '\t'])
        lines += [line] * min(n, 55000 // (len(line) + 1))
    elif kind == 'wide':
        char = rng.choice(['x', ' ', ',', ';', '_', '&', '|', '=', '\t', '0',
                           'X', 'N', '.', '!', '\x00', '\xe9'])
        lines.append('exten => ' + char * min(n, 25000) + rng.choice(
            ['', ',1,NoOp', ',1,NoOp(', ')', ',n(']))
    elif kind == 'line':
        lines.append('exten => s,1,Dial(' + '&'.join(
            ['SIP/x'] * min(n, 5000)) + ')')
    elif kind == 'blank':
        n = rng.choice([300, 59000, 59000, 59000])
        lines.append('{}{}{}'.format(
            rng.choice(['', '', '#include', 'a', 'exten', '[a']), ' ' * n,
            rng.choice(['x', 'x', ';', ']'])))
    elif kind == 'contexts':
        m = min(n, 2500)
        lines += ['[c{}]'.format(i) for i in range(m)]
    else:
        m = min(n, 2500)
        lines += ['exten => _[{}]{},1,Goto(x{})'.format(
            ''.join(rng.sample('0123456789abc', 5)), 'X' * (i % 9), i)
            for i in range(min(m, 250))]
    text = '\n'.join(lines)
    while len(text.encode('utf-8')) > 60000:
        text = text[:-1000]
    return text


def attack(rng):
    r = rng.random()
    if r < .45:
        while True:
            text = web.any_text(rng)
            if ';--' not in text:
                break
        lines = text.split('\n')
        own = rng.random() < .15
        name = rng.choice(SELF) if own else target(rng)
        if not own and posixpath.normpath(name) == 'extensions.conf':
            own = True
        if not own and rng.random() < .1:
            name += '\0'
        form = rng.choice(FORMS)
        at = rng.randrange(len(lines) + 1)
        # Not one that is continued or cut off by an end of file mark.
        lines.insert(at, form.format(name))
        spec = web.check_request('\n'.join(lines))
        return spec, 'own' if own else 'include'
    if r < .55:
        return web.check_request(hostile(rng)), 'hostile'
    if r < .7:
        length = LIMIT + rng.choice([1, 2, 1000, 10 ** 6])
        spec = sized(rng, length)
        if rng.random() < .3:
            spec['length'] = rng.choice([10 ** 9, 10 ** 30, LIMIT + 1])
        spec['direct'] = True
        return spec, 'large'
    if r < .75:
        return sized(rng, LIMIT - rng.choice([0, 0, 1, 100])), 'fits'
    if r < .85:
        spec = web.any_request(rng)
        spec.pop('raw', None)
        spec.pop('net', None)
        spec.update(direct=True, multithread=True)
        return spec, 'threads'
    if r < .9:
        files = {'extensions.conf': '[a]\n'}
        for name in rng.sample(TARGETS, 3):
            files[name] = '[b]\n#include "secret.conf"\n'
        if rng.random() < .5:
            del files['extensions.conf']
        spec = {'path': '/dialplan-check', 'method': 'POST', 'files': files}
        return spec, 'names'
    return web.any_request(rng), 'other'


def sized(rng, length):
    spec = web.check_request('[a]\n')
    spare = length - len(web.body_of(spec))
    spec['files']['extensions.conf'] += ';' + 'x' * (spare - 1)
    assert len(web.body_of(spec)) == length
    return spec


def generate(rng, tier):
    history, kinds = [], []
    for _ in range(rng.choice([1, 2, 4, 8])):
        spec, kind = attack(rng)
        if kind in ('include', 'hostile', 'names') and rng.random() < .2:
            spec['net'] = rng.choice([
                ['chunks', 50], ['cut', rng.randrange(1000)],
                ['reset', rng.randrange(1000)], ['nosend', 1],
                ['stall', rng.randrange(1000)], ['stallsend', 1],
                ['nosend', 2]])
        if kind != 'threads' and rng.random() < .05:
            spec['internal'] = rng.choice(
                [errno.EMFILE, errno.EACCES, errno.EIO])
        history.append(spec)
        kinds.append(kind)
    return {'history': history, 'kinds': kinds}


HEALTH = {'path': '/healthz', 'method': 'GET'}
PAGE = {'path': '/', 'method': 'GET'}
CHECK = web.check_request('[general]\n[globals]\n[a]\nexten => 1,1,Nope()\n'
                          'exten => _[12]X,1,NoOp(${x\n')
FINAL = [HEALTH, PAGE, CHECK]
_fresh = []


def execute(case, out):
    core.CPU_LIMIT = 10     # (2 is the most that is needed)
    if not _fresh:
        sub = core.Outcome()        # not part of this case
        res = web.run(sub, FINAL)
        _fresh.append((res and [i['answer'] for i in res.extra],
                       sub.violations))
    answers, violations = _fresh[0]
    for violation in violations:
        out.violate(*violation)
    if not violations and (
            any(i[0][8:] != ' 200 OK' for i in answers) or
            'E_APP_MISSING' not in answers[2][2]):
        out.violate('down', 'a fresh server answers {}'.format(answers))
    if out.violations:
        return
    res = web.run(out, case['history'] + FINAL, collect)
    if res is None:
        return
    out.nontrivial = True
    for n, spec in enumerate(case['history']):
        judge(n, spec, case['kinds'][n], res.extra[n], out)
        if out.violations:
            out.trace.append(repr(res.extra[n]))
            return
    ends = [i['answer'] for i in res.extra[-len(FINAL):]]
    for spec, want, have in zip(FINAL, answers, ends):
        if want != have:
            out.violate('down', 'after these requests {} {} gets {}'.format(
                spec['method'], spec['path'], have))
    if web.SECRET in res.err + res.out:
        out.probe('secret in the log')


def judge(n, spec, kind, got, out):
    answer = got['answer']
    status = answer[0][9:12]
    where = 'request {} ({}): '.format(n, kind)
    out.sign(kind, answer[0], got['fired'], bool(got['ops']))
    text = ' '.join([answer[0]] + answer[1] + [answer[2]])
    if web.SECRET in text:
        out.violate('secret', where + 'file of the server in ' + text[:300])
        return
    if got['ops'] or got['audit']:
        out.violate('touch', where + 'the server did {}'.format(
            (got['ops'] + got['audit'])[:5]))
        return
    if spec.get('net', ['ok', 0])[0] not in ('ok', 'chunks'):
        return
    if 'raw' in spec or spec.get('version') or spec.get('internal'):
        return
    refused = status.startswith('4') or status == '501'
    if kind == 'include':
        out.probe('include')
        if not refused:
            out.violate('include', where + 'an include is answered with '
                        '{}: {}'.format(answer[0], answer[2][:200]))
    elif kind == 'own':
        if not refused and not (
                status == '200' and 'E_PP_INCLUDE_RECURSIVE' in answer[2]):
            out.violate('include', where + 'an include of itself is answered '
                        'with {}: {}'.format(answer[0], answer[2][:200]))
    elif kind == 'large':
        if not refused:
            out.violate('large', where + 'answered with {}'.format(answer[0]))
        elif got['taken']:
            out.violate('large', where + '{} bytes of the body were read'
                        .format(got['taken']))
    elif kind == 'fits':
        if status != '200':
            out.violate('large', where + 'of {} bytes, answered with {}'
                        .format(len(web.body_of(spec)), answer[0]))
    elif kind == 'threads':
        if not refused:
            out.violate('threads', where + 'a concurrent server is answered '
                        'with {}'.format(answer[0]))
        elif got['taken']:
            out.violate('threads', where + '{} bytes of the body were read'
                        .format(got['taken']))


def shrink(case):
    pairs = list(zip(case['history'], case['kinds']))
    for keep in core.shrink_list(pairs):
        yield dict(case, history=[i[0] for i in keep],
                   kinds=[i[1] for i in keep])
    for n, (spec, kind) in enumerate(pairs):
        def with_spec(new):
            history = list(case['history'])
            history[n] = new
            return dict(case, history=history)
        for key in ('internal', 'headers', 'version', 'multiprocess', 'net'):
            if key in spec:
                yield with_spec({k: v for k, v in spec.items() if k != key})
        if 'files' in spec and kind not in ('large', 'fits'):
            lines = spec['files'].get('extensions.conf', '').split('\n')
            for keep in core.shrink_list(lines):
                if kind in ('include', 'own') and not any(
                        i.startswith(('#include', '#tryinclude'))
                        for i in keep):
                    continue
                yield with_spec(dict(spec, files=dict(
                    spec['files'], **{'extensions.conf': '\n'.join(keep)})))
