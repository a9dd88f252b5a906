"""
The runner: one integer decides everything.

A property module gives generate(rng, tier) -> case (plain JSON), execute(case)
-> Outcome and optionally shrink(case). Case i of a run is generated from
Random('VERIF_SEED:property:i') and executed by worker i % WORKERS, which is a
process of its own with PYTHONHASHSEED = i % WORKERS + 1; so the case number
alone decides the execution, at any speed and at any number of cores.
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = 8
CPU_LIMIT = 20          # seconds of cpu for a process which needs 0.01
MEM_LIMIT = 3 << 30


class Outcome:
    """What one simulated run (a case) came to."""
    def __init__(self):
        self.violations = []    # [(class, text)]
        self.faults = {}        # kind -> times fired
        self.runs = 0           # simulated process executions
        self.steps = 0          # simulated operations
        self.signatures = set()  # distinct behaviours reached
        self.probes = {}        # rare conditions hit
        self.nontrivial = False
        self.digest = hashlib.sha256()
        self.trace = []
        self.hint = None        # what to change, to do only what failed

    def violate(self, class_, text):
        self.violations.append((class_, str(text)[:2000]))

    def fault(self, kind, count=1):
        self.faults[kind] = self.faults.get(kind, 0) + count

    def probe(self, name, count=1):
        self.probes[name] = self.probes.get(name, 0) + count

    def sign(self, *what):
        self.signatures.add(
            hashlib.sha256(repr(what).encode('utf-8', 'replace'))
            .hexdigest()[:16])

    def note(self, *what):
        """Add to the digest that must be the same when run again."""
        self.digest.update(repr(what).encode('utf-8', 'backslashreplace'))


# -- processes -----------------------------------------------------------

class ProcessProblem(Exception):
    pass


def in_child(func, *args):
    """
    Run func in a fork of this (pristine) process: ('ok', result),
    ('hang',), ('memory',), ('died', why) or ('harness', traceback).
    """
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            sys.unraisablehook = lambda *args: None
            try:
                result = ('ok', func(*args))
            except MemoryError:
                result = ('memory',)
            except BaseException:
                result = ('harness', traceback.format_exc())
            try:
                blob = pickle.dumps(result)
            except BaseException:
                blob = pickle.dumps(('harness', traceback.format_exc()))
            view = memoryview(blob)
            while view:
                view = view[_os_write(wfd, view):]
        finally:
            os._exit(0)
    os.close(wfd)
    chunks = []
    while True:
        chunk = _os_read(rfd, 1 << 20)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if chunks:
        try:
            return pickle.loads(b''.join(chunks))
        except Exception:
            pass
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return ('hang',)
        return ('died', 'signal {}'.format(sig))
    return ('died', 'no result')


_os_write, _os_read = os.write, os.read     # before anything is patched


def child_result(out, what, *args):
    """in_child, where all but a result is a violation or a harness error."""
    ret = in_child(what, *args)
    if ret[0] == 'ok':
        return ret[1]
    if ret[0] == 'hang':
        out.violate('hang', 'not done after {} s of cpu time'.format(
            CPU_LIMIT))
        return None
    if ret[0] == 'memory':
        out.violate('memory', 'out of memory')
        return None
    if ret[0] == 'died':
        out.violate('died', ret[1])
        return None
    raise ProcessProblem(ret[1])


def setup_worker():
    """Make this process a pristine place to run the code under test in."""
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.dont_write_bytecode = True
    for key in ('ALINT_IGNORE', 'HOME'):
        os.environ.pop(key, None)
    os.environ['HOME'] = '/home/user'
    sys.path[:] = [i for i in sys.path
                   if i and os.path.realpath(i) != os.path.realpath('.')]
    sys.path.insert(0, os.path.join(VERIF, 'stubs'))
    sys.path.insert(0, REPO)
    from . import vfs
    vfs.setup_prefixes(REPO, VERIF)
    vfs.install()


# -- the worker process --------------------------------------------------

def load(prop):
    return importlib.import_module('sim.checks.' + prop.lower())


def case_rng(seed, prop, i):
    return random.Random('{}:{}:{}'.format(seed, prop, i))


def run_case(mod, case):
    out = Outcome()
    random.seed(0)
    mod.execute(case, out)
    return out


def pick(out, known):
    """The violations that are not listed as known."""
    fresh, old = [], []
    for class_, text in out.violations:
        for entry in known:
            if entry in '{}: {}'.format(class_, text):
                old.append((class_, text, entry))
                break
        else:
            fresh.append((class_, text))
    return fresh, old


def worker_main(prop, tier, seed, w, count, deadline, known):
    setup_worker()
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    gc.collect()
    gc.freeze()     # (forks share it)
    emit = sys.stdout

    def send(kind, **kwargs):
        kwargs['kind'] = kind
        emit.write(json.dumps(kwargs) + '\n')
        emit.flush()

    again = 0
    for i in range(w, count, WORKERS):
        if time.time() > deadline:
            send('late', i=i)
            break
        case = mod.generate(case_rng(seed, prop, i), tier)
        # (A case is what can be written down, and nothing else.)
        case = json.loads(json.dumps(case))
        out = run_case(mod, case)
        if i // WORKERS % 25 == 0:
            other = run_case(mod, case)
            again += 1
            if out.digest.digest() != other.digest.digest():
                send('unstable', i=i)
        fresh, old = pick(out, known)
        send('case', i=i, faults=out.faults, runs=out.runs, steps=out.steps,
             sigs=sorted(out.signatures), probes=out.probes,
             nontrivial=out.nontrivial, old=[i[2] for i in old],
             digest=out.digest.hexdigest()[:16],
             sample=case if i < 3 else None, violations=fresh)
        if fresh:
            small, evals = minimise(mod, case, fresh[0][0], known)
            final = run_case(mod, small)
            send('violation', i=i, case=small, evals=evals,
                 violations=pick(final, known)[0],
                 trace=final.trace[-400:], digest=final.digest.hexdigest())
            break
    send('end', again=again)


def minimise(mod, case, class_, known, budget=45, max_evals=600):
    """Greedy: take any smaller case which fails in the same way."""
    if not hasattr(mod, 'shrink'):
        return case, 0
    end = time.time() + budget
    evals = 0
    hint = None
    try:
        hint = run_case(mod, case).hint
    except Exception:
        pass
    progress = True
    while progress and time.time() < end and evals < max_evals:
        progress = False
        for smaller in mod.shrink(case):
            if time.time() > end or evals >= max_evals:
                break
            evals += 1
            try:
                smaller = json.loads(json.dumps(smaller))
                out = run_case(mod, smaller)
            except Exception:
                continue
            if any(c == class_ for c, _ in pick(out, known)[0]):
                case, progress, hint = smaller, True, out.hint
                break
    if hint:
        # And nothing but the one run that fails.
        final = json.loads(json.dumps(dict(case, **hint)))
        try:
            out = run_case(mod, final)
        except Exception:
            return case, evals
        if any(c == class_ for c, _ in pick(out, known)[0]):
            return final, evals + 1
    return case, evals


def shrink_list(items):
    """Smaller versions of a list."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield items[:i] + items[i + size:]
        size //= 2


# -- the parent ------------------------------------------------------------

def no_aslr():
    """The command prefix to have the same addresses every time."""
    if 'prefix' not in _no_aslr:
        prefix = ['setarch', '-R']
        try:
            ok = subprocess.call(
                prefix + ['true'], stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 0
        except OSError:
            ok = False
        _no_aslr['prefix'] = prefix if ok else []
    return list(_no_aslr['prefix'])


_no_aslr = {}


def worker_env(hashseed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPATH'] = VERIF
    env['LC_ALL'] = 'C.UTF-8'
    env['PYTHONUTF8'] = '1'
    env.pop('ALINT_IGNORE', None)
    return env


def known_findings(prop):
    """The keys of the findings, and the lines to print for them."""
    ret = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('finding: property={} '.format(prop)):
                    ret.append(line.split(' ', 2)[2])
    except FileNotFoundError:
        pass
    # "key | description"
    return {i.split(' | ')[0]: i for i in ret}


def run(prop, tier, seed):
    started = time.time()
    sys.path.insert(0, VERIF)
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    sys.dont_write_bytecode = True
    info = importlib.import_module('sim.budget').BUDGET[prop]
    count = int(info['quick'] if tier == 'quick' else info['thorough'])
    if os.environ.get('VERIF_COUNT'):
        count = int(os.environ['VERIF_COUNT'])
    wall = 420 if tier == 'quick' else info.get('wall', 3000)
    if os.environ.get('VERIF_WALL'):
        wall = int(os.environ['VERIF_WALL'])
    deadline = started + wall
    findings = known_findings(prop)
    print('seed={} property={} tier={} cases={}'.format(
        seed, prop, tier, count))
    sys.stdout.flush()
    procs = []
    for w in range(WORKERS):
        procs.append(subprocess.Popen(
            no_aslr() + [sys.executable, '-m', 'sim.worker', prop, tier, str(seed), str(w),
             str(count), str(deadline), json.dumps(sorted(findings))],
            cwd='/', env=worker_env(w + 1), stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    total = {'cases': 0, 'runs': 0, 'steps': 0, 'again': 0, 'unstable': 0,
             'late': 0}
    faults, probes, sigs, samples = {}, {}, set(), {}
    nontrivial = set()
    violations, errors, old = [], [], {}
    buffers = {p.stdout: b'' for p in procs}
    errbufs = {p.stderr: b'' for p in procs}
    ended = 0
    hard = deadline + 240
    open_fds = set(buffers) | set(errbufs)
    while open_fds:
        if time.time() > hard:
            errors.append('workers did not stop in time')
            break
        for fp in select.select(list(open_fds), [], [], 5)[0]:
            data = os.read(fp.fileno(), 1 << 16)
            if not data:
                open_fds.discard(fp)
                continue
            if fp in errbufs:
                errbufs[fp] = (errbufs[fp] + data)[-20000:]
                continue
            buffers[fp] += data
            *lines, buffers[fp] = buffers[fp].split(b'\n')
            for line in lines:
                msg = json.loads(line)
                if msg['kind'] == 'case':
                    total['cases'] += 1
                    total['runs'] += msg['runs']
                    total['steps'] += msg['steps']
                    for key, val in msg['faults'].items():
                        faults[key] = faults.get(key, 0) + val
                    for key, val in msg['probes'].items():
                        probes[key] = probes.get(key, 0) + val
                    sigs.update(msg['sigs'])
                    if msg['nontrivial']:
                        nontrivial.add(msg['digest'])
                    if msg['sample'] is not None:
                        samples[msg['i']] = msg['sample']
                    for key in msg['old']:
                        old[key] = old.get(key, 0) + 1
                elif msg['kind'] == 'violation':
                    violations.append(msg)
                elif msg['kind'] == 'end':
                    total['again'] += msg['again']
                    ended += 1
                elif msg['kind'] in ('unstable', 'late'):
                    total[msg['kind']] += 1
    for p in procs:
        if p.poll() is None and time.time() > hard:
            p.kill()
        p.wait()
        if p.returncode != 0:
            errors.append('worker exit {}'.format(p.returncode))
    if errors or ended != WORKERS:
        for buf in errbufs.values():
            if buf:
                sys.stderr.write(buf.decode('utf-8', 'replace'))
                break
    wall_s = time.time() - started
    level = info['level']
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': total['cases'],
            'distinct_nontrivial': len(nontrivial),
            'rule': info['rule'],
            'samples': [_short(samples[i]) for i in sorted(samples)],
            'simulated_process_runs': total['runs'],
            'simulated_operations': total['steps'],
            'simulated_time': '{}progress is counted in simulated '
            'operations'.format(
                '{} s of waiting for stalled clients; other than that, '.format(
                    probes['simulated seconds'])
                if 'simulated seconds' in probes else
                'the code under test has no clock or timer; '),
            'runs_per_hour': int(total['runs'] * 3600 / wall_s),
            'seeds_per_hour': int(total['cases'] * 3600 / wall_s),
            'faults_fired': dict(sorted(faults.items())),
            'fault_kinds_fired': len(faults),
            'distinct_behaviours': len(sigs),
            'distinct_behaviours_measure': info['measure'],
            'probes': dict(sorted(probes.items())),
            'cases_run_twice_to_check_determinism': total['again'],
            'cases_not_repeatable': total['unstable'],
            'workers_stopped_by_wall_clock': total['late'],
            'real_components': info['real'],
            'stub_components': info['stub'],
            'python': sys.version.split()[0],
            'hash_seeds': list(range(1, WORKERS + 1)),
            'known_findings_seen': old,
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(wall_s, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as fp:
        json.dump(evidence, fp, indent=1, sort_keys=True)
        fp.write('\n')
    os.rename(path + '.tmp', path)
    for key, line in sorted(findings.items()):
        print('KNOWN-FINDING: property={} {} (seen {} times)'.format(
            prop, line, old.get(key, 0)))
    print('cases={cases} runs={runs} steps={steps} again={again} '
          'unstable={unstable}'.format(**total),
          'behaviours={} nontrivial={} wall={:.1f}s'.format(
              len(sigs), len(nontrivial), wall_s))
    if violations:
        violations.sort(key=lambda m: (len(json.dumps(m['case'])), m['i']))
        for msg in violations:
            replay = write_replay(prop, seed, msg)
            if confirm(replay):
                print('case {} (minimised in {} evaluations):'.format(
                    msg['i'], msg['evals']))
                for class_, text in msg['violations'][:3]:
                    print('  {}: {}'.format(class_, text))
                print('VIOLATION property={} replay={}'.format(prop, replay))
                return 1
        errors.append('violations did not replay: {}'.format(
            violations[0]['violations'][:1]))
    if errors or ended != WORKERS:
        print('ERROR: {}'.format(errors or 'worker lost'))
        return 2
    if not total['cases']:
        print('ERROR: nothing was run')
        return 2
    return 0


def _short(case):
    text = json.dumps(case)
    return case if len(text) < 3000 else text[:3000] + '...'


def write_replay(prop, seed, msg):
    path = os.path.join(VERIF, 'replays', '{}-{}-{}.json'.format(
        prop, seed, msg['i']))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fp:
        json.dump({
            'property': prop, 'seed': seed, 'case_number': msg['i'],
            'hashseed': msg['i'] % WORKERS + 1, 'case': msg['case'],
            'violations': msg['violations'], 'trace': msg['trace'],
        }, fp, indent=1)
        fp.write('\n')
    return path


def confirm(path):
    """Does the replay file fail in the same way, in a fresh process?"""
    for _ in range(2):
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), 'replay', path],
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        if p.returncode != 1:
            sys.stdout.write(p.stdout.decode('utf-8', 'replace')[-3000:])
            return False
    return True


def replay(path):
    with open(path) as fp:
        data = json.load(fp)
    if os.environ.get('PYTHONHASHSEED') != str(data['hashseed']) or (
            'SIM_REPLAY' not in os.environ):
        env = worker_env(data['hashseed'])
        env['SIM_REPLAY'] = '1'
        return subprocess.call(
            no_aslr() + [sys.executable, os.path.join(VERIF, 'check.py'),
                         'replay', os.path.abspath(path)], env=env, cwd='/')
    sys.path.insert(0, VERIF)
    prop = data['property']
    setup_worker()
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    out = run_case(mod, data['case'])
    fresh = pick(out, sorted(known_findings(prop)))[0]
    for line in out.trace:
        print(line)
    for class_, text in fresh:
        print('{}: {}'.format(class_, text))
    want = set(c for c, _ in data['violations'])
    if want & set(c for c, _ in fresh):
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    print('no violation')
    return 0
