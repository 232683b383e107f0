"""Seeded generation in parallel workers, shrinking, replay files, evidence."""
import gc
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import gen

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORKERS = 8
CASE_CPU = 90           # CPU seconds; a case takes milliseconds
CASE_WALL = 200         # for threads which wait for each other forever
# what an oracle raises on answers of the wrong type
MALFORMED = (TypeError, AttributeError, LookupError, ValueError,
             AssertionError)


def set_tier(tier):
    global CASE_CPU, CASE_WALL
    gen.set_tier(tier)
    if tier == 'thorough':
        CASE_CPU, CASE_WALL = 600, 1200


class Hang(BaseException):
    pass


class Guard(object):
    """ Time limits of one case, and exceptions swallowed by GLib """

    def __init__(self, cpu=None):
        self.cpu = cpu or CASE_CPU

    def __enter__(self):
        self.fired = False
        self.escaped = []

        def fire(sig, frame):
            self.fired = True
            raise Hang()

        def hook(tp, val, tb):
            self.escaped.append((tp, val, tb))
        self.old_hook = sys.excepthook
        sys.excepthook = hook
        signal.signal(signal.SIGPROF, fire)
        signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_PROF, self.cpu, 2)
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL, 5)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.excepthook = self.old_hook
        return False


def run_case(check, case):
    """ -> (violation text or None, info dict). Harness errors propagate. """
    from world import Violation, Void, unexpected
    info = {}
    viol = None
    out, err = sys.stdout, sys.stderr
    from world import NULL
    sys.stdout = NULL
    sys.stderr = NULL
    with Guard() as g:
        try:
            check.run(case, info)
        except Violation as e:
            viol = str(e)
        except Void as e:
            info['void'] = str(e)
        except Hang:
            pass
        except RecursionError as e:
            if not in_repo(e):
                raise
            viol = 'recursion: unbounded recursion in the library'
        except Exception as e:
            # raised by the library in a query of an oracle
            if in_repo(e):
                viol = str(unexpected(e, 'a query'))
            elif isinstance(e, MALFORMED):
                import traceback
                f = traceback.extract_tb(e.__traceback__)[-1]
                viol = ('malformed: an answer of the library is not of the '
                        'expected form: %s: %s (%s, line %d)' % (
                            type(e).__name__, e, f.name, f.lineno))
            else:
                raise
        finally:
            sys.stdout, sys.stderr = out, err
    if g.fired:
        viol = 'hang: no result after %d CPU seconds or %d seconds' % (
            CASE_CPU, CASE_WALL)
    elif viol is None and g.escaped:
        import traceback
        tp, val, tb = g.escaped[0]
        if issubclass(tp, Violation):
            viol = str(val)
        elif in_tb_repo(tb):
            viol = 'callback-exception: %s' % ''.join(
                traceback.format_exception_only(tp, val)).strip() + ' at ' + \
                where(tb)
        else:
            raise val
    return viol, info


def frames(tb):
    import traceback
    return [f.filename for f in traceback.extract_tb(tb)]


def where(tb):
    import traceback
    from world import REPO
    r = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO)]
    return '%s:%s' % (r[-1].filename, r[-1].name) if r else '?'


def in_tb_repo(tb):
    from world import REPO
    return any(f.startswith(REPO + '/') for f in frames(tb))


def in_repo(e):
    return in_tb_repo(e.__traceback__)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


# ---- shrinking --------------------------------------------------------------
def shrink(check, case, deadline, log=None):
    """ Delta debugging on the operation list, then on the configuration """
    tries = [0]

    def fails(c):
        if time.time() > deadline or tries[0] > 3000:
            return False
        tries[0] += 1
        try:
            return run_case(check, c)[0] is not None
        except Exception:
            return False

    best = case
    changed = True
    while changed and time.time() < deadline:
        changed = False
        ops = best.get('ops', [])
        size = max(1, len(ops) // 2)
        while size >= 1:
            i = len(ops)
            while i > 0:
                lo = max(0, i - size)
                cand = ops[:lo] + ops[i:]
                if len(cand) < len(ops):
                    c = dict(best, ops=cand)
                    if fails(c):
                        best, ops, changed = c, cand, True
                        i = lo
                        continue
                i -= size
            if size == 1:
                break
            size //= 2
        for c in check.simplify(best):
            if len(json.dumps(c)) < len(json.dumps(best)) and fails(c):
                best, changed = c, True
                break
    return best


# ---- worker -----------------------------------------------------------------
def case_rng(prop, seed, i):
    return random.Random('%s/%s/%s' % (prop, seed, i))


def worker(check, tier, seed, w, nworkers, n, outfile, budget):
    t0 = time.time()
    set_tier(tier)
    cur = outfile + '.cur'
    res = {'evaluations': 0, 'nontrivial': [], 'stats': {}, 'samples': [],
           'violation': None, 'void': 0, 'stopped': False, 'maxcpu': 0}
    seen = set()

    def corpus():
        for name, case in load_corpus(check.id):
            yield 'corpus/' + name, case
        for i in range(w, n, nworkers):
            yield i, None
    for i, case in corpus():
        if time.time() - t0 > budget:
            res['stopped'] = True
            break
        if case is None:
            case = check.gen(case_rng(check.id, seed, i), tier)
        case = json.loads(json.dumps(case))
        if check.crashy:
            with open(cur, 'w') as f:
                json.dump(case, f)
        c0 = time.process_time()
        viol, info = run_case(check, case)
        cpu = time.process_time() - c0
        res['maxcpu'] = max(res['maxcpu'], round(cpu, 3))
        if os.environ.get('VERIF_SLOW') and cpu > 4:
            with open(os.environ['VERIF_SLOW'], 'a') as f:
                f.write(json.dumps([check.id, seed, i, cpu,
                                    info.get('stats')]) + '\n')
        res['evaluations'] += 1
        if info.get('void'):
            res['void'] += 1
        for k, v in info.get('stats', {}).items():
            res['stats'][k] = res['stats'].get(k, 0) + v
        if info.get('nontrivial'):
            h = case_hash(case)
            if h not in seen:
                seen.add(h)
                if len(res['samples']) < 2 and len(json.dumps(case)) < 1500 \
                        and (isinstance(i, str) is False):
                    res['samples'].append(case)
        if viol:
            small = case
            if not viol.startswith('hang'):
                if check.crashy:
                    shutil.copy(cur, cur + '.orig')
                small = shrink(check, case, time.time() + 60)
                viol = run_case(check, small)[0] or viol
            res['violation'] = {'case': small, 'original': case,
                                'what': viol, 'index': i}
            break
    res['nontrivial'] = sorted(seen)
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(outfile + '.tmp', outfile)
    sys.stdout.flush()
    os._exit(0)


def load_corpus(prop):
    d = os.path.join(VERIF, 'corpus', prop)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.json'):
                with open(os.path.join(d, f)) as fh:
                    out.append((f, json.load(fh)))
    return out


# ---- driver -----------------------------------------------------------------
def child_env(hashseed, extra=None):
    env = dict(os.environ)
    env.update({'PYTHONHASHSEED': str(hashseed),
                'PYTHONDONTWRITEBYTECODE': '1',
                'PYTHONPYCACHEPREFIX': '/nonexistent/pbt-pycache',
                'GDK_BACKEND': 'x11', 'GTK_A11Y': 'none', 'NO_AT_BRIDGE': '1',
                'GIO_USE_VFS': 'local', 'GSETTINGS_BACKEND': 'memory',
                'G_DEBUG': '', 'PYTHONWARNINGS': 'ignore'})
    env.pop('WAYLAND_DISPLAY', None)
    env.pop('PYTHONPATH', None)
    env.update(extra or {})
    return env


PY = '/opt/venv/bin/python'


class Xvfb(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='pbt-x-')
        path = os.path.join(self.dir, 'display')
        fd = os.open(path, os.O_CREAT | os.O_RDWR)
        log = open(os.path.join(self.dir, 'log'), 'w')
        self.p = subprocess.Popen(
            ['Xvfb', '-displayfd', str(fd), '-screen', '0', '1280x1024x24',
             '-nolisten', 'tcp'], pass_fds=[fd], stdout=log, stderr=log)
        for _ in range(600):
            if os.path.getsize(path) and open(path).read().endswith('\n'):
                break
            if self.p.poll() is not None:
                raise RuntimeError('Xvfb did not start: ' + open(
                    os.path.join(self.dir, 'log')).read())
            time.sleep(0.05)
        else:
            raise RuntimeError('Xvfb did not start in time')
        self.env = {'DISPLAY': ':' + open(path).read().strip()}
        return self

    def __exit__(self, *a):
        self.p.terminate()
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class NoX(object):
    env = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def write_replay(prop, case, what, hashseed, original=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, case_hash(case)[:10]))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'what': what, 'hashseed': hashseed,
                   'case': case, 'original': original,
                   'replay': 'cd /verif && %s pbt/check.py %s --replay %s' % (
                       PY, prop, path)}, f, indent=1)
    return path


def replay_in_fresh_process(prop, path, hashseed, xenv, timeout=300):
    """ 'violation' | 'quiet' | 'crash' | 'error' and the text """
    try:
        p = subprocess.run(
            [PY, os.path.join(HERE, 'check.py'), prop, '--replay-here', path],
            env=child_env(hashseed, xenv), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'crash', 'no result'
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode == 1:
        return 'violation', out.strip()
    if p.returncode == 0:
        return 'quiet', out.strip()
    if p.returncode < 0:
        return 'crash', 'ended by signal %d' % -p.returncode
    return 'error', out + p.stderr.decode('utf-8', 'replace')


def drive(check, tier, seed, n=None, workers=WORKERS):
    t0 = time.time()
    n = n or (check.quick if tier == 'quick' else check.thorough)
    budget = 420 if tier == 'quick' else 3 * 3600
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % check.id)
    procs = []
    rc = 0
    lines = []
    results = []
    try:
        with (Xvfb() if check.display else NoX()) as x:
            for w in range(workers):
                out = os.path.join(tmp, 'w%d' % w)
                err = open(out + '.err', 'w')
                p = subprocess.Popen(
                    [PY, os.path.join(HERE, 'check.py'), check.id, '--worker',
                     tier, str(seed), str(w), str(workers), str(n), out,
                     str(budget)],
                    env=child_env(w, x.env), stdout=err, stderr=err)
                procs.append((w, p, out))
            pending = list(procs)
            violation = None
            stall = {w: (time.time(), None) for w, p, out in procs}
            while pending and not violation:
                time.sleep(0.05)
                for item in list(pending):
                    w, p, out = item
                    code = p.poll()
                    if code is None:
                        # a worker stuck in C code never ends by itself
                        if time.time() - t0 > budget + 200:
                            p.kill()
                        continue
                    pending.remove(item)
                    if os.path.exists(out):
                        r = json.load(open(out))
                        results.append(r)
                        if r['violation']:
                            violation = (w, r['violation'])
                            break
                        continue
                    # the worker died
                    cur = None
                    for name in (out + '.cur', out + '.cur.orig'):
                        if code < 0 and os.path.exists(name):
                            try:
                                cur = json.load(open(name))
                            except ValueError:
                                cur = None
                            if cur is None:
                                continue
                            path = write_replay(check.id, cur, 'crash', w)
                            # what the memory holds decides some crashes
                            for perturb in ('', '85', '170', '255', '1', ''):
                                kind, txt = replay_in_fresh_process(
                                    check.id, path, w, dict(
                                        x.env, MALLOC_PERTURB_=perturb))
                                if kind in ('crash', 'violation'):
                                    break
                            if kind in ('crash', 'violation'):
                                violation = (w, {
                                    'case': cur, 'original': None,
                                    'what': 'crash of the process: ' + txt,
                                    'index': -1})
                                break
                            os.remove(path)
                    if violation:
                        break
                    sys.stderr.write(open(out + '.err').read()[-4000:])
                    sys.stderr.write('worker %d ended with %s\n' % (w, code))
                    rc = 2
            for w, p, out in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            if violation:
                w, v = violation
                path = write_replay(check.id, v['case'], v['what'], w,
                                    v['original'])
                kind, txt = replay_in_fresh_process(check.id, path, w, x.env)
                if kind == 'quiet' and v['original']:
                    p2 = write_replay(check.id, v['original'], v['what'], w)
                    k2, t2 = replay_in_fresh_process(check.id, p2, w, x.env)
                    if k2 in ('violation', 'crash'):
                        path, kind = p2, k2
                lines.append('%s: %s' % (check.id, v['what']))
                lines.append('replayed in a fresh process: %s' % kind)
                lines.append('VIOLATION property=%s replay=%s' % (
                    check.id, path))
                rc = 1
    finally:
        for w, p, out in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    stats, samples, nontriv, ev, void, stopped, maxcpu = {}, [], set(), 0, 0, 0, 0
    for r in results:
        ev += r['evaluations']
        void += r['void']
        stopped += bool(r['stopped'])
        maxcpu = max(maxcpu, r['maxcpu'])
        nontriv.update(r['nontrivial'])
        samples += r['samples']
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    samples.sort(key=lambda c: -len(json.dumps(c)))
    evidence = {
        'property': check.id, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': len(nontriv),
            'rule': check.rule,
            'samples': samples[:3],
            'void': void,
            'workers_stopped_by_time': stopped,
            'max_case_cpu_s': maxcpu,
            'regression_corpus': len(load_corpus(check.id)),
            'counts': dict(sorted(stats.items())),
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if rc == 1 else 0,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    for l in known_findings(check.id):
        lines.insert(0, l)
    if rc == 0 and len(nontriv) == 0:
        print('%s: no non-trivial case was generated' % check.id)
        rc = 2
    lines.insert(0, '%s %s seed=%s: %d cases, %d distinct non-trivial, '
                 '%.1f s' % (check.id, tier, seed, ev, len(nontriv),
                             time.time() - t0))
    print('\n'.join(lines))
    return rc


def known_findings(prop):
    """ Unrepaired findings listed in the committed file """
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                out.append('KNOWN-FINDING: ' + line[len('finding: '):].strip())
    return out
