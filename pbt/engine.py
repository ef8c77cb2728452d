# -*- coding: utf-8 -*-
"""
A small property-based testing engine (choice sequences + integrated
shrinking), running on the interpreter pyphs itself runs on.

A check module defines

    PROPERTY  : id
    RULE      : how cases are made, and what makes one non-trivial
    CASES     : {'quick': n, 'thorough': n}
    gen(d)    : draws a JSON-able case specification from a `Draw`
    run(spec, ctx) : executes it against pyphs and an oracle; returns a dict
                {'nontrivial': bool, 'labels': [...]}, or raises Violation
    EXPLICIT  : optional list of specifications executed first

Every random choice is derived from VERIF_SEED, the property id and the case
index, so a run is reproducible.  A failing case is shrunk by editing the
sequence of choices that produced it; the minimal specification becomes the
replay file.
"""
import contextlib
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken on this case."""

    def __init__(self, kind, detail=''):
        Exception.__init__(self, '{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = str(detail)


class Reject(Exception):
    """The generated case is outside the property's domain."""


class CaseTimeout(BaseException):
    pass


class Draw(object):
    """A source of bounded choices, either random or replayed."""

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = list(prefix) if prefix is not None else []
        self.choices = []

    def int(self, lo, hi):
        """Integer in [lo, hi]; shrinks towards lo."""
        n = hi - lo
        assert n >= 0, (lo, hi)
        i = len(self.choices)
        if i < len(self.prefix):
            c = min(max(int(self.prefix[i]), 0), n)
        elif self.rng is None:
            c = 0
        else:
            c = self.rng.randint(0, n)
        self.choices.append(c)
        return lo + c

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks towards False."""
        return self.int(0, den - 1) >= den - num

    def choice(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """[(weight, value), ...]; shrinks towards the first one."""
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def num(self, lo, hi, den=8):
        """Number in [lo, hi] on a grid of step 1/den (exact in binary when
        den is a power of two); shrinks towards lo."""
        return lo + self.int(0, int(round((hi - lo) * den))) / float(den)

    def signed(self, mag, den=8):
        """Number in [-mag, mag] on a grid; shrinks towards 0."""
        k = self.int(0, int(round(2 * mag * den)))
        v = (k + 1) // 2
        return (v if k % 2 else -v) / float(den)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=1, den=2):
        return [s for s in seq if self.bool(num, den)]

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


class Ctx(object):
    """Per-case context: a scratch directory and measured labels."""

    def __init__(self, scratch):
        self.scratch = scratch
        self._n = 0

    def newdir(self, name='d'):
        self._n += 1
        path = os.path.join(self.scratch, '{}{}'.format(name, self._n))
        os.makedirs(path)
        return path


def spec_key(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True)
                        .encode()).hexdigest()[:16]


def _frames(exc):
    return traceback.extract_tb(exc.__traceback__)


def from_repo(exc):
    """Did the exception pass through the code under test?"""
    root = os.path.realpath(os.path.join(REPO, 'pyphs')) + os.sep
    return any(os.path.realpath(f.filename).startswith(root)
               for f in _frames(exc))


def last_repo_site(exc):
    root = os.path.realpath(os.path.join(REPO, 'pyphs')) + os.sep
    site = None
    for f in _frames(exc):
        p = os.path.realpath(f.filename)
        if p.startswith(root):
            site = '{}:{}'.format(os.path.relpath(p, REPO), f.name)
    return site


UNINTERPRETABLE = (TypeError, ValueError, LookupError, AttributeError,
                   ArithmeticError)

CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '150'))


def _alarm(signum, frame):
    raise CaseTimeout()


class Hang(BaseException):
    """Raised by time_limit (not an Exception: nothing swallows it)."""


@contextlib.contextmanager
def time_limit(seconds):
    """Interrupt a call that may loop forever; the outer alarm is restored."""
    t0 = time.time()

    def handler(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL,
                             max(1., left - (time.time() - t0)), 5.)


def execute(mod, spec, scratch_root):
    """Run one specification.  Returns (status, info)
    status in ok / reject / timeout / violation / error."""
    scratch = tempfile.mkdtemp(dir=scratch_root)
    cwd = os.getcwd()
    os.chdir(scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    # repeated, because the code under test can swallow the exception
    signal.setitimer(signal.ITIMER_REAL,
                     getattr(mod, 'TIMEOUT', CASE_TIMEOUT), 5.)
    try:
        # the specification is passed through JSON: a replay sees the same
        out = mod.run(json.loads(json.dumps(spec)), Ctx(scratch))
        return 'ok', (out or {})
    except Reject as e:
        return 'reject', {'why': str(e)}
    except CaseTimeout:
        return 'timeout', {}
    except Violation as e:
        return 'violation', {'kind': e.kind, 'detail': e.detail[:2000],
                             'tb': ''}
    except RecursionError as e:
        return 'violation' if from_repo(e) else 'error', \
            {'kind': 'recursion', 'detail': str(e), 'tb': ''}
    except Exception as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if from_repo(e):
            return 'violation', {
                'kind': 'exception {} in {}'.format(type(e).__name__,
                                                    last_repo_site(e)),
                'detail': '{}: {}'.format(type(e).__name__, e)[:500],
                'tb': tb[-3000:]}
        if isinstance(e, UNINTERPRETABLE):
            # the code under test returned something the oracle cannot read:
            # a value of the wrong type, shape or length
            return 'violation', {
                'kind': 'uninterpretable result ({})'.format(
                    type(e).__name__),
                'detail': '{}: {}'.format(type(e).__name__, e)[:500],
                'tb': tb[-3000:]}
        return 'error', {'kind': type(e).__name__, 'detail': str(e)[:500],
                         'tb': tb[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def _try(mod, prefix, scratch):
    d = Draw(None, prefix)
    try:
        spec = mod.gen(d)
    except Reject:
        return None
    st, info = execute(mod, spec, scratch)
    return st, info, spec, d.choices


def shrink(mod, choices, spec, info, scratch,
           budget=int(os.environ.get('VERIF_SHRINK', '120')), seconds=60):
    """Minimise the choice sequence of a failing case."""
    t0 = time.time()
    best = (list(choices), spec, info)
    seen = set()
    runs = [0]

    def attempt(cand):
        key = tuple(cand)
        if key in seen or runs[0] >= budget or time.time() - t0 > seconds:
            return False
        seen.add(key)
        runs[0] += 1
        res = _try(mod, cand, scratch)
        if res is None:
            return False
        st, inf, sp, ch = res
        if st == 'violation' and inf['kind'] == best[2]['kind'] and \
                (len(ch), ch) < (len(best[0]), best[0]):
            return (ch, sp, inf)
        return False

    improved = True
    while improved and runs[0] < budget and time.time() - t0 < seconds:
        improved = False
        # delete blocks
        for size in (16, 8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0:
                res = attempt(best[0][:i] + best[0][i + size:])
                if res:
                    best, improved = res, True
                i -= size
        # zero blocks
        for size in (8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0:
                if any(best[0][i:i + size]):
                    res = attempt(best[0][:i] + [0] * size +
                                  best[0][i + size:])
                    if res:
                        best, improved = res, True
                i -= size
        # lower single choices
        for i in range(len(best[0])):
            if i >= len(best[0]):
                break
            for f in (lambda c: c // 2, lambda c: c - 1):
                if best[0][i] > 0:
                    cand = list(best[0])
                    cand[i] = f(cand[i])
                    res = attempt(cand)
                    if res:
                        best, improved = res, True
    return best, runs[0]


def write_replay(mod, spec, choices, info, tag):
    folder = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '{}-{}.json'.format(mod.PROPERTY, tag))
    with open(path, 'w') as f:
        json.dump({'property': mod.PROPERTY, 'spec': spec,
                   'choices': choices, 'kind': info.get('kind'),
                   'detail': info.get('detail'), 'traceback': info.get('tb'),
                   'replay_cmd': 'cd /verif && ./check {} --replay {}'.format(
                       mod.PROPERTY, path)}, f, indent=1)
    return path


def load_known():
    path = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('known', [])


def match_known(mod, spec, info, known):
    """A listed finding is identified by its property and its exact call site
    or history: the check module itself decides with `finding_key`."""
    keyf = getattr(mod, 'finding_key', None)
    if keyf is None:
        return None
    key = keyf(spec, info)
    for k in known:
        if k['property'] == mod.PROPERTY and k['key'] == key:
            return k
    return None


def worker(mod, seed, tier, k, n, ncases, scratch, out, stopfile, deadline):
    res = {'evaluations': 0, 'nontrivial': [], 'labels': {}, 'rejected': 0,
           'timeouts': 0, 'errors': [], 'violations': [], 'known': [],
           'samples': []}
    known = load_known()

    def account(spec, st, info):
        res['evaluations'] += 1
        if st == 'ok':
            for lab in info.get('labels', ()):
                res['labels'][lab] = res['labels'].get(lab, 0) + 1
            if info.get('nontrivial', True):
                res['nontrivial'].append(spec_key(spec))
                if len(res['samples']) < 2:
                    res['samples'].append(spec)
        elif st == 'reject':
            res['rejected'] += 1
        elif st == 'timeout':
            res['timeouts'] += 1

    def fail(spec, choices, info, tag):
        """returns True when the worker has to stop"""
        fk = match_known(mod, spec, info, known)
        if fk is not None:
            res['known'].append(fk)
            return False
        shr = 0
        if choices is not None:
            (choices, spec, info), shr = shrink(
                mod, choices, spec, info, scratch)
        path = write_replay(mod, spec, choices, info, tag)
        res['violations'].append({'kind': info['kind'],
                                  'detail': info['detail'],
                                  'replay': path, 'shrink_runs': shr,
                                  'size': len(json.dumps(spec))})
        with open(stopfile, 'w') as f:
            f.write('x')
        return True

    try:
        explicit = list(getattr(mod, 'EXPLICIT', ()))
        stop = False
        for i, spec in enumerate(explicit):
            if i % n != k:
                continue
            st, info = execute(mod, spec, scratch)
            account(spec, st, info)
            if st == 'violation':
                stop = fail(spec, None, info, 's{}-x{}'.format(seed, i))
            elif st == 'error':
                res['errors'].append(info)
            if stop:
                break
        i = k
        while not stop and i < ncases:
            if os.path.exists(stopfile) or time.time() > deadline:
                break
            rng = random.Random('{}/{}/{}'.format(seed, mod.PROPERTY, i))
            d = Draw(rng)
            try:
                spec = mod.gen(d)
            except Reject:
                res['evaluations'] += 1
                res['rejected'] += 1
                i += n
                continue
            t0 = time.time()
            st, info = execute(mod, spec, scratch)
            if os.environ.get('VERIF_TRACE'):
                with open(os.environ['VERIF_TRACE'], 'a') as f:
                    f.write('{} {} {} {:.2f} {}\n'.format(
                        mod.PROPERTY, i, st, time.time() - t0,
                        json.dumps(spec)[:1000]))
            account(spec, st, info)
            if st == 'violation':
                stop = fail(spec, d.choices, info, 's{}-c{}'.format(seed, i))
            elif st == 'error':
                info['spec'] = spec
                res['errors'].append(info)
                if len(res['errors']) > 3:
                    break
            i += n
    except BaseException as e:
        res['errors'].append({'kind': type(e).__name__, 'detail': str(e),
                              'tb': traceback.format_exc()[-3000:]})
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def main(mod, tier, seed, nworkers=None, ncases=None):
    t0 = time.time()
    nworkers = nworkers or int(os.environ.get('VERIF_WORKERS', '8'))
    if ncases is None:
        ncases = mod.CASES[tier]
    soft = {'quick': 420., 'thorough': 6 * 3600.}[tier]
    deadline = t0 + float(os.environ.get('VERIF_SOFT_LIMIT', soft))
    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(mod.PROPERTY))
    prepare = getattr(mod, 'prepare', None)
    pids = {}
    try:
        if prepare is not None:
            prepare(scratch, tier)
        stopfile = os.path.join(scratch, 'stop')
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(nworkers):
            out = os.path.join(scratch, 'res{}.json'.format(k))
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    if not os.environ.get('VERIF_SHOW'):
                        null = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(null, 1)
                        os.dup2(null, 2)
                    wscratch = os.path.join(scratch, 'w{}'.format(k))
                    os.makedirs(wscratch)
                    worker(mod, seed, tier, k, nworkers, ncases, wscratch,
                           out, stopfile, deadline)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            pids[pid] = out
        results, errors = [], []
        while pids:
            pid, status = os.wait()
            if pid not in pids:
                continue
            out = pids.pop(pid)
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                errors.append({'kind': 'worker died',
                               'detail': 'status {}'.format(status)})
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    ev = sum(r['evaluations'] for r in results)
    nontriv = set(k for r in results for k in r['nontrivial'])
    labels = {}
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    violations = [v for r in results for v in r['violations']]
    violations.sort(key=lambda v: v['size'])
    for r in results:
        errors.extend(r['errors'])
    known = {}
    for r in results:
        for k in r['known']:
            known[k['key']] = k
    timeouts = sum(r['timeouts'] for r in results)
    wall = time.time() - t0
    evidence = {
        'property': mod.PROPERTY, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': [s for r in results for s in r['samples']][:4],
            'classes': dict(sorted(labels.items())),
            'rejected': sum(r['rejected'] for r in results),
            'timeouts': timeouts,
            'cases_requested': ncases,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    folder = os.path.join(HERE, 'evidence')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '{}.json'.format(mod.PROPERTY))
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + '.tmp', path)
    for k in known.values():
        print('KNOWN-FINDING: property={} {}'.format(mod.PROPERTY,
                                                     k['what']))
    print('{}: {} cases, {} distinct non-trivial, {} rejected, {} timeouts, '
          '{:.1f} s'.format(mod.PROPERTY, ev, len(nontriv),
                            evidence['coverage']['rejected'], timeouts, wall))
    if violations:
        for v in violations[:3]:
            print('  {} -- {}'.format(v['kind'], v['detail'][:400]))
        print('VIOLATION property={} replay={}'.format(
            mod.PROPERTY, violations[0]['replay']))
        return 1
    if errors:
        print('HARNESS ERROR ({}): {}'.format(len(errors), json.dumps(
            errors[0], indent=1)[:3000].replace('\\n', '\n')))
        return 2
    if len(nontriv) == 0:
        print('HARNESS ERROR: nothing explored')
        return 2
    return 0


def replay(mod, path):
    with open(path) as f:
        data = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        st, info = execute(mod, data['spec'], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(data['spec'], indent=1)[:4000])
    print(st, info.get('kind', ''), info.get('detail', ''))
    print(info.get('tb', ''))
    if st == 'violation':
        print('VIOLATION property={} replay={}'.format(mod.PROPERTY, path))
        return 1
    return 0 if st == 'ok' else 2
