"""C16 - The worker pool returns every submitted task result exactly once."""
import itertools
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import threading
import numpy as np

ASSUMPTIONS = ['results with a reserved code (10, 20) may be skipped by result()/all_results(), as documented, or returned, each at most once',
               'multi-life workers only; tasks themselves terminate and do not kill their process',
               'controlled scheduler: queues, feeder threads (64 kB pipe) and process life cycle modelled on CPython multiprocessing; every interleaving of '
               'their visible operations up to commutation in the exhaustive shards, a bounded number of deviations from a fixed scheduler elsewhere']

BIG = 70000
CODES = (10, 20)


class Odd(Exception):
    """Cannot be rebuilt from its args."""

    def __init__(self, a, b):
        super(Odd, self).__init__('%s-%s' % (a, b))


class Local(object):
    def __init__(self, i):
        self.f = lambda: i


class Task(object):
    duration = 0

    def __init__(self, kind, i, duration=0):
        self.kind = kind
        self.i = i
        self.duration = duration

    def __call__(self):
        k, i = self.kind, self.i
        if self.duration:
            import time
            time.sleep(self.duration)
        return value(k, i)


class BadTask(object):
    """Raises when the worker takes it off the queue."""

    def __init__(self, kind, i, duration=0):
        self.i = i

    def __getstate__(self):
        return {'i': self.i}

    def __setstate__(self, s):
        raise ValueError('task', s['i'])


def value(k, i):
    from MTfit.probability import LnPDF
    if k == 'ok':
        return {'n': i, 'a': np.arange(3.) + i}
    if k == 'str':
        return 'r%d' % i
    if k == 'raise':
        raise ValueError('task', i)
    if k == 'raise2':
        raise (KeyError, TypeError, ZeroDivisionError, IOError, EOFError)[i % 5]('task', i)
    if k == 'odd':
        raise Odd('task', i)
    if k == 'exit':
        sys.exit('task%d' % i)
    if k == 'code':
        return 10
    if k == 'code2':
        return 20
    if k == 'near':
        return (11, 1, True, 10., '10', np.array([10]), [10], 100)[i % 8]
    if k == 'none':
        return (None, 0, False, [], {}, '', -1, 0.)[i % 8]
    if k == 'lnpdf':
        return {'ln_pdf': LnPDF(np.array([[-1.5 - i, -2., -np.inf]]), dV=.25 + i), 'n': i}
    if k == 'barelnpdf':
        return LnPDF(np.array([[-1.5, -2. - i]]), dV=.5 + i)
    if k == 'nested':
        return {'x': {'ln_pdf': LnPDF(np.array([[-.5, -i - 1.]]), dV=2. + i), 'k': i}, 'l': [LnPDF(np.array([[-3. - i], [-4.]]), dV=i + .125), i], 't': (i, {'q': [{'p': LnPDF(np.array([[0., -i]]), dV=3)}]})}
    if k == 'big':
        return {'b': chr(97 + i % 26) * BIG, 'ln_pdf': LnPDF(np.array([[-1. - i]]), dV=1.5)}
    if k == 'unsendable':
        return Local(i)
    raise AssertionError(k)


def canon(x):
    """A comparable image of a result: values, exceptions by type and arguments, log PDFs by values and volume element."""
    from MTfit.probability import LnPDF
    if isinstance(x, LnPDF):
        a = np.asarray(x._ln_pdf, dtype=float)
        return ('LnPDF', a.shape, a.tobytes(), float(x.dV))
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted(((repr(k), canon(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(v) for v in x)
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, BaseException):
        return ('exception', type(x).__name__, repr(x.args))
    if isinstance(x, str) and len(x) > 100:
        return ('str', len(x), x[:4], hash(x))
    return (type(x).__name__, repr(x))


LOOSE = {'odd': lambda x, i: isinstance(x, Exception) and 'task-%d' % i in str(x),
         'exit': lambda x, i: isinstance(x, BaseException) and 'task%d' % i in str(x),
         'unsendable': lambda x, i: isinstance(x, Exception),
         'badtask': lambda x, i: isinstance(x, Exception) and "('task', %d)" % i in repr(x)}


def expected(k, i):
    try:
        return canon(value(k, i))
    except Exception as e:
        return canon(e)


def is_code(x):
    return isinstance(x, int) and not isinstance(x, bool) and x in CODES


class Ledger(object):
    """What has been submitted and collected; every result must settle exactly one outstanding task."""

    def __init__(self):
        self.open = []
        self.errors = []
        self.codes = []

    def submit(self, k, i):
        if k in ('code', 'code2'):
            self.codes.append({'code': 10, 'code2': 20}[k])
        else:
            self.open.append((k, i))

    def settle(self, x):
        if is_code(x):
            if x in self.codes:
                self.codes.remove(x)
            else:
                self.errors.append('status code %r was never produced or was returned twice' % x)
            return
        c = None
        for k, i in sorted(self.open, key=lambda t: t[0] == 'unsendable'):  # any exception can stand for that one, so it is matched last
            if k in LOOSE:
                if LOOSE[k](x, i):
                    self.open.remove((k, i))
                    return
            else:
                c = c or canon(x)
                if expected(k, i) == c:
                    self.open.remove((k, i))
                    return
        self.errors.append('result %s matches no outstanding task of %s' % (str(x)[:80] if not isinstance(x, BaseException) else repr(x)[:80], self.open[:8]))


def operate(pool, word, ledger, duration=None):
    """word: 'R' collect one, 'A' collect all, 'C' close, or (kind) submit; yields nothing, fills the ledger."""
    n = 0
    for op in word:
        if op == 'R':
            ledger.settle(pool.result())
            ledger.after = ('R', pool.number_jobs)
        elif op == 'A':
            r = pool.all_results()
            for x in r:
                ledger.settle(x)
            if ledger.open:
                ledger.errors.append('all_results() returned without %s' % ledger.open[:5])
            if pool.number_jobs:
                ledger.errors.append('%d jobs counted after collecting everything' % pool.number_jobs)
            ledger.codes = []
            del ledger.open[:]
        else:
            ledger.submit(op, n)
            d = duration(n) if duration else 0
            if op == 'badtask':
                pool.custom_task(BadTask, op, n)
            elif n % 2:
                pool.custom_task(Task, op, n, d)
            else:
                pool.task(op, n, d)
            n += 1
    pool.close()
    return ledger


class Bench(object):
    def __init__(self, R):
        from mc import sched
        self.R = R
        self.sched = sched
        self.unsupported = None
        import MTfit.probability      # noqa: real modules first
        try:
            self.mod = sched.load('MTfit.utilities.multiprocessing_helper')
        except sched.Unsupported as e:
            self.unsupported = str(e)
        else:
            class G(object):
                @staticmethod
                def collect(*a):
                    return 0
            if hasattr(self.mod, 'gc'):
                self.mod.gc = G

    def run(self, W, word, chooser, limit=10 ** 9, early=0):
        """Explore; returns number of executions."""
        R, sched = self.R, self.sched
        if self.unsupported:
            return 0
        mod = self.mod
        bad = {}

        def driver():
            pool = mod.JobPool(W, task=Task)
            return operate(pool, word, Ledger())

        def visit(status, led, s):
            R.state()
            R.trans(len(s.trace))
            if s.crashes and 'Unsupported' in s.crashes[0]:
                raise sched.Unsupported(s.crashes[0])
            if status == 'hang':
                live = [p.name for p in s.procs if p._mc_alive]
                bad.setdefault('hang', ('%s (running: %s; results lost in a queue: %s)' % (led, live, s.lost), s.trace[:]))
            else:
                for e in led.errors:
                    bad.setdefault('results', (e, s.trace[:]))
                live = [p.name for p in s.procs if p._mc_alive]
                if live:
                    bad.setdefault('close', ('processes still running after close(): %s' % live, s.trace[:]))
                R.outcome('orders', (W, word, tuple(led.errors)))
            return not bad
        try:
            runs, pruned, complete = sched.explore(driver, chooser, visit, limit=limit, early=early)
        except sched.Unsupported as e:
            self.unsupported = str(e)
            R.notes.append('controlled scheduler not applicable to this pool (%s); real processes only' % e)
            return 0
        R.trans(pruned)
        for k in ('hang', 'results', 'close'):
            v = bad.get(k)
            R.check(v is None, 'pool-%s' % k, '%d workers, history %s: %s' % (W, '-'.join(word), v and v[0]), {'workers': W, 'history': word, 'schedule': v and v[1]})
        if not complete and not bad:
            R.cap('W=%d %s: stopped after %d executions' % (W, '-'.join(word), runs + pruned))
        R.outcome('words', (W, word))
        return runs


def words(kinds, nmax, length):
    """All histories of submissions (kinds), single collections and full collections, close() implied at the end."""
    def rec(w, n, real, total):
        yield w
        if len(w) == length:
            return
        if n < nmax:
            for k in kinds:
                c = k in ('code', 'code2')
                for x in rec(w + (k,), n + 1, real + (not c), total + 1):
                    yield x
        if real > 0:
            # any number of codes may go with it
            for x in rec(w + ('R',), n, real - 1, total - 1):
                yield x
        if w and w[-1] != 'A':
            for x in rec(w + ('A',), n, 0, 0):
                yield x
    return rec((), 0, 0, 0)


def shards(tier, seed):
    out = []
    n = 3 if tier == 'quick' else 4
    parts = 4 if tier == 'quick' else 8
    for p in range(parts):
        out.append(dict(name='one-worker-%d' % p, mode='c', fn='one', kw=dict(n=n, part=p, parts=parts), cost=4))
    for p in range(6):
        out.append(dict(name='two-workers-%d' % p, mode='c', fn='two', kw=dict(tier=tier, part=p, parts=6), cost=6))
    for p in range(4):
        out.append(dict(name='delays-%d' % p, mode='c', fn='delays', kw=dict(tier=tier, part=p, parts=4), cost=6))
    out.append(dict(name='payloads', mode='c', fn='payloads', kw=dict(tier=tier), cost=5))
    out.append(dict(name='real', mode='c', fn='real', kw=dict(tier=tier), cost=12))
    return out


def one(R, n, part, parts):
    """One worker: all histories of up to n submissions, every interleaving."""
    B = Bench(R)
    kinds = ('str', 'raise', 'code')
    for j, w in enumerate(words(kinds, n, n + 3)):
        if j % parts == part:
            B.run(1, w, B.sched.SleepSets(), early=1 if len(w) < 5 else 0)
            R.sample({'workers': 1, 'history': w})


def two(R, tier, part, parts):
    """Two workers: all histories of up to 2 submissions (3 thorough), every interleaving."""
    B = Bench(R)
    js = [(w, 0) for w in words(('str', 'raise', 'code'), 2, 4)]
    js += [(w, 0) for w in [('str', 'str', 'str', 'A'), ('raise', 'str', 'R', 'raise', 'A'), ('code', 'str', 'str', 'A'), ('str', 'code', 'R', 'str', 'A'), ('raise', 'raise', 'A', 'str', 'A'), ('raise', 'str', 'str')]]
    js += [(w, 1) for w in [(), ('str', 'A'), ('raise', 'R'), ('str', 'str'), ('code', 'A')]]
    if tier != 'quick':
        js += [(w, 0) for w in words(('str', 'raise', 'code'), 3, 5) if sum(x not in 'RA' for x in w) == 3]
    for j, (w, early) in enumerate(js):
        if j % parts == part:
            B.run(2, w, B.sched.SleepSets(), limit=60000, early=early)


def delays(R, tier, part, parts):
    """More workers and tasks: every schedule within a number of deviations from three base schedulers."""
    B = Bench(R)
    deep = 1 if tier != 'quick' else 0
    js = []
    for w in [('str', 'raise', 'code', 'str', 'A'), ('raise', 'raise', 'raise', 'A', 'str', 'str', 'A'), ('str', 'str', 'R', 'code', 'R', 'raise', 'str', 'A'), ('code', 'code2', 'code', 'str', 'R', 'str', 'A'), ('raise', 'str', 'code', 'str')]:
        for W in (2, 3, 4):
            for pol in (0, 1, 2):
                js.append((W, w, (2 if W == 2 and pol == 0 else 1) + deep, pol))
    for W, N in ((2, 12), (3, 20), (5, 8), (8, 24), (16, 40)):
        kinds = [('str', 'raise', 'str', 'code', 'none', 'lnpdf', 'raise2', 'near')[(i * i + i // 3) % 8] for i in range(N)]
        for style in range(3):
            w = []
            real = 0
            for i, k in enumerate(kinds):
                w.append(k)
                real += k not in ('code', 'code2')
                if style == 1 and i % 3 == 2 and real:
                    w.append('R')
                    real -= 1
                if style == 2 and i % 5 == 4:
                    w.append('A')
                    real = 0
            w.append('A')
            for pol in (0, 1, 2):
                js.append((W, tuple(w), int(N < 15 or (N < 30 and pol == style)) + deep, pol))
    js.append((2, tuple(['str', 'raise', 'none', 'lnpdf'] * 50) + ('A',), 0 + deep, 0))
    js.append((16, tuple(['str', 'raise', 'none', 'lnpdf'] * 50) + ('A',), 0 + deep, 1))
    for j, (W, w, bound, pol) in enumerate(js):
        if j % parts == part:
            B.run(W, w, B.sched.Delays(bound, pol), limit=4000 if tier == 'quick' else 30000, early=0)


def payloads(R, tier):
    """Every kind of result (log PDFs at any depth, falsy values, big messages, awkward exceptions) in every position."""
    B = Bench(R)
    kinds = ('ok', 'raise2', 'odd', 'exit', 'none', 'near', 'lnpdf', 'barelnpdf', 'nested', 'big', 'unsendable', 'badtask', 'code2')
    for k in kinds:
        for w in ((k, 'A'), (k, 'str', 'A', 'str', 'A'), ('str', k, 'A'), (k,), (k, k, 'A')) + (() if k == 'code2' else ((k, 'R', 'str', 'R'),)):
            B.run(1, w, B.sched.SleepSets())
        for w in ((k, 'A'), (k, 'str', 'A', 'raise', 'A'), (k, k)):
            B.run(2, w, B.sched.SleepSets() if tier != 'quick' or len(w) < 3 else B.sched.Delays(2), limit=20000)
    for k, m in itertools.product(kinds, kinds):
        B.run(1, (k, m, k, 'A', m, 'A'), B.sched.SleepSets())
    # variants of the falsy and near-code values
    for k in ('none', 'near', 'raise2'):
        B.run(1, (k,) * 9 + ('A',), B.sched.Delays(1))


# ---------------------------------------------------------------------------------------------- real processes

def plans(tier):
    out = []
    mix = ['ok', 'raise', 'lnpdf', 'none', 'nested', 'near', 'str', 'barelnpdf']
    for W in (1, 2, 3, 16):
        out.append((W, ()))
        out.append((W, ('str', 'raise', 'str', 'A', 'lnpdf', 'A')))
        out.append((W, ('code', 'A', 'str', 'code2', 'A')))
        out.append((W, tuple(mix) + ('R', 'R', 'raise', 'code', 'str', 'A')))
    out.append((1, ('raise', 'raise2', 'str', 'A', 'raise', 'raise', 'A', 'str', 'A')))
    out.append((2, ('big', 'big', 'big')))
    out.append((2, ('big', 'raise', 'big', 'A', 'big')))
    out.append((3, ('odd', 'str', 'exit', 'unsendable', 'badtask', 'str', 'A', 'nested', 'A')))
    out.append((4, tuple(mix * 6) + ('A',)))
    out.append((16, tuple(mix * 25) + ('A',)))
    return out


def child(path):
    """Runs in its own session: real pool, real processes."""
    import multiprocessing
    import time
    from MTfit.utilities.multiprocessing_helper import JobPool
    out = open(path, 'a')
    todo = json.loads(os.environ['C16_PLANS'])
    for idx, W, word in todo:
        out.write(json.dumps({'start': idx}) + '\n')
        out.flush()
        pool = JobPool(W, task=Task)

        def beat(name):
            f = getattr(pool, name, None)
            if f is not None:
                def g(*a, **k):
                    out.write(json.dumps({'at': name}) + '\n')      # sign of progress for the watching process
                    out.flush()
                    return f(*a, **k)
                setattr(pool, name, g)
        for name in ('result', 'clean_workers', 'custom_task', 'task'):
            beat(name)
        led = operate(pool, word, Ledger(), duration=lambda n: (n * 7 % 5) * .003)
        procs = multiprocessing.active_children()
        t = time.time()
        while procs and time.time() - t < 20:
            time.sleep(.05)
            procs = multiprocessing.active_children()
        if procs:
            led.errors.append('processes still running after close(): %d' % len(procs))
        out.write(json.dumps({'done': idx, 'errors': led.errors}) + '\n')
        out.flush()
    os._exit(0)


def real(R, tier):
    """The same histories on real processes: each must finish and agree with the model of the pool."""
    todo = [(i, W, w) for i, (W, w) in enumerate(plans(tier))]
    tries = dict((i, 0) for i, _, _ in todo)
    while todo:
        fd, path = tempfile.mkstemp(dir=os.environ.get('MC_WORK'))
        os.close(fd)
        env = dict(os.environ, C16_PLANS=json.dumps(todo))
        p = subprocess.Popen([sys.executable, '-c', 'import warnings; warnings.simplefilter("ignore"); import sys; sys.path.insert(0, %r); from checks import c16; c16.child(%r)' % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), path)],
                             env=env, start_new_session=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        last, seen = None, -1
        import time
        t = time.time()
        while p.poll() is None:
            time.sleep(.1)
            size = os.path.getsize(path)
            if size != seen:
                seen, t = size, time.time()
            if time.time() - t > 60:
                break
        hung = p.poll() is None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        done = {}
        for line in open(path):
            if not line.endswith('\n'):
                continue                             # cut off by the kill
            d = json.loads(line)
            if 'start' in d:
                last = d['start']
            elif 'done' in d:
                done[d['done']] = d['errors']
        byid = dict((i, (i, W, w)) for i, W, w in todo)
        for i, errors in done.items():
            _, W, w = byid.pop(i)
            R.state()
            R.trans(len(w))
            R.check(not errors, 'real-results', '%d real workers, history %s: %s' % (W, '-'.join(w)[:200], errors[:3]), {'workers': W, 'history': w})
        if last is not None and last in byid:
            tries[last] += 1
            if tries[last] >= 2:
                _, W, w = byid.pop(last)
                R.check(False, 'real-hang', '%d real workers, history %s: %s (twice)' % (W, '-'.join(w)[:200], 'no progress for 60 s' if hung else 'the driver died'), {'workers': W, 'history': w})
                todo = []
                break
        elif byid:
            raise RuntimeError('the driver of the real pool did not start')
        todo = list(byid.values())
