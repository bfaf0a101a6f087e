"""The random-number seam: every draw of numpy.random made by the code under test is answered from a script.

A draw is one scalar of a base distribution: 'u' (uniform on [0,1)) or 'n' (standard normal). The script gives a quantile in
(0,1) for every draw index (or an explicit normal deviate); past its end a fixed filler sequence is used and counted. Everything
else numpy.random offers is derived from those two, so the code may use whichever function it likes.
"""
import numpy as np
from scipy.special import ndtri

REAL = {}


class Unsupported(Exception):
    pass


class Script(object):
    def __init__(self):
        self.exceeded = 0
        self.reset([])

    def reset(self, values, kinds=None, limit=100000):
        """values: quantiles, or callables kind -> value; the i-th draw uses values[i]."""
        self.values = values
        self.i = 0
        self.kinds = []
        self.seeds = []
        self.over = 0
        self.limit = limit
        self.fixed = None

    def q(self):
        i = self.i
        self.i += 1
        if i > self.limit:
            if i == self.limit + 1:
                self.exceeded += 1     # compiled code may swallow the exception
            raise RuntimeError('more than %d random draws: the code does not terminate' % self.limit)
        if self.fixed is not None:
            self.fixed += 1
            return ((self.fixed * 0.7548776662466927 + 0.31) % 1.0)
        if i < len(self.values):
            return self.values[i]
        self.over += 1
        return ((self.over * 0.6180339887498949 + 0.137) % 1.0)

    def u(self):
        self.kinds.append('u')
        v = self.q()
        return v.u if isinstance(v, Node) else v

    def n(self):
        self.kinds.append('n')
        v = self.q()
        return v.n if isinstance(v, Node) else float(ndtri(v))

    def seed(self, s=None):
        self.seeds.append(s)
        if s is not None:
            self.fixed = hash(repr(s)) % 1000

    def arr(self, fn, size):
        if size is None or size == ():
            return fn()
        if np.ndim(size) == 0:
            size = (int(size),)
        size = tuple(int(x) for x in size)
        out = np.empty(int(np.prod(size)) if len(size) else 1)
        for k in range(out.size):
            out[k] = fn()
        return out.reshape(size)


class Node(object):
    """A scripted draw with a separate value for each base distribution."""
    __slots__ = ('u', 'n')

    def __init__(self, u, n):
        self.u, self.n = u, n


S = Script()


class Fake(object):
    """The subset of numpy.random (module, RandomState and Generator spellings) answered from the script."""

    def rand(self, *shape):
        return S.arr(S.u, shape)

    def randn(self, *shape):
        return S.arr(S.n, shape)

    def random_sample(self, size=None):
        return S.arr(S.u, size)

    random = ranf = sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape or None
        return low + (np.asarray(high) - low) * S.arr(S.u, size) if size is not None else low + (high - low) * S.u()

    def standard_normal(self, size=None, dtype=None):
        return S.arr(S.n, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        return loc + scale * S.arr(S.n, size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean = np.asarray(mean, float)
        L = np.linalg.cholesky(np.asarray(cov, float))
        n = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        z = S.arr(S.n, n + (len(mean),))
        return mean + z.dot(L.T)

    def exponential(self, scale=1.0, size=None):
        return -scale * np.log(1 - np.asarray(S.arr(S.u, size)))

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        v = low + np.floor((high - low + (1 if endpoint else 0)) * np.asarray(S.arr(S.u, size)))
        return int(v) if size is None else v.astype(int)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = 1 if size is None else int(np.prod(size))
        if p is None and replace:
            idx = [int(S.u() * len(pool)) for _ in range(n)]
        elif p is not None and replace:
            c = np.cumsum(p)
            idx = [int(np.searchsorted(c, S.u() * c[-1], side='right')) for _ in range(n)]
        else:
            left = list(range(len(pool)))
            idx = [left.pop(int(S.u() * len(left))) for _ in range(n)]
        if size is None:
            return pool[idx[0]]
        return pool[idx].reshape(size)

    def permutation(self, x):
        pool = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        left = list(range(len(pool)))
        return pool[[left.pop(int(S.u() * len(left))) for _ in range(len(pool))]]

    def shuffle(self, x):
        y = self.permutation(np.arange(len(x)))
        c = [x[i] for i in y]
        for i, v in enumerate(c):
            x[i] = v

    def seed(self, s=None):
        S.seed(s)


FAKE = Fake()
NAMES = [n for n in dir(Fake) if not n.startswith('_')]


def make(*a, **k):
    s = a[0] if a else k.get('seed')
    if isinstance(s, Fake):
        return s
    S.seed(s)
    return FAKE


class FakeRandom(object):
    """Replacement of the standard library's random functions."""


def install():
    """Answer numpy.random and the standard library's random from the script (until uninstall)."""
    import random
    if REAL:
        return
    for n in NAMES:
        if hasattr(np.random, n):
            REAL[('np', n)] = getattr(np.random, n)
            setattr(np.random, n, getattr(FAKE, n))
    for n in ('default_rng', 'RandomState'):
        REAL[('np', n)] = getattr(np.random, n)
        setattr(np.random, n, make)
    std = {'random': FAKE.rand, 'gauss': lambda mu=0., sigma=1.: mu + sigma * S.n(), 'normalvariate': lambda mu=0., sigma=1.: mu + sigma * S.n(),
           'uniform': lambda a, b: a + (b - a) * S.u(), 'randint': lambda a, b: int(FAKE.randint(a, b + 1)),
           'randrange': lambda a, b=None: int(FAKE.randint(a, b)), 'choice': lambda s: s[int(S.u() * len(s))], 'shuffle': FAKE.shuffle,
           'seed': FAKE.seed}
    for n, f in std.items():
        REAL[('std', n)] = getattr(random, n)
        setattr(random, n, f)


def uninstall():
    import random
    for (m, n), f in REAL.items():
        setattr(np.random if m == 'np' else random, n, f)
    REAL.clear()


class Seam(object):
    """with Seam(values) as s: ...  - s.kinds lists the draws made."""

    def __init__(self, values=(), limit=100000):
        self.values, self.limit = values, limit

    def __enter__(self):
        install()
        S.reset(list(self.values), limit=self.limit)
        return S

    def __exit__(self, *a):
        uninstall()
