"""C07 - a Markov-chain run: recording, counting, termination, likelihood of the recorded source, and the posterior it samples."""
import itertools
import math
import numpy as np
from scipy.special import ndtri, betaincinv
from checks import geo
from checks.c05 import CLS, PI

ASSUMPTIONS = ['the learning period lasts until learning_length samples have been accepted (the counter the property names)',
               'a multiple-try batch may take the number of tried proposals past the chain length: it stops after the batch that reaches it',
               'chain states of zero likelihood (before the first source of non-zero likelihood) belong to the learning period',
               'the prior of a chain is uniform on the 6-sphere up to the Beta(5.745) form of its latitude density (total variation 0.0036)']

KEYS = ('gamma', 'delta', 'kappa', 'h', 'sigma')


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        for cls in ('single', 'multi', 'td', 'mtd'):
            for model in (('mt', 'dc') if cls in ('single', 'multi') else ('mt',)):
                out.append(dict(name='history-%s-%s-%s' % (cls, model, mode), mode=mode, fn='history', kw=dict(tier=tier, cls=cls, model=model, mode=mode), cost=20))
                out.append(dict(name='net-%s-%s-%s' % (cls, model, mode), mode=mode, fn='net', kw=dict(tier=tier, seed=seed, cls=cls, model=model, mode=mode), cost=15))
            out.append(dict(name='joint-%s-%s' % (cls, mode), mode=mode, fn='joint', kw=dict(tier=tier, cls=cls, mode=mode), cost=15))
            if tier == 'thorough' or (cls, mode) in (('multi', 'c'), ('mtd', 'c'), ('mtd', 'py'), ('td', 'c')):
                out.append(dict(name='netj-%s-%s' % (cls, mode), mode=mode, fn='net', kw=dict(tier=tier, seed=seed, cls=cls, model='mt', mode=mode, n=2), cost=20))
        for alg in ('mcmc', 'transdmcmc'):
            out.append(dict(name='front-%s-%s' % (alg, mode), mode=mode, fn='front', kw=dict(tier=tier, seed=seed, alg=alg, mode=mode), cost=30))
    return out


# ---- the reference chain -------------------------------------------------------------------------------------------
class Ref(object):
    """Counting of the property: learning discarded, one entry per tried proposal, first entry held, stop at the chain length."""

    def __init__(self, learning, length):
        self.learning, self.length = learning, length
        self.cur = None
        self.lnl = -math.inf
        self.learned = 0
        self.entries = []
        self.tried = self.accepted = -1

    def save(self):
        return (self.cur, self.lnl, self.learned, len(self.entries), self.tried, self.accepted)

    def restore(self, s):
        self.cur, self.lnl, self.learned, k, self.tried, self.accepted = s
        del self.entries[k:]

    def record(self, accepted):
        if self.learned >= self.learning:
            if self.lnl == -math.inf:
                return
            self.entries.append((self.cur, self.lnl))
            self.tried += 1
            self.accepted += accepted
            if self.tried == 0:
                # the first state is held once more: it counts neither as a further proposal nor as a further acceptance
                self.entries.append((self.cur, self.lnl))
                self.tried, self.accepted = 1, accepted
        elif accepted:
            self.learned += 1

    def reject(self):
        self.record(0)

    def accept(self, state, lnl):
        self.cur, self.lnl = state, lnl
        self.record(1)

    def over(self):
        return self.tried >= self.length


def columns(mts):
    """The sources of a task as a (n, 6*events) array."""
    if isinstance(mts, list):
        return np.concatenate([np.asarray(m, float).reshape(6, -1) for m in mts], axis=0).T
    return np.asarray(mts, float).reshape(6, -1).T


def lam2(v):
    """Trace and intermediate eigenvalue of a unit six-vector: both zero for a double-couple."""
    m = geo.m33(v)
    w = np.linalg.eigvalsh(m)
    return max(abs(w[1]), abs(w.sum()))


def is_dc(v, tol=1e-7):
    return lam2(v) < tol


def entries_of(out, n):
    """Recorded sources (entries, 6n) and log-likelihoods of an output dictionary."""
    if 'ln_pdf' not in out:
        return np.zeros((0, 6 * n)), np.zeros(0)
    if n > 1:
        m = np.concatenate([np.asarray(out['moment_tensor_space_%d' % (e + 1)], float) for e in range(n)], axis=0).T
    else:
        m = np.asarray(out['moment_tensor_space'], float).T
    l = out['ln_pdf']
    return m, np.asarray(getattr(l, '_ln_pdf', l), float).flatten()


def judge(R, key, alg, ref, n, trans, data, out=None):
    """The output dictionary against the reference chain."""
    if out is None:
        ok, o = R.call(key + '|output', alg.output, True, False, 0)
        if not ok:
            return False
        out = o[0] if isinstance(o, tuple) else o
    m, l = entries_of(out, n)
    good = R.check(len(m) == len(ref.entries) and len(l) == len(ref.entries), key + '|entries',
                   '%d entries (%d likelihoods), expected %d' % (len(m), len(l), len(ref.entries)), data)
    if good and len(m):
        want = np.array([e[0] for e in ref.entries])
        good &= R.check(np.allclose(m, want, rtol=0, atol=1e-8), key + '|states', 'recorded states are not those reached: entries %s'
                        % np.nonzero(~np.isclose(m, want, rtol=0, atol=1e-8).all(axis=1))[0][:10], data)
        wl = np.array([e[1] for e in ref.entries])
        good &= R.check(np.allclose(l, wl, rtol=0, atol=1e-8), key + '|likelihood', 'recorded log-likelihoods %s, expected %s' % (l[:8], wl[:8]), data)
        good &= R.check(np.asarray(out['probability']).size == len(m), key + '|probability', 'probability has %d entries' % np.asarray(out['probability']).size, data)
    good &= R.check(out['total_number_samples'] == ref.tried, key + '|tried', 'total_number_samples %r, expected %d' % (out['total_number_samples'], ref.tried), data)
    good &= R.check(out['accepted'] == ref.accepted, key + '|accepted', 'accepted %r, expected %d' % (out['accepted'], ref.accepted), data)
    good &= R.check(abs(out['acceptance_rate'] - ref.accepted / float(ref.tried)) < 1e-12, key + '|rate',
                    'acceptance rate %r, expected %d/%d' % (out['acceptance_rate'], ref.accepted, ref.tried), data)
    if trans and len(m):
        got = np.asarray(out['pDC'], float).flatten()
        want = [np.mean([is_dc(e[0][6 * k:6 * k + 6]) for e in ref.entries]) for k in range(n)]
        good &= R.check(len(got) == n and np.allclose(got, want, rtol=0, atol=1e-12), key + '|pDC', 'pDC %r, expected %s' % (out['pDC'], want), data)
    return good


def quick_norm():
    """scipy's norm.pdf / norm.cdf without its argument handling (the same values, forty times faster); idempotent."""
    import logging
    from scipy.stats import norm
    logging.disable(logging.CRITICAL)
    if getattr(norm, '_mc_quick', False):
        return
    from scipy.special import ndtr
    pdf, cdf = norm.pdf, norm.cdf
    c = 1 / math.sqrt(2 * PI)

    def quick(fast, slow):
        def f(x, loc=0, scale=1):
            if np.size(scale) == 1 and np.min(scale) > 0 and np.size(x) == np.size(loc) == 1:
                return fast((x - loc) / scale) if fast is ndtr else fast((x - loc) / scale) / scale
            return slow(x, loc, scale)
        return f
    norm.pdf, norm.cdf = quick(lambda t: c * np.exp(-.5 * t * t), pdf), quick(ndtr, cdf)
    norm._mc_quick = True


# ---- all histories --------------------------------------------------------------------------------------------------
def make(cls, n=1, dc=False, **kw):
    import MTfit.algorithms.markov_chain_monte_carlo as m
    if n > 1:
        kw['number_events'] = n
    if dc:
        kw['dc'] = True
    alg = getattr(m, CLS[cls])(**kw)
    alg.tx = alg.t0
    return alg


class Fill(object):
    """A long tape of pseudo-random draws with separate uniform and normal values (fixed, the same in every run)."""
    U = N = None

    def __init__(self, offset=0, scale=1):
        if Fill.U is None:
            g = np.random.Generator(np.random.PCG64(12345))
            Fill.U, Fill.N = g.random(400009), g.standard_normal(400009)
        self.o = offset

    def __len__(self):
        return 10 ** 12

    def __getitem__(self, i):
        from mc import seam
        k = (i + self.o) % 400009
        return seam.Node(float(Fill.U[k]), float(Fill.N[k]))


def drive(R, key, alg, hist, ref, n, grid, base, data, dc, pattern=0):
    """Run one chain: the k-th proposal that counts is accepted ('a'), rejected ('r') or has zero likelihood ('z') as hist says.

    Returns 'end', 'open' (history used up) or 'bad'."""
    from MTfit.probability import LnPDF
    ok, r = R.call(key + '|initialise', alg.initialise)
    if not ok:
        return 'bad'
    task, end = r
    known = None
    if grid:
        pool = []
        k = 0
        while True:
            cols = columns(task)
            if known is None and len(cols) == 1 and k:
                break
            lp = []
            for e in range(n):
                # every pattern of zero / non-zero likelihoods over the initial samples
                l = np.array([(-5. - ((j * 3 + e + k) % 4)) if ((pattern >> ((j + k) % 3)) & 1) else -np.inf for j in range(len(cols))])
                if k == 0 and pattern & 8:
                    l[:] = -np.inf
                lp.append(l)
            for e in range(n):
                pool += [(e, cols[j, 6 * e:6 * e + 6]) for j in range(len(cols)) if lp[e][j] > -np.inf]
            res = [{'ln_pdf': LnPDF(lp[e].reshape(1, -1)), 'moment_tensors': np.asarray(task[e] if n > 1 else task), 'n': len(cols)} for e in range(n)]
            k += 1
            ok, r = R.call(key + '|grid', alg.iterate, res if n > 1 else res[0])
            if not ok:
                return 'bad'
            task, end = r
            if end or k > 40:
                R.check(False, key + '|grid', 'grid initialisation ended the chain' if end else 'grid initialisation does not end', data)
                return 'bad'
        cols = columns(task)
        for e in range(n):
            near = min([np.abs(v - cols[0, 6 * e:6 * e + 6]).max() for f, v in pool if f == e] or [9])
            R.check(near < 1e-5, key + '|grid-start', 'the start of the chain is not one of the initial samples of non-zero likelihood', data)
    lnl = base
    i = 0
    step = 0
    first = True
    while True:
        cols = columns(task)
        tries = len(cols)
        step += 1
        if step > 60:
            R.check(False, key + '|hang', 'no end after %d tasks' % step, data)
            return 'bad'
        if not np.isfinite(cols).all() or not np.allclose((cols.reshape(tries, n, 6) ** 2).sum(axis=2), 1., atol=1e-9):
            R.check(False, key + '|task', 'proposed sources are not unit six-vectors', dict(data, task=cols))
            return 'bad'
        if dc:
            bad = [k for k in range(tries) for e in range(n) if not is_dc(cols[k, 6 * e:6 * e + 6])]
            if bad:
                R.check(False, key + '|not-dc', 'a double-couple-constrained chain proposes (or starts from) a source that is not a double-couple (by %.3g)'
                        % lam2(cols[bad[0], :6]), data)
                return 'bad'
        lp = np.empty(tries)
        acc = None
        before = ref.save()
        for t in range(tries):
            if acc is not None:
                # proposals after the accepted one are dropped: likelier, equal, zero
                lp[t] = [lnl + 600., lnl, -np.inf, lnl - 300.][(t + i) % 4]
                continue
            if first and ref.lnl == -math.inf and t == 0 and hist[0] != 'z':
                lp[t] = base
                acc = 0
                ref.accept(cols[0], base)
                continue
            if i >= len(hist):
                # not enough history for this batch: it is not run
                ref.restore(before)
                return 'open'
            h = hist[i]
            i += 1
            if h == 'a':
                lnl = (ref.lnl + 300.) if ref.lnl > -math.inf else base
                lp[t] = lnl
                acc = t
                ref.accept(cols[t], lnl)
            else:
                lp[t] = ref.lnl - 300. if (h == 'r' and ref.lnl > -math.inf) else -np.inf
                if first and ref.cur is None:
                    # zero-likelihood start
                    ref.cur = cols[t]
                ref.reject()
        first = False
        shape = step % 2
        arr = LnPDF(lp.reshape(1, -1).copy()) if shape else LnPDF(np.matrix(lp))
        R.state()
        ok, r = R.call(key + '|iterate', alg.iterate, {'moment_tensors': task, 'ln_pdf': arr, 'n': tries, 'scale_factor': False})
        if not ok:
            return 'bad'
        task, end = r
        want = ref.over()
        if bool(end) != want:
            R.check(False, key + '|end', 'chain %s after %d tried proposals, chain length %d' % ('ended' if end else 'did not end', ref.tried, ref.length), data)
            return 'bad'
        if end:
            R.check(len(task) == 0, key + '|end-task', 'a task is returned with the end flag', data)
            return 'end'


def history(R, tier, cls, model, mode, n=1):
    """Every accept / reject / zero-likelihood history for learning lengths, windows, chain lengths and both initialisations."""
    from mc import seam
    quick_norm()
    seam.install()
    trans, multi = cls in ('td', 'mtd'), cls in ('multi', 'mtd')
    depth = 5 + (2 if tier == 'thorough' else 0)
    learns = (0, 1, 2, 3)
    windows = (1, 3, 1000)
    lengths = (1, 2, 4)
    if n > 1:
        learns, windows = (0, 2), (3, 1000)
    inits = ('none', 'grid') if n == 1 else ('grid',)
    count = 0
    for init, learning, window, length in itertools.product(inits, learns, windows, lengths):
        if tier == 'quick' and (window == 3) != (length == 2) and window != 1000:
            continue
        if window == 1 and learning == 0:
            continue
        letters = 'arz' if window == 1000 else 'ar'
        # breadth-first over histories: a history that ends the chain is not extended
        front = ['']
        pats = (1, 6, 7, 15) if init == 'grid' else (0,)
        while front:
            nxt = []
            for hist in front:
                for h in letters:
                    g = hist + h
                    if g[0] == 'z' and init == 'grid':
                        continue
                    count += 1
                    # a start of zero likelihood is only possible from random initialisation
                    base = (-300., 0., -900., 37.5)[count % 4]
                    pat = pats[count % len(pats)]
                    pj = (0.5, 1., 0.3)[count % 3]
                    kw = dict(learning_length=learning, acceptance_rate_window=window, chain_length=length, initial_sample=init,
                              min_number_initialisation_samples=5, number_samples=3)
                    if trans:
                        kw['dimension_jump_prob'] = pj
                    data = dict(cls=cls, model=model, init=init, learning=learning, window=window, length=length, history=g, pattern=pat, base=base, n=n)
                    seam.S.reset(Fill(count * 37), limit=200000)
                    ok, alg = R.call('history|new', make, cls, n, model == 'dc', **kw)
                    if not ok:
                        continue
                    if multi:
                        alg._number_samples = (1, 2, 3, 5)[count % 4]
                    ref = Ref(learning, length)
                    end = drive(R, 'history|%s' % cls, alg, g, ref, n, init == 'grid', base, data, model == 'dc', pat)
                    if end == 'end' or (end == 'open' and ref.tried > 0 and len(g) >= depth):
                        judge(R, 'history|%s' % cls, alg, ref, n, trans, data)
                        R.outcome('chain', (cls, model, init, learning, length, len(ref.entries), ref.accepted))
                    if end == 'open' and len(g) < depth:
                        nxt.append(g)
            front = nxt
    R.sample(dict(cls=cls, model=model, chains=count))
    seam.uninstall()


def joint(R, tier, cls, mode):
    """Histories of joint chains of two events."""
    history(R, tier, cls, 'mt', mode, n=2)
    if cls in ('single', 'multi'):
        history(R, tier, cls, 'dc', mode, n=2)


# ---- invariance of the posterior -------------------------------------------------------------------------------------
CDP = 1.1045219407152909      # integral of the coded full-tensor prior (see known finding model-prior)


def frame(M):
    """Tape parameters and axes functionals of unit six-vectors M (6, n): gamma, delta, h, sigma."""
    A = geo.m33(M)
    w, v = np.linalg.eigh(A)
    g, d = geo.source_type(w.T)
    T, P = v[:, :, 2], v[:, :, 0]
    n, u = (T + P) / math.sqrt(2), (T - P) / math.sqrt(2)
    out = None
    for a, b in ((n, u), (u, n)):
        s = np.where(a[:, 2] > 0, -1., 1.)[:, None]     # normals point up (z down)
        a, b = a * s, b * s
        dip = np.arccos(np.clip(-a[:, 2], 0, 1))
        strike = np.arctan2(-a[:, 0], a[:, 1])
        k = np.array([np.cos(strike), np.sin(strike), 0 * strike]).T
        cr = (b * k).sum(1)
        rake = np.arctan2(-b[:, 2] / np.maximum(np.sin(dip), 1e-12), cr)
        one = np.array([np.mod(strike, 2 * PI), np.cos(dip), rake])
        if out is None:
            out = one
            ok = cr >= 0
        else:
            out = np.where(ok, out, one)
    return g, d, out[0], out[1], out[2]


def functionals(M, dc, relative=None):
    """(names, values) of the functionals of unit six-vectors M (6, n); dc: boolean indicator of the double-couple model."""
    names, vals = [], []

    def add(n, v):
        names.append(n)
        vals.append(np.asarray(v, float))
    g, d, k, h, s = frame(M)
    for i in range(6):
        add('m%d' % i, M[i])
        add('m%d^2' % i, M[i] ** 2)
    for i, j in ((0, 1), (0, 3), (2, 4), (3, 5), (1, 5)):
        add('m%d.m%d' % (i, j), M[i] * M[j])
    if not dc.all():
        for a, nm, e in ((g, 'gamma', (-.45, -.25, 0, .25, .45)), (d, 'delta', (-.9, -.5, -.2, 0., .2, .5, .9))):
            for t in e:
                add('%s<%g' % (nm, t), (a < t) & ~dc)
        add('dc', dc)
        add('gamma', g)
        add('delta', d)
    for t in (.03, .1, .3, .6, .8, .93, .98):
        add('h<%g' % t, h < t)
    for t in (-1.5, -1.4, -1., -.4, .4, 1., 1.4, 1.5):
        add('sigma<%g' % t, s < t)
    add('sin kappa', np.sin(k))
    add('cos 2 kappa', np.cos(2 * k))
    return names, np.array(vals)


def _stations(n=4):
    """Fixed unit vectors of radiation-pattern coefficients."""
    z = np.array([[.3, -.7, .9], [-.8, .2, .55], [.15, .95, -.3], [.6, .6, .5]])[:n]
    out = []
    for x, y, w in z:
        r = np.array([x, y, w]) / math.sqrt(x * x + y * y + w * w)
        out.append(np.array([r[0] ** 2, r[1] ** 2, r[2] ** 2, math.sqrt(2) * r[0] * r[1], math.sqrt(2) * r[0] * r[2], math.sqrt(2) * r[1] * r[2]]))
    return np.array(out)


STATIONS = _stations()


def ln_likelihood(kind, M):
    """ln L of six-vectors (events, 6, n): broad, peaked or with a region of zero likelihood."""
    a = np.einsum('si,ein->esn', STATIONS, M)
    tot = 0.
    for e in range(len(a)):
        x = a[e] * (1 if e % 2 == 0 else -1)
        if kind == 'broad':
            tot = tot + 1.6 * x[0] - .9 * x[1] * x[2] + .7 * np.sin(3 * x[3])
        elif kind == 'peaked':
            tot = tot - .5 * ((x[0] - .35) / .3) ** 2 - .5 * ((x[1] + .2) / .35) ** 2
        else:
            tot = tot + np.where((x[0] > -.1) & (x[2] < .45), .8 * x[1], -np.inf)
    if len(a) > 1:
        tot = tot + (.8 if kind != 'peaked' else 1.5) * np.einsum('in,in->n', M[0], M[1])
    return tot


def net(R, tier, seed, cls, model, mode, n=1, kinds=None):
    """One or two steps of the chain from every point of a net of posterior-weighted states leave the posterior unchanged."""
    from scipy.stats import qmc
    from mc import seam
    quick_norm()
    trans, multi = cls in ('td', 'mtd'), cls in ('multi', 'mtd')
    kinds = kinds or (('broad', 'peaked', 'half') if tier == 'thorough' else (('peaked', 'half', 'broad')[(len(cls) + (model == 'dc') + (mode == 'py')) % 3],))
    m = 15 if tier == 'thorough' else 12 if n == 1 else 12
    dims = 6 * n
    steps = 2
    jobs = [(k, p) for k in kinds for p in (('uniform_prior', 'flat_prior') if tier == 'thorough' and model == 'mt' else ('uniform_prior',))]
    if model == 'mt' and tier == 'quick' and mode == 'c' and n == 1:
        jobs = [(kinds[0], 'flat_prior' if cls in ('single', 'mtd') else 'uniform_prior')]
    width = min(dims + 14 * n + 6, 60)
    u = qmc.Sobol(width, scramble=True, seed=11).random_base2(m)
    N = len(u)
    dcp = .4
    for kind, prior in jobs:
        # the states, from the prior
        X = np.zeros((n, 5, N))
        isdc = np.zeros((n, N), bool)
        for e in range(n):
            v = u[:, 6 * e:6 * e + 6].T
            if prior == 'flat_prior':
                X[e, 0], X[e, 1] = (v[0] * 2 - 1) * PI / 6, (v[1] * 2 - 1) * PI / 2
            else:
                X[e, 0], X[e, 1] = np.arcsin(2 * v[0] - 1) / 3, PI * (betaincinv(5.745, 5.745, v[1]) - .5)
            X[e, 2], X[e, 3], X[e, 4] = 2 * PI * v[2], v[3], (v[4] * 2 - 1) * PI / 2
            isdc[e] = (v[5] < dcp) if trans else model == 'dc'
            X[e, :2, isdc[e]] = 0.
        start = np.array([geo.tape6(*X[e]) for e in range(n)])
        lnl = ln_likelihood(kind, start)
        w = np.exp(lnl)
        if trans and prior == 'uniform_prior':
            w = w * np.prod(np.where(isdc, 1., CDP), axis=0)
        live = np.nonzero(w > 0)[0]
        got = np.full((steps, n, 6, N), np.nan)
        good = True
        seam.install()
        for i in live:
            seam.S.reset(Row(u[i, dims:], int(i)), limit=200000)
            kw = dict(learning_length=0, chain_length=10 ** 6, initial_sample='none', number_samples=(2, 3, 5)[i % 3], sampling_prior=prior)
            if trans:
                kw.update(dimension_jump_prob=.4, dc_prior=dcp, dc_sigma_g=.3, dc_sigma_d=.5)
            ok, alg = R.call('net|new', make, cls, n, model == 'dc', **kw)
            if not ok:
                good = False
                break
            x0 = [dict(zip(KEYS, [float(t) for t in X[e, :, i]])) for e in range(n)]
            alg.x0 = x0 if n > 1 else x0[0]
            ok, r = R.call('net|initialise', alg.initialise)
            if not ok:
                good = False
                break
            task = r[0]
            # follow the chain through the number of entries recorded
            count = 0
            while good:
                cols = columns(task)
                lp = ln_likelihood(kind, cols.T.reshape(n, 6, -1))
                ok, r = R.call('net|iterate', alg.iterate, {'moment_tensors': task, 'ln_pdf': lnpdf(lp), 'n': len(cols), 'scale_factor': False})
                if not ok:
                    good = False
                    break
                task = r[0]
                count += 1
                if count > 40:
                    good = R.check(False, 'net|stuck', 'fewer than %d entries after 40 tasks' % (steps + 2), {'i': int(i)})
                if alg.total_number_samples >= steps + 1:
                    break
            if not good:
                break
            ok, o = R.call('net|output', alg.output, False, False, 0)
            if not ok:
                good = False
                break
            c, l = entries_of(o[0], n)
            if not R.check(len(c) >= steps + 2 and np.allclose(c[0], start[:, :, i].reshape(-1), atol=1e-7), 'net|start', 'the chain does not start from its initial sample', {'i': int(i)}):
                good = False
                break
            for k in range(steps):
                got[k, :, :, i] = c[k + 2].reshape(n, 6)
            R.state()
        seam.uninstall()
        if not good:
            return
        W = w[live] / w[live].sum()
        n_eff = 1. / (W ** 2).sum()
        worst = []
        moved = 0.
        for e in range(n):
            names, f0 = functionals(start[e][:, live], isdc[e][live])
            for k in range(steps):
                dck = np.array([is_dc(got[k, e, :, i]) for i in live])
                if model == 'dc':
                    R.check(dck.all(), 'net|not-dc', 'a double-couple chain recorded a source that is not one', {})
                names, f1 = functionals(got[k, e][:, live], dck)
                if len(f1) != len(f0):
                    R.check(False, 'net|model', 'the chain changed model', {})
                    return
                d = (f1 - f0)
                mean = (W * d).sum(1)
                se = np.sqrt((W ** 2 * d ** 2).sum(1)) + 1e-12
                moved = max(moved, np.abs(d).max())
                for nm, z, x in zip(names, mean / se, mean):
                    worst.append((abs(z), nm, e, k + 1, x))
                    R.trans()
        worst.sort(reverse=True)
        R.outcome('net', (cls, model, kind, prior, n, moved > .1))
        R.sample(dict(kind=kind, prior=prior, points=len(live), effective=float(n_eff), worst=worst[:3], moved=float(moved)))
        for z, nm, e, k, x in worst[:3]:
            R.check(z < 5.5, 'net|%s-%s' % (cls, model), 'the expectation of %s under the posterior (%s likelihood, %s) moves by %.4f (%.1f standard errors) in %d step(s) of the chain'
                    % (nm, kind, prior, x, z, k), dict(cls=cls, model=model, kind=kind, prior=prior, n=n, functional=nm, event=e, step=k, z=z))


def lnpdf(lp):
    from MTfit.probability import LnPDF
    return LnPDF(np.asarray(lp, float).reshape(1, -1).copy())


class Row(object):
    """The draws of one point: its own net coordinates, then the fixed sequence from an offset of its own."""

    def __init__(self, row, i):
        self.row = row
        self.fill = Fill(i * 7919 % 400009)

    def __len__(self):
        return 10 ** 12

    def __getitem__(self, k):
        from mc import seam
        if k < len(self.row):
            v = min(max(float(self.row[k]), 1e-15), 1 - 1e-15)
            return seam.Node(v, float(ndtri(v)))
        return self.fill[k]


# ---- whole runs: the forward task and the front end -------------------------------------------------------------------
ANGLES = ((10., 30.), (130., 75.), (250., 110.), (305., 52.), (75., 141.))


def coefficients(angles=ANGLES, kind='P'):
    """(stations, 1, 6) radiation coefficients of P (r M r) or SH (r M phi)."""
    out = []
    for az, to in angles:
        f, t = math.radians(az), math.radians(to)
        r = np.array([math.cos(f) * math.sin(t), math.sin(f) * math.sin(t), math.cos(t)])
        v = r if kind == 'P' else np.array([-math.sin(f), math.cos(f), 0.])
        s = math.sqrt(2) / 2
        out.append([r[0] * v[0], r[1] * v[1], r[2] * v[2], s * (r[0] * v[1] + r[1] * v[0]), s * (r[0] * v[2] + r[2] * v[0]), s * (r[1] * v[2] + r[2] * v[1])])
    return np.array(out)[:, None, :]


def datasets():
    """name -> (oracle arguments, forward-task arguments, location multipliers)."""
    y = np.array([1., -1., 1., -1., 1.])
    P, SH = coefficients(), coefficients(kind='SH')
    a = P * y[:, None, None]
    moved = coefficients([(az + 4 + 3 * i, to - 5 + 2 * i) for i, (az, to) in enumerate(ANGLES)]) * y[:, None, None]
    loc = np.concatenate([a, moved, a[:, :, :]], axis=1)
    s = np.array([.4, .5, .3, .6, .35])
    none = (False,) * 9
    out = {}

    def args(pol=None, ratio=None, w=0.):
        f = [False] * 9
        if pol is not None:
            f[0], f[1] = pol
        if ratio is not None:
            f[2], f[3], f[4], f[5], f[6] = ratio[0], ratio[1], ratio[2], ratio[3], ratio[4]
        return f, w
    assert len(none) == 9
    out['broad'] = (dict(pol=(a, s), w=.05), args((a, s), None, np.full(5, .05)), False)
    out['hard'] = (dict(pol=(a[:2], np.full(2, 2e-3)), w=0.), args((a[:2], np.full(2, 2e-3)), None, 0), False)
    ratio = (P[:3], SH[:3], np.array([1.2, .6, 2.1]), np.array([.15, .2, .1]), np.array([.1, .15, .2]))
    out['peaked'] = (dict(pol=(a, s), ratio=ratio, w=.02), args((a, s), ratio, np.full(5, .02)), False)
    out['medium'] = (dict(pol=(a, s * .5), w=.01), args((a, s * .5), None, np.full(5, .01)), False)
    out['located'] = (dict(pol=(loc, s), w=.05, loc_weights=[.5, 1.5, 1.]), args((loc, s), None, np.full(5, .05)), [.5, 1.5, 1.])
    return out


def check_run(R, key, o, want_ln, dc, trans, length, batch, data, floor=-500.):
    """The statement on one finished single-event run, from its output dictionary alone."""
    m, l = entries_of(o, 1)
    tried, accepted = o['total_number_samples'], o['accepted']
    R.state()
    R.trans(len(m))
    if not R.check(len(m) == tried + 1 == len(l), key + '|entries', '%d entries and %d likelihoods for %r tried proposals' % (len(m), len(l), tried), data):
        return False
    good = R.check(length <= tried < length + max(1, batch), key + '|length', '%r proposals tried, chain length %d (batches of up to %d)' % (tried, length, max(1, batch)), data)
    good &= R.check(np.array_equal(m[0], m[1]), key + '|hold', 'the first recorded state is not held', data)
    moves = int((np.abs(np.diff(m[1:], axis=0)).max(axis=1) > 0).sum())
    good &= R.check(accepted - moves in (0, 1), key + '|accepted', '%r accepted, the chain moves %d times' % (accepted, moves), data)
    good &= R.check(abs(o['acceptance_rate'] - accepted / float(tried)) < 1e-12, key + '|rate', 'acceptance rate %r for %r of %r' % (o['acceptance_rate'], accepted, tried), data)
    good &= R.check(np.allclose((m ** 2).sum(1), 1., atol=1e-9), key + '|unit', 'recorded sources are not unit six-vectors', data)
    lo, hi = want_ln(m.T)
    from mc import oracle as O
    bad = ~O.within(l, lo, hi, 1e-8)
    good &= R.check(not bad.any(), key + '|likelihood', 'entry %s carries ln-likelihood %s, its source has %s..%s'
                    % (np.nonzero(bad)[0][:3], l[bad][:3], lo[bad][:3], hi[bad][:3]), data)
    if dc:
        good &= R.check(all(is_dc(v) for v in m), key + '|not-dc', 'a double-couple-constrained run recorded a source that is not a double-couple (by %.3g)'
                        % max(lam2(v) for v in m), data)
    if trans:
        share = np.mean([is_dc(v) for v in m])
        good &= R.check(abs(float(np.ravel(o['pDC'])[0]) - share) < 1e-12, key + '|pDC', 'pDC %r, share of double-couple entries %g' % (o['pDC'], share), data)
    return good


def front(R, tier, seed, alg, mode):
    """McMCForwardTask and Inversion runs against the statement and an independent likelihood."""
    import os
    import pickle
    import shutil
    import tempfile
    from mc import seam
    from mc import oracle as O
    from MTfit.inversion import Inversion, McMCForwardTask
    quick_norm()
    seam.install()
    trans = alg == 'transdmcmc'
    sets = datasets()
    count = 0
    for name, dc, number, init, (learning, window), length in itertools.product(
            ('broad', 'hard', 'located', 'peaked'), (False,) if trans else (False, True), (False, 3, 40), ('grid', 'none'), ((0, 3), (1, 1000), (6, 3)), (1, 9, 24)):
        count += 1
        if tier == 'quick' and count % 2 and length != 24:
            continue
        if name == 'hard' and init == 'none':
            continue        # a start of zero likelihood may be out of reach of every source of non-zero likelihood
        ref, (f, w), mult = sets[name]
        kw = dict(number_samples=number, dc=dc, initial_sample=init, learning_length=learning, acceptance_rate_window=window, chain_length=length,
                  min_number_initialisation_samples=(4, 60)[count % 2], sampling_prior=('uniform_prior', 'flat_prior')[count % 5 == 0])
        if trans:
            kw.update(trans_dimensional=True, dimension_jump_prob=(.01, .4, .7)[count % 3], dc_prior=(.5, .2)[count % 2])
        data = dict(alg=alg, data=name, kw=kw)
        seam.S.reset(Fill(count * 211), limit=10 ** 7)
        ok, r = R.call('task', lambda: McMCForwardTask(dict(kw), *f, incorrect_polarity_prob=w, location_sample_multipliers=mult,
                                                       convert=count % 4 == 0, normalise=count % 3 > 0)())
        if not ok:
            continue
        check_run(R, 'task', r['algorithm_output_data'], lambda M: O.ln_forward_bounds(M, **ref), dc, trans, length, number or 1, data)
        R.outcome('run', (name, dc, number, init))
    # through the front end
    names = 'ABCDE'
    y = np.array([[1.], [-1.], [1.], [-1.], [1.]])
    s = np.array([[.4], [.5], [.3], [.6], [.35]])

    def event(uid, sign):
        return {'UID': uid, 'PPolarity': {'Stations': {'Name': list(names), 'Azimuth': np.matrix([[a] for a, _ in ANGLES]), 'TakeOffAngle': np.matrix([[t] for _, t in ANGLES])},
                                          'Measured': np.matrix(sign * y), 'Error': np.matrix(s)}}
    P = coefficients()
    cwd = os.getcwd()
    for dc, parallel, length, learning in ((False, False, 30, 8), (True, False, 30, 8), (False, True, 12, 3), (True, True, 12, 0)):
        if trans and dc:
            continue
        work = tempfile.mkdtemp(dir=os.environ.get('MC_WORK'))
        os.chdir(work)
        data = dict(alg=alg, dc=dc, parallel=parallel, length=length, learning=learning)
        try:
            seam.S.reset(Fill(length * 977 + dc), limit=10 ** 7)
            kw = dict(dimension_jump_prob=.3) if trans else {}
            ok, inv = R.call('frontend', lambda: Inversion([event('ev1', 1), event('ev2', -1)], algorithm=alg, parallel=parallel, n=2, output_format='pickle', convert=False,
                                                           phy_mem=1, learning_length=learning, chain_length=length, acceptance_rate_window=5, min_number_initialisation_samples=40,
                                                           dc=dc, **kw))
            if not ok:
                continue
            ok, _ = R.call('frontend', inv.forward)
            if not ok:
                continue
            for uid, sign in (('ev1', 1), ('ev2', -1)):
                found = [g for g in os.listdir(work) if g.startswith(uid) and g.endswith('.out')]
                if not R.check(len(found) == 1, 'frontend|file', 'output files of %s: %s' % (uid, found), data):
                    continue
                with open(os.path.join(work, found[0]), 'rb') as fh:
                    o = pickle.load(fh)['Events']
                o = dict(o)
                if 'MTSpace' in o:
                    o['moment_tensor_space'] = o['MTSpace']
                o['total_number_samples'] = o.get('total_number_samples', o.get('NSamples'))
                check_run(R, 'frontend', o, lambda M: O.ln_forward_bounds(M, pol=(P * (sign * y)[:, :, None], s[:, 0]), w=0.), dc, trans, length, 1000, data)
        finally:
            os.chdir(cwd)
            shutil.rmtree(work, ignore_errors=True)
    if trans:
        # the prior odds of the two models: dc_prior is the prior probability of the double-couple only if the full-tensor prior integrates to one
        x, wx = np.polynomial.legendre.leggauss(60)
        for prior in ('uniform_prior', 'flat_prior'):
            a = make('td', sampling_prior=prior)
            tot = sum(wg * wd * PI ** 2 / 12 * float(np.ravel(a.prior({'gamma': g * PI / 6, 'delta': d * PI / 2, 'kappa': 1., 'h': .5, 'sigma': 0.}, False))[0])
                      for g, wg in zip(x, wx) for d, wd in zip(x, wx))
            R.check(abs(tot - 1) < 1e-6, 'model-prior|%s|%.4f' % (prior, tot), 'the %s of the full moment tensor integrates to %.6f, so the prior probability of the double-couple model '
                    'is not dc_prior' % (prior, tot), dict(prior=prior, integral=tot))
    # one long run against prior samples weighted by the likelihood
    from scipy.stats import qmc
    seam.uninstall()
    u = qmc.Sobol(5, scramble=False).random_base2(15).T
    u = (u + .5 / u.shape[1]) % 1.
    seam.install()
    for name, dc in (('broad', False), ('medium', False)) if trans else (('broad', False), ('broad', True)):
        if tier == 'quick' and name == 'medium' and mode == 'py':
            continue
        ref, (f, w), mult = sets[name]
        length = (8000 if mode == 'c' else 5000) * (5 if tier == 'thorough' else 1)
        kw = dict(number_samples=20 if mode == 'c' else 4, dc=dc, initial_sample='grid', learning_length=200, acceptance_rate_window=50, chain_length=length,
                  min_number_initialisation_samples=200)
        dcp = .6
        if trans:
            kw.update(trans_dimensional=True, dimension_jump_prob=.3, dc_prior=dcp)
        seam.S.reset(Fill(5), limit=10 ** 9)
        ok, r = R.call('long', lambda: McMCForwardTask(dict(kw), *f, incorrect_polarity_prob=w, location_sample_multipliers=mult)())
        if not ok:
            continue
        m, l = entries_of(r['algorithm_output_data'], 1)
        m = m.T
        fun = []
        for model in (['mt', 'dc'] if trans else ['dc'] if dc else ['mt']):
            x = [np.arcsin(2 * u[0] - 1) / 3, PI * (betaincinv(5.745, 5.745, u[1]) - .5)] if model == 'mt' else [0 * u[0], 0 * u[0]]
            M = geo.tape6(x[0], x[1], 2 * PI * u[2], u[3], (u[4] * 2 - 1) * PI / 2)
            W = np.exp(O.ln_forward(M, **ref)) / u.shape[1]
            if trans:
                W = W * (dcp if model == 'dc' else (1 - dcp) * CDP)
            g, d = geo.source_type(np.linalg.eigvalsh(geo.m33(M)).T)
            fun.append((W, np.vstack([M, M ** 2, [g, d, g ** 2, d ** 2, np.full(len(W), float(model == 'dc'))]])))
        Z = sum(W.sum() for W, _ in fun)
        want = sum((W * F).sum(1) for W, F in fun) / Z
        g, d = geo.source_type(np.linalg.eigvalsh(geo.m33(m)).T)
        F = np.vstack([m, m ** 2, [g, d, g ** 2, d ** 2, np.array([float(is_dc(v)) for v in m.T])]])
        nb = 20
        k = F.shape[1] // nb
        B = F[:, :nb * k].reshape(len(F), nb, k).mean(2)
        mean, se = B.mean(1), B.std(1, ddof=1) / math.sqrt(nb)
        z = np.abs(mean - want) / (se + 1e-3)
        R.sample(dict(data=name, dc=dc, length=length, z=float(z.max()), mean=[float(t) for t in mean[-5:]], want=[float(t) for t in want[-5:]]))
        R.check((z < 8).all(), 'long|expectation', 'expectation %d over the chain is %.4f, weighted prior samples give %.4f (%.1f standard errors)'
                % (int(z.argmax()), mean[z.argmax()], want[z.argmax()], z.max()), dict(data=name, dc=dc, alg=alg))
        R.state()
    seam.uninstall()
