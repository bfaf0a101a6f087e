"""C09 - the sample store keeps each non-zero sample once, aligned, and counts every try.

Explicit exploration of batch histories against a list model of the store."""
import itertools
import os
import numpy as np

NINF = -np.inf
ASSUMPTIONS = ['batches of up to 5 candidates, histories of up to 4 batches (12 for the on-disk store), initial storage sizes 1-7',
               'candidates within 1e-9 of the discard threshold may be kept or removed']
LNP = [-1.5, 0.0, -800., 3.25, -20., -9.1, 2.0, -1e4, -3.3, 0.5]


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        for size in ([1, 2, 3, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 7]):
            out.append(dict(name='hist-%d-%s' % (size, mode), mode=mode, fn='hist', kw=dict(size=size, tier=tier), cost=6))
        out += [dict(name='multi-' + mode, mode=mode, fn='multi', kw=dict(tier=tier), cost=4),
                dict(name='file-' + mode, mode=mode, fn='filestore', kw=dict(tier=tier), cost=8),
                dict(name='iter-' + mode, mode=mode, fn='iteration', kw=dict(tier=tier), cost=5),
                dict(name='front-' + mode, mode=mode, fn='front', kw=dict(tier=tier), cost=2)]
    return out


class Model(object):
    """The specification: a list of (tensor columns, ln p, scale factor)."""

    def __init__(self):
        self.rows = []
        self.n = 0

    def append(self, cols, lnps, n, sfs=None):
        for i in range(len(lnps)):
            if lnps[i] > NINF:
                self.rows.append((cols[:, i], lnps[i], None if sfs is None else sfs[i]))
        self.n += n


def patterns(widths):
    return [p for w in widths for p in itertools.product((0, 1), repeat=w)]


class Gen(object):
    """Distinct columns and log-probabilities."""

    def __init__(self, events=1):
        self.k = 0
        self.events = events

    def batch(self, pat):
        cols = np.empty((6 * self.events, len(pat)))
        lnps = np.empty(len(pat))
        for i, nz in enumerate(pat):
            self.k += 1
            cols[:, i] = self.k + 0.01 * np.arange(6 * self.events)
            lnps[i] = LNP[self.k % len(LNP)] - 0.001 * self.k if nz else NINF
        return cols, lnps


def lse(v):
    m = max(v)
    return m + np.log(np.sum(np.exp(np.array(v) - m)))


def verify(R, tag, store, model, data, discards=((0, True), (2., True), (10000, True), (False, False)), events=1, output=None):
    R.state()
    R.check(len(store) == model.n, 'n:' + tag, 'tried count %r, model %r' % (len(store), model.n), data)
    for discard, normalise in discards:
        d2 = dict(data, discard=discard, normalise=normalise)
        if output is None:
            ok, o = R.call(tag, store.output, normalise, False, model.n, discard)
            if not ok:
                return
            o = o[0]
        else:
            o = output
        compare(R, tag, o, model, d2, discard, normalise, events)
        if output is not None:
            return


def compare(R, tag, o, model, d2, discard, normalise, events):
    if not model.rows:
        R.outcome('result', 'empty')
        R.check('probability' in o and np.size(o['probability']) == 0, 'empty:' + tag, 'all-zero history gave %r' % (o,), d2)
        return
    lnp = np.array([r[1] for r in model.rows])
    keep = np.ones(len(lnp), bool)
    if discard and model.n:
        thr = lnp.max() - np.log(discard * model.n)
        keep = lnp >= thr
        edge = np.abs(lnp - thr) < 1e-9
        if edge.any():
            return
    R.outcome('result', (len(lnp), int(keep.sum())))
    want = np.array([r[0] for r in model.rows]).T[:, keep]
    if events == 1:
        got = np.asarray(o.get('moment_tensor_space', np.zeros((6, 0))))
    else:
        parts = [np.asarray(o.get('moment_tensor_space_%d' % (i + 1), np.zeros((6, 0)))) for i in range(events)]
        if len(set(p.shape for p in parts)) != 1:
            R.fail('shapes:' + tag, 'events have different numbers of samples %r' % [p.shape for p in parts], d2)
            return
        got = np.vstack(parts)
    d2 = dict(d2, got=got[0], want=want[0])
    R.check(got.shape == want.shape, 'count:' + tag, '%d samples stored, model has %d' % (got.shape[1], want.shape[1]), d2)
    if got.shape != want.shape:
        return
    R.check(np.array_equal(got, want), 'tensors:' + tag, 'stored tensors differ from the non-zero candidates in order', d2)
    gl = np.asarray(o['ln_pdf'], float).flatten()
    R.check(gl.shape == lnp[keep].shape and np.allclose(gl, lnp[keep], rtol=1e-12, atol=1e-12), 'lnp:' + tag,
            'log-probabilities %r, model %r' % (gl, lnp[keep]), d2)
    gp = np.asarray(o['probability'], float).flatten()
    dV = float(o.get('dV', 1))
    wp = np.exp(lnp[keep] - lse(lnp)) / dV if normalise else np.exp(lnp[keep])
    R.check(gp.shape == wp.shape and np.allclose(gp, wp, rtol=1e-9, atol=1e-300), 'prob:' + tag,
            'probabilities %r, model %r' % (gp, wp), d2)
    if model.rows[0][2] is not None:
        sf = [r[2] for r, k in zip(model.rows, keep) if k]
        gs = list(o.get('scale_factors', []))
        R.check(len(gs) == len(sf) and all(np.array_equal(a['mu'], b['mu']) and np.array_equal(a['sigma'], b['sigma'])
                                           for a, b in zip(gs, sf)), 'scale:' + tag, 'scale factors not aligned with the samples', d2)


def dress(cols, lnps, kind):
    """The forms in which the forward tasks deliver a batch."""
    from MTfit.probability import LnPDF
    n = len(lnps)
    if kind == 'matrix':
        return np.matrix(cols), np.matrix(lnps), n
    if kind == 'lnpdf':
        return np.matrix(cols), LnPDF(np.matrix(lnps)), n
    if kind == 'array':
        return np.array(cols), np.array([lnps]), n
    if kind == 'filtered':                       # zero candidates already removed by the forward task
        nz = lnps > NINF
        return np.matrix(cols[:, nz]), LnPDF(np.matrix(lnps[nz])), n
    if kind == 'float':
        return np.matrix(cols), float(lnps[0]), n
    if kind == 'twoloc':                         # two location samples, not marginalised
        a = lnps - np.log(2)
        return np.matrix(cols), LnPDF(np.matrix(np.vstack([a, a]))), n
    raise KeyError(kind)


def run(R, store, hist, kinds, tag, discards, gen=None, every=False):
    gen = gen or Gen()
    model = Model()
    for b, (pat, kind) in enumerate(zip(hist, kinds)):
        cols, lnps = gen.batch(pat)
        mt, p, n = dress(cols, lnps, kind)
        ok, _ = R.call(tag + ':' + kind, store.append, mt, p, n)
        if not ok:
            return
        model.append(cols, lnps, n)
        if every and b < len(hist) - 1:
            verify(R, tag, store, model, {'hist': hist[:b + 1], 'kinds': kinds}, discards[:1])
    verify(R, tag, store, model, {'hist': hist, 'kinds': kinds}, discards)


def hist(R, size, tier):
    from MTfit.sampling import Sample
    full = ((0, True), (2., True), (10000, True), (0, False))
    short = ((0, True),)
    # every pattern of widths 1-3, two batches; every kind of delivery
    P3 = patterns((1, 2, 3))
    for h in itertools.product(P3, repeat=2):
        for kind in ('matrix', 'lnpdf', 'array', 'filtered', 'twoloc'):
            run(R, Sample(size), h, (kind,) * 2, 'hist', full if kind == 'lnpdf' else short, every=True)
    for h in itertools.product(patterns((1,)), repeat=4):
        run(R, Sample(size), h, ('float',) * 4, 'hist', short)
    # three batches, wider
    for h in itertools.product(P3, repeat=3):
        run(R, Sample(size), h, ('lnpdf',) * 3, 'hist', short)
    for h in itertools.product(patterns((1, 2)), repeat=4):
        run(R, Sample(size), h, ('matrix', 'filtered', 'lnpdf', 'array'), 'hist', full)
    for w in range(4, 8 if tier == 'quick' else 11):          # batches several times the storage chunk
        for h in itertools.product([(1,) * w, (0,) * w, (1, 0) * (w // 2), (0,) + (1,) * (w - 1), (1,) * (w - 1) + (0,)], repeat=3):
            run(R, Sample(size), h, ('lnpdf',) * 3, 'hist', short)
    if tier == 'thorough':
        for h in itertools.product(P3, repeat=4):
            run(R, Sample(size), h, ('lnpdf',) * 4, 'hist', short)
    R.sample({'size': size, 'history': [[1, 0], [0, 1, 1]]})


def mkscale(k):
    return {'mu': np.array([[1., k], [k, 1.]]), 'sigma': np.array([[0., 0.1 * k], [0.1 * k, 0.]])}


def multi(R, tier):
    from MTfit.sampling import Sample
    from MTfit.probability import LnPDF
    full = ((0, True), (2., True))
    for size in (1, 2, 4):
        for events in (2, 3):
            for withsf in (False, True):
                for h in itertools.product(patterns((1, 2)), repeat=3 if tier == 'quick' else 4):
                    store, model, gen = Sample(size, events), Model(), Gen(events)
                    good = True
                    for pat in h:
                        cols, lnps = gen.batch(pat)
                        sfs = [mkscale(c) for c in cols[0]] if withsf else None
                        mts = [np.matrix(cols[6 * e:6 * e + 6]) for e in range(events)]
                        kw = {'scale_factor': np.array(sfs)} if withsf else {'scale_factor': False}
                        good, _ = R.call('multi', store.append, mts, LnPDF(np.matrix(lnps)), len(pat), **kw)
                        if not good:
                            break
                        model.append(cols, lnps, len(pat), sfs)
                    if good:
                        verify(R, 'multi', store, model, {'hist': h, 'events': events, 'sf': withsf, 'size': size}, full, events)


def filestore(R, tier):
    """The on-disk store, including re-opening it between any two batches."""
    from MTfit.sampling import FileSample
    from MTfit.probability import LnPDF
    w = os.environ['MC_WORK']
    k = [0]

    def fresh(safe, events=1):
        k[0] += 1
        d = os.path.join(w, 'f%d' % k[0])
        os.mkdir(d)
        return os.path.join(d, 'run.mat'), d

    def one(h, safe, events, withsf, reopen, kind):
        import shutil
        fname, d = fresh(safe)
        data = {'hist': h, 'safe': safe, 'events': events, 'sf': withsf, 'reopen': reopen, 'kind': kind}
        store, model, gen = FileSample(fname, safe, number_events=events), Model(), Gen(events)
        good = True
        for b, pat in enumerate(h):
            if b in reopen:
                store = FileSample(fname, safe, number_events=events)
            cols, lnps = gen.batch(pat)
            sfs = [mkscale(c) for c in cols[0]] if withsf else None
            if events > 1:
                mts, p = [np.matrix(cols[6 * e:6 * e + 6]) for e in range(events)], LnPDF(np.matrix(lnps))
            else:
                mts, p, _ = dress(cols, lnps, kind)
            kw = {'scale_factor': np.array(sfs)} if withsf else {}
            good, _ = R.call('file', store.append, mts, p, len(pat), **kw)
            if not good:
                break
            model.append(cols, lnps, len(pat), sfs)
        if good:
            R.check(len(store) == model.n, 'n:file', 'tried count %r, model %r' % (len(store), model.n), data)
            ok, o = R.call('file', store.output, True, False, model.n, 0)
            if ok:
                R.state()
                compare(R, 'file', o[0], model, data, 0, True, events)
                R.check(len(store) == model.n, 'n:file', 'tried count %r after output, model %r' % (len(store), model.n), data)
        shutil.rmtree(d, ignore_errors=True)

    P = [(1,), (0,), (1, 0), (0, 1, 1)]
    deep = 2 if tier == 'quick' else 3
    for L in range(1, deep + 1):
        for h in itertools.product(P, repeat=L):
            one(h, True, 1, False, (), 'lnpdf')
            if L > 1:
                one(h, True, 1, False, (L - 1,), 'matrix')
    for h in itertools.product([(1, 0), (0,), (1, 1)], repeat=3):
        one(h, False, 1, False, (1,), 'lnpdf')
    for h in itertools.product([(1, 0), (0,), (1, 1)], repeat=2):
        for sf in (False, True):
            one(h, True, 2, sf, (), 'lnpdf')
    for n in (10, 12) if tier == 'quick' else range(5, 24):      # more than nine batches
        one(tuple([(1, 0), (1,), (0,), (1, 1)][i % 4] for i in range(n)), True, 1, False, (3,), 'lnpdf')
        one(tuple([(1,), (1, 1)][i % 2] for i in range(n)), True, 2, True, (), 'lnpdf')


def iteration(R, tier):
    """Sample-count-limited sampling: every outcome history of every (batch size, limit)."""
    from MTfit.algorithms.monte_carlo import IterationSample
    from MTfit.probability import LnPDF
    choices = ['zero', 'all', 'mixed', 'filtered', 'filteredzero']
    grid = [(ns, mx) for ns in (1, 2, 3, 5) for mx in range(1, 8 if tier == 'quick' else 12)]
    for ns, mx in grid:
        steps = -(-mx // ns)
        if steps > 4:
            hs = [tuple(choices[(a + b * i) % len(choices)] for i in range(steps)) for a in range(len(choices)) for b in (0, 1, 2)]
        else:
            hs = itertools.product(choices, repeat=steps)
        for h in hs:
            for events in ((1,) if steps > 2 else (1, 2)):
                alg = IterationSample(number_samples=ns, max_samples=mx, number_events=events)
                tag = 'iter'
                data = {'ns': ns, 'max': mx, 'hist': h, 'events': events}
                ok, r = R.call(tag, alg.initialise)
                if not ok:
                    return
                task, end = r
                R.check(not end, 'end:init', 'finished before the first batch', data)
                model = Model()
                for b, c in enumerate(h):
                    parts = task if events > 1 else [task]
                    cols = np.vstack([np.asarray(t) for t in parts])
                    R.check(cols.shape == (6 * events, ns), 'task:' + tag, 'task has shape %r' % (cols.shape,), data)
                    lnps = np.array([LNP[(b + i) % len(LNP)] for i in range(ns)], float)
                    if c in ('zero', 'filteredzero'):
                        lnps[:] = NINF
                    elif c in ('mixed', 'filtered'):
                        lnps[::2] = NINF
                    model.append(cols, lnps, ns)
                    nz = lnps > NINF
                    if c.startswith('filtered'):
                        m, p = [np.matrix(np.asarray(t)[:, nz]) for t in parts], LnPDF(np.matrix(lnps[nz]))
                    else:
                        m, p = [np.matrix(t) for t in parts], LnPDF(np.matrix(lnps))
                    result = {'moment_tensors': m if events > 1 else m[0], 'ln_pdf': p, 'n': ns}
                    ok, r = R.call(tag, alg.iterate, result)
                    if not ok:
                        break
                    task, end = r
                    R.state()
                    want = model.n >= mx
                    R.check(bool(end) == want, 'end:' + tag, 'after %d of %d samples end=%r' % (model.n, mx, end), data)
                    if bool(end) != want:
                        break
                else:
                    ok, o = R.call(tag, alg.output, True, False, 0)
                    if ok:
                        o = o[0]
                        R.check(o.get('total_number_samples') == model.n, 'n:' + tag, 'total_number_samples %r, model %r'
                                % (o.get('total_number_samples'), model.n), data)
                        compare(R, tag, o, model, data, 0, True, events)
                    ok, o = R.call(tag, alg.output, False, False, 5)
                    if ok:
                        compare(R, tag, o[0], model, data, 5, False, events)


def front(R, tier):
    """The same through Inversion(algorithm='iterate'): the numbers reported by a whole run."""
    from MTfit.inversion import Inversion
    ang = {'Name': ['A', 'B', 'C'], 'Azimuth': np.matrix([[10.], [130.], [250.]]), 'TakeOffAngle': np.matrix([[30.], [75.], [110.]])}
    data = {'UID': 'x', 'PPolarity': {'Stations': ang, 'Measured': np.matrix([[1.], [-1.], [1.]]),
                                      'Error': np.matrix([[0.05], [0.01], [0.02]])}}
    import copy
    cwd = os.getcwd()
    os.chdir(os.environ['MC_WORK'])
    for ns, mx in [(10, 35), (10, 40), (7, 7), (50, 20)]:
        ok, inv = R.call('front', Inversion, copy.deepcopy(data), algorithm='iterate', max_samples=mx, number_samples=ns,
                         parallel=False, output_format='pickle', convert=False, phy_mem=1)
        if not ok:
            return
        inv._set_algorithm(single=True) if not hasattr(inv, 'algorithm') else None
        ok, _ = R.call('front', inv.forward)
        if not ok:
            return
        alg = inv.algorithm
        R.state()
        got, step = alg.total_number_samples, alg.number_samples
        R.check(got % step == 0 and mx <= got < mx + step, 'front:n', 'ran %r samples in batches of %r, limit %d' % (got, step, mx),
                {'ns': ns, 'mx': mx})
    os.chdir(cwd)
