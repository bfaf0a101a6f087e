"""C08 - random source sampling draws from the stated prior, for every answer of the random generator."""
import itertools
import math
import os
import numpy as np
from mc import seam

ASSUMPTIONS = ['numpy.random (and the standard library random module) deliver independent uniform / normal deviates; the code under test is checked for every way it uses them',
               'distribution: the push-forward of a digital net of draw vectors (one draw vector per elementary cell of the draw space) is compared through all monomials up to degree 6 and through marginal distribution functions',
               'draws that have probability zero (an exactly zero normal vector) are excluded; exactly parallel vectors and the end points of the unit interval are included']

KINDS = ('mt', 'dc', 'clvd')


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        for k in KINDS:
            out.append(dict(name='push-%s-%s' % (k, mode), mode=mode, fn='push', kw=dict(tier=tier, kind=k), cost=8))
        out.append(dict(name='independence-' + mode, mode=mode, fn='independence', kw=dict(tier=tier), cost=6))
        out.append(dict(name='edges-' + mode, mode=mode, fn='edges', kw=dict(tier=tier), cost=5))
        out.append(dict(name='counts-' + mode, mode=mode, fn='counts', kw=dict(tier=tier), cost=4))
        out.append(dict(name='fork-' + mode, mode=mode, fn='fork', kw=dict(tier=tier, seed=seed), cost=3))
    out.append(dict(name='generate', mode='c', fn='generate', kw=dict(tier=tier), cost=3))
    return out


# ---- oracle ----------------------------------------------------------------------------------------------------------
def m33(m):
    r = 1 / math.sqrt(2)
    return np.array([[m[0], r * m[3], r * m[4]], [r * m[3], m[1], r * m[5]], [r * m[4], r * m[5], m[2]]])


PATTERN = {'dc': np.array([-1, 0, 1]) / math.sqrt(2), 'clvd': np.array([-1, -1, 2]) / math.sqrt(6)}


def valid(kind, M):
    """None or what is wrong with the (6, n) samples."""
    if not np.all(np.isfinite(M)):
        return 'not finite'
    if np.abs((M * M).sum(0) - 1).max() > 1e-12:
        return 'not unit norm'
    if kind != 'mt':
        r = 1 / math.sqrt(2)
        T = np.empty((M.shape[1], 3, 3))
        for i, j, k, s in ((0, 0, 0, 1), (1, 1, 1, 1), (2, 2, 2, 1), (0, 1, 3, r), (0, 2, 4, r), (1, 2, 5, r)):
            T[:, i, j] = T[:, j, i] = s * M[k]
        e = np.linalg.eigvalsh(T)
        if kind == 'clvd':
            e = np.where((e[:, 2] > -e[:, 0])[:, None], e, -e[:, ::-1])
        if np.abs(e - PATTERN[kind]).max() > 1e-7:
            return 'eigenvalues %r are not the %s pattern' % (e[np.abs(e - PATTERN[kind]).max(1).argmax()].tolist(), kind)
    return None


def monomials(degree):
    out = []
    for d in range(1, degree + 1):
        out += list(itertools.combinations_with_replacement(range(6), d))
    return out


def moments(M, mono, w=None):
    w = np.full(M.shape[1], 1. / M.shape[1]) if w is None else w
    cache = {(): w}
    out = np.empty(len(mono))
    # products built by extending prefixes
    for k, c in enumerate(mono):
        p = cache.get(c[:-1])
        if p is None:
            p = w
            for i in c[:-1]:
                p = p * M[i]
        v = p * M[c[-1]]
        if len(c) < 4:
            cache[c] = v
        out[k] = v.sum()
    return out


def sphere_moments(mono):
    out = []
    for c in mono:
        a = [c.count(i) for i in range(6)]
        if any(x % 2 for x in a):
            out.append(0.)
        else:
            v = math.gamma(3) / math.gamma(3 + sum(a) / 2.)
            for x in a:
                v *= math.gamma(x / 2. + .5) / math.gamma(.5)
            out.append(v)
    return np.array(out)


def orientations(n=14):
    """Rotations with weights integrating degree-13 polynomials of SO(3) exactly."""
    x, w = np.polynomial.legendre.leggauss(n)
    ang = 2 * np.pi * np.arange(n) / n
    R, W = [], []
    for cb, wb in zip(x, w):
        b = math.acos(cb)
        for a in ang:
            for g in ang:
                ca, sa, sb, cg, sg = math.cos(a), math.sin(a), math.sin(b), math.cos(g), math.sin(g)
                R.append([[ca * cb * cg - sa * sg, -ca * cb * sg - sa * cg, ca * sb], [sa * cb * cg + ca * sg, -sa * cb * sg + ca * cg, sa * sb], [-sb * cg, sb * sg, cb]])
                W.append(wb / 2 / n / n)
    return np.array(R), np.array(W)


def rotated(kind, n=14):
    R, W = orientations(n)
    T = np.einsum('nij,j,nkj->nik', R, PATTERN[kind], R)
    s = math.sqrt(2)
    return np.array([T[:, 0, 0], T[:, 1, 1], T[:, 2, 2], s * T[:, 0, 1], s * T[:, 0, 2], s * T[:, 1, 2]]), W


# ---- the real generators ---------------------------------------------------------------------------------------------
def generator(kind, n, how='method', **kw):
    from MTfit.algorithms.base import BaseAlgorithm
    from MTfit.algorithms.monte_carlo import IterationSample
    if how == 'method':
        b = BaseAlgorithm(number_samples=n, **kw)
        return {'mt': b.random_mt, 'dc': b.random_dc, 'clvd': b.random_clvd}[kind]
    opts = {'mt': {}, 'dc': {'dc': True}, 'clvd': {'sample_distribution': 'clvd'}}[kind]
    opts.update(kw)
    cls = BaseAlgorithm if how == 'base' else IterationSample
    return cls(number_samples=n, **opts).random_sample


def cols(x):
    """(6, total) array of everything returned."""
    if isinstance(x, (list, tuple)):
        return np.concatenate([np.array(np.asarray(i), float) for i in x], axis=1)
    return np.array(np.asarray(x), float)


def call(R, key, fn, values, limit=20000):
    seam.S.reset(values, limit=limit)
    return R.call(key, fn)


def net(k, m):
    from scipy.stats import qmc
    return qmc.Sobol(k, scramble=False).random_base2(m) + 2.0 ** -(m + 1)


# ---- distribution ----------------------------------------------------------------------------------------------------
def push_forward(R, kind, fn, positions, base, column, m):
    """Push the digital net over the given draw positions through the real generator; (6, 2^m) samples of one column."""
    X = net(len(positions), m)
    out = np.empty((6, len(X)))
    values = list(base)
    for r in range(len(X)):
        for p, v in zip(positions, X[r].tolist()):
            values[p] = v
        seam.S.reset(values, limit=20000)
        M = cols(fn())
        R.trans()
        out[:, r] = M[:, column]
    R.state(len(X))
    return out


def judge(R, kind, M, key, tol, data):
    bad = valid(kind, M)
    R.check(bad is None, key + ':valid', 'invalid sample: %s' % bad, data)
    if bad:
        return
    mono = monomials(6 if M.shape[1] >= 2 ** 13 else 4)
    if kind == 'mt':
        ref = sphere_moments(mono)
        got = moments(M, mono)
        R.traces += len(mono)
        k = int(np.abs(got - ref).argmax())
        R.check(abs(got[k] - ref[k]) < tol, key + ':moment', 'mean of the product of components %r is %.5f, %.5f for a uniform sphere' % (mono[k], got[k], ref[k]), data)
        # marginal distribution of a component (and of sums/differences): Beta
        from scipy.stats import beta
        for v in list(np.eye(6)) + [np.array([1, 1, 1, 0, 0, 0]) / math.sqrt(3), np.array([1, -1, 0, 0, 0, 1]) / math.sqrt(3)]:
            x = np.sort(v.dot(M))
            F = beta.cdf((x + 1) / 2, 2.5, 2.5)
            d = np.abs(F - (np.arange(len(x)) + .5) / len(x)).max()
            R.check(d < 10 * tol, key + ':marginal', 'distribution function of component %r is off by %.4f' % (v.tolist(), d), data)
        return
    groups = [(M, 'all')]
    if kind == 'clvd':
        det = np.array([np.linalg.det(m33(M[:, i])) for i in range(M.shape[1])])
        pos, neg = M[:, det > 0], -M[:, det < 0]
        R.outcome('signs', (pos.shape[1] > 0, neg.shape[1] > 0))
        groups = [(g, n) for g, n in ((pos, 'positive'), (neg, 'negative')) if g.shape[1] > M.shape[1] // 20]
    Q, W = rotated(kind)
    ref = moments(Q, mono, W)
    for g, name in groups:
        got = moments(g, mono)
        R.traces += len(mono)
        t = tol * (1 if name == 'all' else 3)
        k = int(np.abs(got - ref).argmax())
        R.check(abs(got[k] - ref[k]) < t, key + ':moment', '%s: mean of the product of components %r is %.5f, %.5f for random orientations' % (name, mono[k], got[k], ref[k]), data)
        # the axes: every principal axis is uniform on the sphere, so the square of each of its components is that of a uniform |z|
        T = np.empty((g.shape[1], 3, 3))
        r = 1 / math.sqrt(2)
        for i, j, kk, s in ((0, 0, 0, 1), (1, 1, 1, 1), (2, 2, 2, 1), (0, 1, 3, r), (0, 2, 4, r), (1, 2, 5, r)):
            T[:, i, j] = T[:, j, i] = s * g[kk]
        w, v = np.linalg.eigh(T)
        for a in ((0, 1, 2) if kind == 'dc' else (2,)):
            for c in range(3):
                x = np.sort(np.abs(v[:, c, a]))
                d = np.abs(x - (np.arange(len(x)) + .5) / len(x)).max()
                R.check(d < 20 * t, key + ':axis', '%s: |component %d| of axis %d is not uniform (%.4f)' % (name, c, a, d), data)


def draws(R, fn, base):
    seam.S.reset(base)
    fn()
    return seam.S.i


def filler(n, off=0):
    return [((i + off) * 0.6180339887498949 + 0.21) % 1.0 for i in range(n)]


def push(R, tier, kind):
    """The exact push-forward of the draw net, for the single-sample call."""
    m = 14 if tier == 'quick' else 16
    tol = 2e-3 if tier == 'quick' else 1e-3
    seam.install()
    for how in ('method', 'base'):
        fn = generator(kind, 1, how)
        base = filler(64)
        n = draws(R, fn, base)
        if not R.check(1 <= n <= 24, 'push:draws', '%d random draws for one sample' % n, None):
            continue
        M = push_forward(R, kind, fn, range(n), base, 0, m if how == 'method' else m - 3)
        judge(R, kind, M, 'push:' + kind, tol if how == 'method' else tol * 5, {'kind': kind, 'how': how, 'draws': n, 'kinds': seam.S.kinds[:n]})
        R.outcome('draws', n)
    R.sample({'kind': kind, 'draws': n, 'net': '2^%d draw vectors' % m})


# ---- independence ----------------------------------------------------------------------------------------------------
def influence(R, fn, base, n):
    """For each of the first n draws: the set of output columns it can change."""
    seam.S.reset(base)
    ref = cols(fn())
    inf = []
    for p in range(n):
        hit = set()
        for v in (0.03, 0.37, 0.61, 0.98):
            vals = list(base)
            vals[p] = v
            seam.S.reset(vals)
            M = cols(fn())
            R.trans()
            if M.shape == ref.shape:
                hit |= set(np.where(np.abs(M - ref).max(0) > 1e-9)[0].tolist())
        inf.append(hit)
        R.state(4)
    return ref, inf


def independence(R, tier):
    """Samples of one call, of successive calls, of several events: no draw is used for two samples."""
    seam.install()
    for kind in KINDS:
        one = generator(kind, 1)
        k1 = draws(R, one, filler(64))
        cases = [('method', n, 1, {}) for n in (1, 2, 3, 5) + ((8,) if tier != 'quick' else ())]
        cases += [('base', 3, 1, {}), ('iteration', 2, 1, {}), ('iteration', 2, 1, {'number_events': 2}), ('iteration', 1, 1, {'number_events': 3})]
        cases += [(how, n, 2, {}) for how in ('method', 'iteration') for n in (1, 2)]
        for how, n, calls, kw in cases:
            g = generator(kind, n, how, **kw)

            def fn():
                out = []
                for _ in range(calls):
                    r = g()
                    out.extend(r if isinstance(r, (list, tuple)) else [r])
                return out
            total = n * calls * kw.get('number_events', 1)
            data = {'kind': kind, 'how': how, 'n': n, 'calls': calls, 'kw': kw}
            base = filler(k1 * total + 40)
            nd = draws(R, fn, base)
            base = filler(nd + 40)
            ref, inf = influence(R, fn, base, nd)
            if not R.check(ref.shape == (6, total), 'independence:count', '%r samples for %d requested' % (ref.shape, total), data):
                continue
            bad = valid(kind, ref)
            R.check(bad is None, 'independence:valid', 'invalid sample: %s' % bad, data)
            shared = [(p, sorted(h)) for p, h in enumerate(inf) if len(h) > 1]
            R.check(not shared, 'independence:shared', 'one random draw determines several samples: %r' % shared[:3], data)
            lonely = [c for c in range(total) if not any(c in h for h in inf)]
            R.check(not lonely, 'independence:fixed', 'samples %r do not depend on any random draw' % lonely, data)
            if shared or lonely:
                continue
            # every column is the single-sample map of its own draws; if its draws are used in another order, its distribution is checked
            for c in range(total):
                pos = [p for p, h in enumerate(inf) if c in h]
                seam.S.reset([base[p] for p in pos] + filler(40, 1000))
                M1 = cols(one())
                same = len(pos) == seam.S.i and np.abs(M1[:, 0] - ref[:, c]).max() < 1e-12
                R.check(True, 'independence:map', '')
                R.outcome('map', same)
                if not same:
                    M = push_forward(R, kind, fn, pos, base, c, 11 if tier == 'quick' else 14)
                    judge(R, kind, M, 'independence:' + kind, 2e-2 if tier == 'quick' else 2e-3, dict(data, column=c))
    R.sample({'cases': [c[:3] for c in cases]})


# ---- special draws ---------------------------------------------------------------------------------------------------
def edges(R, tier):
    """Lattice of draws containing the ends of the unit interval, equal, opposite and parallel vectors."""
    seam.install()
    N = seam.Node
    nodes = [N(0.0, 0.0), N(0.5, 1.0), N(1 - 2.0 ** -53, -1.0), N(0.25, 2.0)]
    more = nodes + [N(2.0 ** -53, 1e-8), N(0.75, -30.0), N(0.125, 1e-160)]
    for kind in KINDS:
        for how in ('method', 'base'):
            fn = generator(kind, 1, how)
            k = draws(R, fn, filler(64))
            al = (more if k <= 4 else nodes) if tier == 'quick' else (more if k <= 6 else nodes)
            if how == 'base' and tier == 'quick':
                al = nodes[:3]
            for c in itertools.product(range(len(al)), repeat=min(k, 7)):
                vals = [al[i] for i in c]
                # exclude zero and underflowing vectors: probability zero answers of the generator
                z = [v.n for v in vals]
                if kind == 'mt' and max(abs(x) for x in z) < 1e-100:
                    continue
                if kind != 'mt' and k >= 6:
                    off = k - 6
                    if max(abs(x) for x in z[off:off + 3]) < 1e-100 or max([abs(x) for x in z[off + 3:off + 6]] + [0]) < 1e-100:
                        continue
                R.state()
                ok, M = call(R, 'edges', fn, vals)
                if not ok:
                    continue
                M = cols(M)
                R.check(M.shape == (6, 1), 'edges:shape', '%r for one sample' % (M.shape,), None)
                bad = valid(kind, M)
                R.check(bad is None, 'edges:valid', 'invalid sample for special draws: %s' % bad, {'kind': kind, 'draws': [(v.u, v.n) for v in vals], 'sample': M.ravel()})
            # the same answers inside a batch of three (vectorised code path)
            fn3 = generator(kind, 3, how)
            k3 = draws(R, fn3, filler(256))
            for c in itertools.product(range(3), repeat=4):
                for start in range(0, k3 - 3, 2 if tier == 'quick' else 1):
                    vals = [N(v, float(seam.ndtri(v))) for v in filler(k3 + 60)]
                    for q, i in enumerate(c):
                        vals[start + q] = nodes[i]
                    R.state()
                    ok, M = call(R, 'edges', fn3, vals)
                    if ok:
                        M = cols(M)
                        bad = valid(kind, M) if M.shape == (6, 3) else 'shape %r' % (M.shape,)
                        R.check(bad is None, 'edges:batch', 'invalid batch for special draws: %s' % bad, {'kind': kind, 'start': start, 'alphabet': c, 'sample': M})
    R.sample({'alphabet': [(v.u, v.n) for v in more]})


def counts(R, tier):
    """Every requested count up to a bound, and large ones: the count, validity and distinctness of the samples."""
    seam.install()
    ns = list(range(1, 40)) + [100, 1000, 10000]
    for kind in KINDS:
        for how in ('method', 'base', 'iteration'):
            for n in ns:
                for off in (0, 7):
                    fn = generator(kind, n, how)
                    ok, M = call(R, 'counts', fn, filler(200, off), limit=10 ** 7)
                    R.state()
                    if not ok:
                        continue
                    M = cols(M)
                    if R.check(M.shape == (6, n), 'counts:shape', '%r returned for %d samples' % (M.shape, n), {'kind': kind, 'how': how}):
                        bad = valid(kind, M)
                        R.check(bad is None, 'counts:valid', 'invalid sample: %s' % bad, {'kind': kind, 'n': n, 'how': how})
                        R.check(len(set(map(bytes, np.round(M, 12).T.copy()))) == n, 'counts:distinct', 'repeated samples in one call', {'kind': kind, 'n': n})
    # events
    for kind in KINDS:
        for ne in (2, 3):
            for n in (1, 2, 7):
                fn = generator(kind, n, 'iteration', number_events=ne)
                ok, r = call(R, 'events', fn, filler(100), limit=10 ** 6)
                R.state()
                if ok:
                    good = isinstance(r, (list, tuple)) and len(r) == ne and all(np.shape(x) == (6, n) for x in r)
                    if R.check(good, 'counts:events', 'expected %d arrays of %d samples' % (ne, n), {'kind': kind, 'got': [np.shape(x) for x in r]}):
                        for x in r:
                            bad = valid(kind, cols(x))
                            R.check(bad is None, 'counts:events-valid', 'several events, %s: %s' % (kind, bad), {'ne': ne, 'n': n})
    R.sample({'counts': ns})


def fork(R, tier, seed):
    """Worker processes start from one inherited generator state: their samples must differ from each other's."""
    seam.uninstall()
    for kind in KINDS:
        for n in (1, 4):
            for how in ('method', 'iteration'):
                for nw in (2, 3):
                    fn = generator(kind, n, how)
                    np.random.seed(seed)
                    got = []
                    for w in range(nw):
                        rd, wr = os.pipe()
                        pid = os.fork()
                        if pid == 0:
                            try:
                                os.write(wr, cols(fn()).tobytes())
                            finally:
                                os._exit(0)
                        os.close(wr)
                        buf = b''
                        while True:
                            x = os.read(rd, 65536)
                            if not x:
                                break
                            buf += x
                        os.close(rd)
                        os.waitpid(pid, 0)
                        got.append(np.frombuffer(buf).reshape(6, -1))
                    R.state()
                    R.trans(nw)
                    M = np.concatenate(got, axis=1)
                    R.check(M.shape[1] == n * nw and len(set(map(bytes, M.T.copy()))) == n * nw, 'fork:independent',
                            '%d worker processes drew the same %s samples' % (nw, kind), {'kind': kind, 'n': n, 'how': how, 'samples': M[:, :2]})
    R.sample({'workers': nw})


def generate(R, tier):
    """Samples drawn inside the compiled forward task: requested number, valid, and no draw used twice."""
    from MTfit.inversion import ForwardTask
    seam.install()
    a = np.array([[[1., 0., 0., 0., 0., 0.]], [[0., 1., 0., 0., 0., 0.]], [[0., 0., 0., .3, .2, .1]]])
    s = np.ones(3)
    p = np.array([.6, .5, .7])
    z = np.array([1.2, .8, 1.1])
    e = np.array([.5, .4, .3])
    data = {'polarity': dict(a_polarity=a, error_polarity=s), 'ratio': dict(a1_amplitude_ratio=a, a2_amplitude_ratio=a[::-1].copy(), amplitude_ratio=z, percentage_error1_amplitude_ratio=e, percentage_error2_amplitude_ratio=e),
            'prob': dict(a_polarity_prob=a, polarity_prob=(p, 1 - p))}
    data['both'] = dict(data['polarity'], **data['ratio'])
    data['probratio'] = dict(data['prob'], **data['ratio'])
    args = ('a_polarity', 'error_polarity', 'a1_amplitude_ratio', 'a2_amplitude_ratio', 'amplitude_ratio', 'percentage_error1_amplitude_ratio',
            'percentage_error2_amplitude_ratio', 'a_polarity_prob', 'polarity_prob')
    for name, d in sorted(data.items()):
        for dc in (False, True):
            for n in (1, 2, 4):
                def fn():
                    v = [np.array(d[k]) if isinstance(d.get(k), np.ndarray) else d.get(k, (False, False) if k == 'polarity_prob' else False) for k in args]
                    t = ForwardTask(False, *v, generate_samples=n, cutoff=100 * n, dc=dc)
                    return t()
                base = filler(60 * n)
                seam.S.reset(base)
                ok, r = R.call('generate', fn)
                if not ok:
                    continue
                nd = seam.S.i
                kind = 'dc' if dc else 'mt'
                M = cols(r['moment_tensors'])
                if not R.check(M.ndim == 2 and M.shape == (6, n), 'generate:count', '%r samples for %d requested' % (M.shape, n), {'data': name, 'dc': dc}):
                    continue
                bad = valid(kind, M)
                R.check(bad is None, 'generate:valid', 'invalid sample: %s' % bad, {'data': name, 'dc': dc, 'n': n})
                ref, inf = influence(R, lambda: fn()['moment_tensors'], base, nd)
                shared = [(q, sorted(h)) for q, h in enumerate(inf) if len(h) > 1]
                lonely = [c for c in range(n) if not any(c in h for h in inf)]
                R.check(not shared and not lonely, 'generate:independent', 'samples share draws %r or have none %r' % (shared[:3], lonely), {'data': name, 'dc': dc, 'n': n})
    R.sample({'data': sorted(data)})
