"""C20 - the compiled accelerators compute the same functions as the pure-Python paths they replace.

Both variants of MTfit (compiled extensions importable / blocked) live in one process (mc/twin.py); every input of the lattices is
given to both and the results are compared.
"""
import itertools
import math
import numpy as np

ASSUMPTIONS = ['rounding: log-densities agree to 1e-9 relative (amplitude ratios: plus 4e-15 / fractional error squared for the cancellation in the documented closed form), '
               'log-densities below -600 may be reported as zero by either side',
               'random generators: same distribution, compared through the push-forward of one low-discrepancy net through both']

_V = []


def twins():
    if not _V:
        from mc import twin
        _V.extend(twin.load())
    return _V


# ---- comparison -----------------------------------------------------------------------------------------------------
def plain(x):
    """Results as arrays: LnPDF, matrices, memoryviews, tuples."""
    if hasattr(x, '_ln_pdf'):
        return plain(x._ln_pdf)
    if isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(plain(i) for i in x)
    if isinstance(x, list):
        try:
            return np.array(x, dtype=float)
        except (ValueError, TypeError):
            return [plain(i) for i in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (bool, str)) or x is None:
        return x
    a = np.asarray(x)
    if a.dtype == object:
        return [plain(i) for i in a.ravel()]
    return a.astype(float)


def close(a, b, rel, ab=0., zero=None):
    """Elementwise agreement; zero: log-densities below it may be -inf on either side."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.abs(a - b) <= rel * np.maximum(np.abs(a), np.abs(b)) + ab) | (np.isnan(a) & np.isnan(b))
        if zero is not None:
            ok |= (a < zero) & (b < zero)
    return ok


def differ(a, b, rel, ab=0., zero=None, path=''):
    """None, or what differs between two plain results."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list)) or not isinstance(b, (tuple, list)) or len(a) != len(b):
            return '%s: different structure' % path
        for i, (p, q) in enumerate(zip(a, b)):
            d = differ(p, q, rel[i] if isinstance(rel, (list, tuple)) else rel, ab, zero, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) or isinstance(b, dict):
        if not isinstance(a, dict) or not isinstance(b, dict) or sorted(a) != sorted(b):
            return '%s: different keys' % path
        for k in a:
            d = differ(a[k], b[k], rel, ab, zero, '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (bool, str)) or a is None or isinstance(b, (bool, str)) or b is None:
        return None if a == b else '%s: %r and %r' % (path, a, b)
    if a.shape != b.shape:
        return '%s: shapes %s and %s' % (path, a.shape, b.shape)
    ok = close(a, b, rel, ab, zero)
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        return '%s%s: %r compiled, %r python' % (path, i.tolist() if a.ndim else '', np.atleast_1d(a)[tuple(i)], np.atleast_1d(b)[tuple(i)])
    return None


def both(R, key, run, rel=1e-9, ab=1e-12, zero=None, data=None, refuse=True, used=None):
    """run(variant) in both variants; compare. Exceptions must come from both (refuse) or from none."""
    C, P = twins()
    R.state()
    R.trans(2)
    res = []
    for V in (C, P):
        with V:
            try:
                res.append((True, plain(run(V))))
            except Exception as e:
                res.append((False, e))
    (okc, c), (okp, p) = res
    if okc != okp:
        R.check(False, key, 'raises only %s: %r' % ('in Python' if okc else 'compiled', p if okc else c), data)
        return None
    if not okc:
        R.outcome('refused', type(c).__name__)
        R.check(refuse, key, 'raises in both: %r / %r' % (c, p), data)
        return None
    d = differ(c, p, rel, ab, zero)
    R.check(d is None, key, d or '', dict(data or {}, compiled=c, python=p) if d else None)
    return c


def A3(nst, nloc, o, base):
    n = len(base)
    return np.array([[[base[(3 * i + 5 * j + 2 * k + i * k + o * (k + 1)) % n] for k in range(6)] for j in range(nloc)] for i in range(nst)])


BASE = [0.1, 1., -1., 0.3, -0.02, 2., 0.7, 0., -0.4, 1e-9, -1e-14]
MTS = np.array([[1., 0, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0], [.5, -.5, 0, .5, .5, 0], [0, .6, -.8, 0, 0, 0], [-.1, .2, .3, -.4, .5, .67], [0, 0, 0, 0, 0, 0],
                [0, 0, 1e-9, 0, 0, 1.]]).T
SEEDED = [0.37, -0.83, 1.7, 0.0613]


def shards(tier, seed):
    kw = dict(tier=tier, seed=seed)
    names = [('lik', 'pol', 10), ('lik', 'polprob', 10), ('lik', 'ratio', 20), ('lik', 'relative', 20), ('shapes', 'pol', 10), ('shapes', 'polprob', 10),
             ('shapes', 'ratio', 10), ('shapes', 'relative', 10)]
    out = [dict(name='%s-%s' % (f, w), mode='c', fn=f, kw=dict(kw, what=w), cost=c) for f, w, c in names]
    out += [dict(name=f, mode='c', fn=f, kw=dict(kw), cost=c) for f, c in FNS]
    for cls in ('multi', 'mtd'):
        out += [dict(name='accept-%s-%d' % (cls, n), mode='c', fn='accept', kw=dict(kw, cls=cls, n=n), cost=20) for n in (1, 2)]
        out.append(dict(name='propose-' + cls, mode='c', fn='propose', kw=dict(kw, cls=cls), cost=30))
    out += [dict(name='runs-%d' % i, mode='c', fn='runs', kw=dict(kw, part=i), cost=20) for i in range(4)]
    return out


FNS = [('logs', 10), ('divergence', 5), ('conv', 10), ('angles', 10), ('stiffness', 10), ('forward', 20), ('generate', 10), ('multi', 20), ('rand', 10), ('scat', 10)]


# ---- likelihood functions, one station and one source at a time -----------------------------------------------------------
def one(x):
    """coefficients and sources with modelled amplitude x[i] at sample i: (1,1,6) and (6,n)."""
    a = np.zeros((1, 1, 6))
    a[0, 0, 2] = 1.
    mt = np.zeros((6, len(x)))
    mt[2] = x
    return a, mt


AMP = [0., 1e-300, 1e-15, 1e-8, 1e-3, 0.04, 0.3, 0.5, 1., 2.3, 50.]
SIG = [0., 1e-10, 1e-3, 0.05, 0.3, 1., 30.]
FRAC = [0., 1e-5, 1e-3, 0.02, 0.1, 0.4, 1., 3., 50., -0.2]


def lik(R, tier, seed, what):
    f = {'pol': 'polarity_ln_pdf', 'polprob': 'polarity_probability_ln_pdf', 'ratio': 'amplitude_ratio_ln_pdf', 'relative': 'relative_amplitude_ratio_ln_pdf'}[what]
    s = abs(SEEDED[seed % 4])
    amp = AMP + [s]
    xs = amp + [-x for x in amp]
    if what == 'pol':
        a, mt = one(xs)
        for sg, w, kind in itertools.product(SIG + [s], (0., 1e-6, 0.1, 0.5, 0.9, 1., s % 1), ('float', 'a1', 'int')):
            if kind == 'int' and w not in (0., 1.):
                continue
            for flip in (1, -1):
                wv = {'float': w, 'a1': np.array([w]), 'int': int(w)}[kind]
                both(R, 'lik|' + what, lambda V: V.get('MTfit.probability', f)(flip * a, mt.copy(), np.array([sg]), wv.copy() if kind == 'a1' else wv), zero=-600,
                     data=dict(x=xs, sigma=sg, w=wv, flip=flip))
        R.sample(dict(x=xs, sigma=sg, w=w))
    elif what == 'polprob':
        a, mt = one(xs)
        pr = (0., 1e-12, 0.2, 0.5, 0.7, 1.)
        for p, n, w, kind in itertools.product(pr, pr, (0., 0.1, 0.5, 1., s % 1), ('float', 'a1', 'int')):
            if kind == 'int' and w not in (0., 1.):
                continue
            wv = {'float': w, 'a1': np.array([w]), 'int': int(w)}[kind]
            both(R, 'lik|' + what, lambda V: V.get('MTfit.probability', f)(a, mt.copy(), np.array([p]), np.array([n]), wv), zero=-600,
                 data=dict(x=xs, p=p, n=n, w=w))
        R.sample(dict(x=xs, p=p, n=n, w=w))
    else:
        from checks.c03 import REL, RMUL
        pts = AMP[3:] + [s]
        fracs = FRAC if what == 'ratio' else [f for f in FRAC if abs(f) < 0.9]
        for fx, fy in itertools.product(fracs, fracs):
            ex, ey = abs(fx) or 1e-24, abs(fy) or 1e-24
            tol = 1e-9 + 4e-15 * (1. / max(ex, 1e-9) ** 2 + 1. / max(ey, 1e-9) ** 2)
            rs = set()
            for mx, my in ((0.3, 1.), (1., 0.5), (2.3, 0.04)):
                z = mx / my
                w = z * math.hypot(max(ex, 1e-5), max(ey, 1e-5))
                rs |= {z + q * w for q in REL[::2 if tier == 'quick' else 1]} | {z * q for q in RMUL[::2 if tier == 'quick' else 1]}
            rs = sorted(r for r in rs if r > 0)
            if min(ex, ey) < 1e-9:
                rs = rs[::5]
            prs = list(itertools.product(pts + [-0.5], pts + [-0.04]))
            ax = np.zeros((1, 1, 6))
            ay = np.zeros((1, 1, 6))
            ax[0, 0, 0] = ay[0, 0, 1] = 1.
            mt = np.zeros((6, len(prs)))
            mt[0] = [q[0] for q in prs]
            mt[1] = [q[1] for q in prs]
            for r in rs + [1e-9, 0.]:
                d = dict(r=r, fx=fx, fy=fy, mu=prs)
                if what == 'ratio':
                    both(R, 'lik|' + what, lambda V: V.get('MTfit.probability', f)(np.array([r]), mt.copy(), ax, ay, np.array([fx]), np.array([fy])),
                         rel=tol, ab=tol, zero=-600, data=d)
                else:
                    for x2 in (1., -3.7e-7):
                        both(R, 'lik|' + what, lambda V: V.get('MTfit.probability', f)(np.array([r * x2]), np.array([x2]), mt.copy(), mt.copy(), ax, ay,
                                                                                      np.array([fx]), np.array([fy])), rel=[tol, 1e-9, 1e-7], ab=tol, zero=-600, data=dict(d, x2=x2))
        R.sample(dict(r=r, fx=fx, fy=fy, mu=prs[:4]))


def layouts(mt):
    yield 'C', mt.copy()
    yield 'F', np.asfortranarray(mt)
    yield 'slice', np.repeat(mt, 2, axis=1)[:, ::2]
    yield 'float32', mt.astype(np.float32).astype(np.float64).astype(np.float32)
    yield 'int', np.round(mt * 3).astype(int)


def shapes(R, tier, seed, what):
    """every small number of stations, location samples and sources; every error assignment; memory layouts and types."""
    f = {'pol': 'polarity_ln_pdf', 'polprob': 'polarity_probability_ln_pdf', 'ratio': 'amplitude_ratio_ln_pdf', 'relative': 'relative_amplitude_ratio_ln_pdf'}[what]
    S = (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3)
    for nst, nloc, nmt in itertools.product(S, (1, 2, 3), (1, 2, 5, 7)):
        for o in (1, 2, 3):
            a, b = A3(nst, nloc, o, BASE), A3(nst, nloc, o + 1, BASE)
            base = np.ascontiguousarray(MTS[:, o - 1:o - 1 + nmt])
            for lay, mt in itertools.chain(layouts(base), [('samples first', base.T.copy())] if what in ('pol', 'polprob') else []):
                d = dict(nst=nst, nloc=nloc, o=o, layout=lay)
                z = np.array([0.3, 1.4, 0.8, 5.][:nst])
                es = list(itertools.product((0.03, 0.4), repeat=nst))
                if lay != 'C':
                    es = es[:1]
                for e1, (k, e2) in itertools.product(es, enumerate(es)):
                    if what == 'pol':
                        ws = [0.1, np.array([0.2]), np.array([0., 0.3, 1., 0.5][:nst]), 0, [0.1, 0.2, 0.3, 0.4][:nst]]
                        w = ws[k % 5] if k else 0.
                        both(R, 'shapes|' + what, lambda V: V.get('MTfit.probability', f)(a.copy(), mt.copy(order='K'), np.array(e1), w), zero=-600, data=dict(d, sigma=e1, w=w))
                    elif what == 'polprob':
                        ws = [0.1, np.array([0.2]), np.array([0., 0.3, 1., 0.5][:nst]), 0, 0.]
                        w = ws[k % 5]
                        both(R, 'shapes|' + what, lambda V: V.get('MTfit.probability', f)(a.copy(), mt.copy(order='K'), np.array(e1), np.array(e2), w), zero=-600,
                             data=dict(d, p=e1, n=e2, w=w))
                    elif what == 'ratio':
                        both(R, 'shapes|' + what, lambda V: V.get('MTfit.probability', f)(z.copy(), mt.copy(order='K'), a.copy(), b.copy(), np.array(e1), np.array(e2)),
                             zero=-600, data=dict(d, z=z, ex=e1, ey=e2))
                    else:
                        mt2 = np.roll(mt, 1, axis=1)
                        both(R, 'shapes|' + what, lambda V: V.get('MTfit.probability', f)(z.copy(), np.array([1., 2., -.5, 1e-6][:nst]), mt.copy(order='K'), mt2.copy(order='K'), a.copy(),
                                                                                        b.copy(), np.array(e1), np.array(e2)), rel=[1e-9, 1e-9, 1e-7], zero=-600,
                             data=dict(d, z=z, ex=e1, ey=e2))
        R.sample(d)


# ---- log-domain reductions ------------------------------------------------------------------------------------------------
VALS = [-np.inf, -1e300, -1e5, -800., -37.5, 0., 0.5, 690., 1e4]
SMALL = [-np.inf, -750., -1., 0., 800.]


def matrices(tier):
    for v in itertools.product(VALS, repeat=2):
        yield np.array(v).reshape(2, 1)
        yield np.array(v).reshape(1, 2)
    for v in itertools.product(VALS[::2] + [0.5], repeat=3):
        yield np.array(v).reshape(3, 1)
        yield np.array(v).reshape(1, 3)
    for v in itertools.product(SMALL, repeat=4):
        yield np.array(v).reshape(2, 2)
    for v in itertools.product([-np.inf, 0., 800.] if tier == 'quick' else SMALL, repeat=6):
        yield np.array(v).reshape(3, 2)
        yield np.array(v).reshape(2, 3)


def logs(R, tier, seed):
    C, P = twins()
    L = C.get('MTfit.probability', 'LnPDF'), P.get('MTfit.probability', 'LnPDF')
    mk = lambda V, M: V.get('MTfit.probability', 'LnPDF')(M.copy())
    tol = dict(rel=4e-12, ab=4e-12)
    for i, M in enumerate(matrices(tier)):
        d = dict(M=M)
        for dV in ((1., 0.37) if i % 3 == 0 else (1.,)):
            for axis in (0, 1):
                both(R, 'logs|ln_marginalise', lambda V: np.asarray(V.get('MTfit.probability', 'ln_marginalise')(M.copy(), axis, dV)).flatten(), data=dict(d, axis=axis, dV=dV), **tol)
                both(R, 'logs|LnPDF.marginalise', lambda V: np.asarray(mk(V, M).marginalise(axis, dV=dV)._ln_pdf).flatten(), data=dict(d, axis=axis, dV=dV), **tol)
            if M.max() > -np.inf:
                if M.shape[0] == 1:
                    row = M[0]
                    both(R, 'logs|ln_normalise', lambda V: np.asarray(V.get('MTfit.probability', 'ln_normalise')(row.copy(), dV)).flatten(), data=dict(d, dV=dV), **tol)
                both(R, 'logs|output', lambda V: np.asarray(mk(V, M).output()._ln_pdf).flatten(), data=d, **tol)
                both(R, 'logs|normalise', lambda V: np.asarray(mk(V, M).normalise(dV)._ln_pdf), data=dict(d, dV=dV), **tol)
        both(R, 'logs|nonzero', lambda V: mk(V, M).nonzero(), data=d)
        if M.max() < 700 and i % 2 == 0:
            both(R, 'logs|exp', lambda V: np.asarray(mk(V, M).exp()).flatten(), data=d, **tol)
        if M.max() > -np.inf:
            for m in ('max', 'argmax'):
                if M.max() < 700:
                    both(R, 'logs|' + m, lambda V: [getattr(mk(V, M), m)(a) for a in ((-1, 1) if M.shape[0] == 1 else (-1,))], data=d, **tol)
        if i % 4 == 0:
            def inplace(V):
                X = M.copy()
                V.get('MTfit.probability', 'ln_marginalise')(X)
                return X
            both(R, 'logs|input', inplace, data=d)
    R.sample(d)


def divergence(R, tier, seed):
    """information gain between two sampled distributions, and from the uniform prior."""
    vals = [-np.inf, -700., -3., 0., 2.5, 650.]
    n = 0
    for k in (1, 2, 3, 4):
        for p in itertools.product(vals if k < 4 else vals[::2], repeat=k):
            if max(p) == -np.inf:
                continue
            p = np.array(p)
            for q in (p, p[::-1] * 0.5, np.linspace(-2, 3, k), np.where(np.isinf(p), -5., p + 1)):
                if np.any(np.isinf(q) & ~np.isinf(p)):
                    continue
                for dV in (1., 0.02):
                    both(R, 'dkl', lambda V: V.get('MTfit.probability.probability', 'dkl')(p.copy(), q.copy(), dV), ab=1e-10, data=dict(p=p, q=q, dV=dV))
                    both(R, 'dkl', lambda V: V.get('MTfit.probability.probability', 'dkl')(V.get('MTfit.probability', 'LnPDF')(p.copy()),
                                                                                          V.get('MTfit.probability', 'LnPDF')(q.copy()), dV), ab=1e-10, data=dict(p=p, q=q, dV=dV))
            for Vol, N in ((1., k), (math.pi ** 3, k + 3), (20., 10 ** 6)):
                both(R, 'dkl_estimate', lambda V: V.get('MTfit.probability', 'dkl_estimate')(p.copy(), Vol, N), ab=1e-10, data=dict(p=p, V=Vol, N=N))
                both(R, 'dkl_estimate', lambda V: V.get('MTfit.probability', 'dkl_estimate')(V.get('MTfit.probability', 'LnPDF')(p.copy()), Vol, N), ab=1e-10, data=dict(p=p, V=Vol, N=N))
    R.sample(dict(p=p, q=q))


# ---- parameter conversions ---------------------------------------------------------------------------------------------------
MC = 'MTfit.convert.moment_tensor_conversion'
AT = 2e-6


def run2(R, key, run, data=None):
    """(compiled, python) results as plain values, or None when both refuse."""
    C, P = twins()
    R.state()
    R.trans(2)
    res = []
    for V in (C, P):
        with V:
            try:
                res.append((True, plain(run(V))))
            except Exception as e:
                res.append((False, e))
    (okc, c), (okp, p) = res
    if okc != okp:
        R.check(False, key, 'raises only %s: %r' % ('in Python' if okc else 'compiled', p if okc else c), data)
        return None
    if not okc:
        R.outcome('refused', type(c).__name__)
        return None
    return c, p


def same_axes(a, b, E):
    """axes (3 rows T, N, P of 3-vectors) up to sign; projectors where eigenvalues are repeated (1e-6 of the largest)."""
    size = max(np.abs(E).max(), 1e-300)
    t12, t23 = abs(E[0] - E[1]) < 1e-6 * size, abs(E[1] - E[2]) < 1e-6 * size
    groups = [[0, 1, 2]] if t12 and t23 else [[0, 1], [2]] if t12 else [[0], [1, 2]] if t23 else [[0], [1], [2]]
    for g in groups:
        pa = sum(np.outer(a[i], a[i]) for i in g)
        pb = sum(np.outer(b[i], b[i]) for i in g)
        if not np.abs(pa - pb).max() < AT:
            return False
    return True


def dang(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def same_tape(c, p, m, E, strict):
    """(g, d, k, h, s) from both variants."""
    from checks import geo
    for x in (c, p):
        if not np.all(np.isfinite(x)) or not np.abs(geo.tape6(*x) - m).max() < 1e-6:
            return False
    iso = abs(abs(c[1]) - math.pi / 2) < 1e-5 and abs(abs(p[1]) - math.pi / 2) < 1e-5
    if not (iso or abs(c[0] - p[0]) < AT) or abs(c[1] - p[1]) > AT:
        return False
    if strict:
        return dang(c[2], p[2]) < AT and abs(c[3] - p[3]) < AT and abs(c[4] - p[4]) < AT
    return True


def generic(E, planes):
    """distinct eigenvalues; neither plane horizontal or vertical; rakes away from 0, 90 and 180 degrees (dips and rakes in radians)."""
    size = np.abs(E).max()
    if abs(E[0] - E[1]) < 1e-4 * size or abs(E[1] - E[2]) < 1e-4 * size:
        return False
    return all(0.01 < d < math.pi / 2 - 0.01 and min(dang(r, q) for q in (0, math.pi / 2, math.pi, -math.pi / 2)) > 0.01 for d, r in planes)


def tied(axes):
    """an axis whose two largest components have the same size: its sign convention is decided by rounding."""
    for a in axes:
        s = np.sort(np.abs(a))
        if s[2] - s[1] < 1e-6:
            return True
    return False


def tensors(tier, seed):
    """six-vectors: eigenvalue patterns times orientations, and lattices of directions."""
    out = []
    E = [(1, 0, -1), (1, 1, 1), (-1, -1, -1), (2, -1, -1), (1, 1, -2), (1, 0, 0), (0, 0, -1), (3, 1, 1), (1, -.2, -.4), (.9, .2, -.5), (1, .999, -.3), (1, 1e-7, -1), (5, 3, 1), (-1, -2, -4),
         (1, .5 * abs(SEEDED[seed % 4]) % 1, -.7)]
    ang = [0., 0.4, math.pi / 2, 2.2] if tier == 'quick' else [0., 0.4, 0.9, math.pi / 2, 2.2, math.pi, 4.]
    for e in E:
        for a, b, c in itertools.product(ang, ang[:3], ang):
            ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
            Rm = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]).dot(np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]])).dot(np.array([[cc, -sc, 0], [sc, cc, 0], [0, 0, 1]]))
            M = Rm.dot(np.diag(np.array(e, float))).dot(Rm.T)
            v = np.array([M[0, 0], M[1, 1], M[2, 2], math.sqrt(2) * M[0, 1], math.sqrt(2) * M[0, 2], math.sqrt(2) * M[1, 2]])
            out.append(v / np.linalg.norm(v))
    vals = (-1., 0., .5, 1.) if tier == 'quick' else (-1., -.3, 0., .5, 1.)
    for v in itertools.product(vals, repeat=6):
        if any(v) and (tier != 'quick' or sum((i + 1) * x for i, x in enumerate(v)) % 2 < 1):
            out.append(np.array(v) / np.linalg.norm(v))
    return np.array(out).T


def one_tensor(R, m, scale, kind):
    from checks import geo
    x = {'array': lambda: (m * scale).reshape(6, 1), 'matrix': lambda: np.matrix((m * scale).reshape(6, 1))}[kind]
    d = dict(m=m, scale=scale, kind=kind)
    r = run2(R, 'conv|MT6_TNPE', lambda V: V.get(MC, 'MT6_TNPE')(x()), d)
    if r is None:
        return
    c, p = r
    if not R.check([q.shape for q in c] == [q.shape for q in p] == [(3, 1)] * 4, 'conv|MT6_TNPE', 'shapes %s' % [[q.shape for q in c], [q.shape for q in p]], d):
        return
    E = p[3].ravel()
    ac, ap = [q.ravel() for q in c[:3]], [q.ravel() for q in p[:3]]
    R.check(np.abs(c[3] - p[3]).max() <= 1e-9 * np.abs(E).max(), 'conv|MT6_TNPE', 'eigenvalues %s compiled, %s python' % (c[3].ravel(), E), d)
    R.check(same_axes(ac, ap, E), 'conv|MT6_TNPE', 'axes differ', dict(d, compiled=ac, python=ap))
    rep = min(E[0] - E[1], E[1] - E[2]) < 1e-6 * np.abs(E).max()
    tie = rep or tied(ap)
    if not tie:
        R.check(np.abs(np.array(ac) - np.array(ap)).max() < AT, 'conv|MT6_TNPE', 'axes point in opposite directions', dict(d, compiled=ac, python=ap))
    if kind == 'matrix':
        return
    r = run2(R, 'conv|output_convert', lambda V: V.get(MC, 'output_convert')(x()), d)
    if r is None:
        return
    c, p = r
    if not R.check(sorted(c) == sorted(p) and all(c[k].shape == p[k].shape == (1,) for k in p), 'conv|output_convert', 'keys or shapes differ', dict(d, compiled=c, python=p)):
        return
    c, p = {k: float(v[0]) for k, v in c.items()}, {k: float(v[0]) for k, v in p.items()}
    bad = dict(d, compiled=c, python=p)
    R.check(abs(c['u'] - p['u']) < AT and abs(c['v'] - p['v']) < AT, 'conv|output_convert', 'u, v differ', bad)
    rad = math.pi / 180
    pl = [(p['D1'] * rad, p['R1'] * rad), (p['D2'] * rad, p['R2'] * rad)]
    gen = not rep and generic(E, pl)
    R.check(same_tape([c[k] for k in 'gdkhs'], [p[k] for k in 'gdkhs'], m, E, gen), 'conv|output_convert', 'Tape parameters differ', bad)
    if not rep:
        q = [[x[k] * rad for k in ('S1', 'D1', 'R1', 'S2', 'D2', 'R2')] for x in (c, p)]
        direct = max(geo.same_plane(*(q[0][:3] + q[1][:3])), geo.same_plane(*(q[0][3:] + q[1][3:]))) < AT
        cross = max(geo.same_plane(*(q[0][:3] + q[1][3:])), geo.same_plane(*(q[0][3:] + q[1][:3]))) < AT
        R.check(direct or (tie and cross) or (not gen and cross), 'conv|output_convert', 'planes differ', bad)
        if gen and not tie:
            R.check(max(dang(a, b) for a, b in zip(*q)) < AT, 'conv|output_convert', 'plane angles differ', bad)
    R.outcome('kind', (rep, tie, gen))
    r = run2(R, 'conv|MT6_Tape', lambda V: V.get(MC, 'MT6_Tape')(x()), d)
    if r is not None:
        c, p = [[float(q) for q in z] for z in r]
        R.check(same_tape(c, p, m, E, gen), 'conv|MT6_Tape', 'Tape parameters differ', dict(d, compiled=c, python=p))


def conv(R, tier, seed):
    M = tensors(tier, seed)
    n = M.shape[1]
    for i in range(n):
        for scale, kind in ((1., 'array'), ((1., 3e5, 2e-6)[i % 3], 'matrix')):
            one_tensor(R, M[:, i].copy(), scale, kind)
    R.sample(dict(tensors=n))
    # all of them in one call: every column as if alone, in both variants
    for V in twins():
        with V:
            R.state()
            R.trans(2)
            allc = plain(V.get(MC, 'output_convert')(M.copy()))
            tn = plain(V.get(MC, 'MT6_TNPE')(M.copy()))
            for i in range(0, n, 7):
                alone = plain(V.get(MC, 'output_convert')(M[:, i:i + 1].copy()))
                R.check(all(abs(allc[k][i] - alone[k][0]) < 1e-9 for k in alone), 'conv|batch', 'a source converts differently in a batch (%s)' % V.name, dict(m=M[:, i]))
                alone = plain(V.get(MC, 'MT6_TNPE')(M[:, i:i + 1].copy()))
                R.check(all(np.abs(a[:, i] - b[:, 0]).max() < 1e-9 for a, b in zip(tn, alone)), 'conv|batch', 'a source converts differently in a batch (%s)' % V.name, dict(m=M[:, i]))


def angles(R, tier, seed):
    """conversions of angles, eigenvalues and axes: strict equality where the value is unique."""
    from checks import geo
    # Tape parameters to six-vectors
    gs, ds = np.linspace(-math.pi / 6, math.pi / 6, 5), np.linspace(-math.pi / 2, math.pi / 2, 5)
    ks, hs, ss = [0., 0.3, 1.6, math.pi, 5., 6.28], [0., 1e-9, 0.2, 0.7, 1.], [-math.pi / 2, -1.2, 0., 1e-7, 0.7, math.pi / 2]
    if tier == 'thorough':
        gs, ds = np.linspace(-math.pi / 6, math.pi / 6, 9), np.linspace(-math.pi / 2, math.pi / 2, 9)
        ks += [abs(SEEDED[seed % 4]) * 3]
    for g, d in itertools.product(gs, ds):
        q = np.array(list(itertools.product([g], [d], ks, hs, ss))).T
        both(R, 'angles|Tape_MT6', lambda V: V.get(MC, 'Tape_MT6')(*[x.copy() for x in q]), rel=1e-12, ab=1e-12, data=dict(g=g, d=d, k=ks, h=hs, s=ss))
        for i in range(0, q.shape[1], 37):
            both(R, 'angles|Tape_MT6', lambda V: V.get(MC, 'Tape_MT6')(*[x[i:i + 1].copy() for x in q]), rel=1e-12, ab=1e-12, data=dict(q=q[:, i]))
            both(R, 'angles|Tape_MT6', lambda V: np.asarray(V.get(MC, 'Tape_MT6')(*[float(x[i]) for x in q])).ravel(), rel=1e-12, ab=1e-12, data=dict(q=q[:, i]))
    R.sample(dict(q=q[:, 0]))
    # eigenvalues to source type
    vals = [-2., -1., -.4, 0., .3, 1., 2., 1 + 2.3e-16, 1e-7]
    Es = [np.array(e) for e in itertools.product(vals, repeat=3) if any(e)]
    for e in Es:
        for sc in (1., 1e-6, 7e5):
            r = run2(R, 'angles|E_GD', lambda V: V.get(MC, 'E_GD')((e * sc).copy()), dict(E=e * sc))
            if r is None:
                continue
            c, p = [[float(np.asarray(x).ravel()[0]) for x in z] for z in r]
            g0, d0 = geo.source_type(e)
            R.check(abs(c[1] - p[1]) < AT and abs(c[0] - p[0]) * math.cos(d0) < AT and len(set(np.size(x) for z in r for x in z)) == 1, 'angles|E_GD', 'source types %s compiled, %s python' % (c, p), dict(E=e * sc))
    for k in (2, 3, 4, 5):
        for i in range(0, len(Es) - k, 5):
            X = np.array(Es[i:i + k]).T
            for lay, Y in (('columns', X), ('rows', X.T.copy())):
                if k == 3 and lay == 'rows':
                    continue
                r = run2(R, 'angles|E_GD', lambda V: V.get(MC, 'E_GD')(Y.copy()), dict(E=Y))
                if r:
                    c, p = r
                    R.check(all(x.shape == y.shape for x, y in zip(c, p)) and np.abs(c[1] - p[1]).max() < AT and np.abs((c[0] - p[0]) * np.cos(p[1])).max() < AT, 'angles|E_GD',
                            'source types differ', dict(E=Y, compiled=c, python=p))
    # planes
    S = geo.orientations(small=(tier == 'quick'))
    S = np.concatenate([S, geo.orientations()[:, seed % 7::7]], 1)
    n = S.shape[1]
    R.state(n)
    # every orientation alone; the exact values where the aux plane is unique
    for i in range(n):
        q = S[:, i]
        for lay in ('array', 'float'):
            a = [(x[i:i + 1].copy() if lay == 'array' else float(x[i])) for x in S]
            r = run2(R, 'angles|SDR_SDR', lambda V: V.get(MC, 'SDR_SDR')(*a), dict(q=q))
            if r:
                c, p = [[float(np.asarray(x).ravel()[0]) for x in z] for z in r]
                gen = 0.01 < c[1] < math.pi / 2 - 0.01 and 0.01 < q[1] < math.pi / 2 - 0.01 and abs(math.cos(q[2])) > 0.01
                ok = max(dang(c[0], p[0]), dang(c[2], p[2]), abs(c[1] - p[1])) < AT if gen else geo.same_plane(*(c + p)) < AT
                R.check(ok, 'angles|SDR_SDR', 'auxiliary planes %s compiled, %s python' % (c, p), dict(q=q))
        T, N, P = [np.matrix(x.reshape(3, 1)) for x in geo.axes(*q)]
        for sg in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            r = run2(R, 'angles|TNP_SDR', lambda V: V.get(MC, 'TNP_SDR')(sg[0] * T, N.copy(), sg[1] * P), dict(q=q, sg=sg))
            if r:
                c, p = [[float(np.asarray(x).ravel()[0]) for x in z] for z in r]
                gen = 0.01 < p[1] < math.pi / 2 - 0.01 and abs(math.sin(p[2])) > 0.01
                ok = max(dang(c[0], p[0]), dang(c[2], p[2]), abs(c[1] - p[1])) < AT if gen else geo.same_plane(*(c + p)) < AT
                R.check(ok, 'angles|TNP_SDR', 'planes %s compiled, %s python' % (c, p), dict(q=q, sg=sg))
    # in batches, as arrays and matrices
    gen = np.array([0.01 < q[1] < math.pi / 2 - 0.01 and min(dang(q[2], z) for z in (0, math.pi / 2, math.pi, -math.pi / 2)) > 0.01 for q in S.T])
    X = S[:, gen]
    both(R, 'angles|SDR_SDR', lambda V: V.get(MC, 'SDR_SDR')(*[x.copy() for x in X]), rel=1e-7, ab=AT)
    T, N, P = geo.axes(*X)
    for kind in (np.matrix, np.array):
        both(R, 'angles|TNP_SDR', lambda V: V.get(MC, 'TNP_SDR')(kind(T), kind(N), kind(P)), rel=1e-7, ab=AT)
    R.sample(dict(q=q))


def stiff(tier, seed):
    """stiffness tensors: isotropic, nearly isotropic, vertically and generally anisotropic."""
    iso = lambda l, m: [l + 2 * m, l, l, 0, 0, 0, l + 2 * m, l, 0, 0, 0, l + 2 * m, 0, 0, 0, m, 0, 0, m, 0, m]
    out = [('iso', iso(1, 1)), ('iso', iso(1., 2.5)), ('iso', iso(0., 1.)), ('iso', iso(7e9, 3e9)), ('iso', iso(-.3, 1.))]
    for e in (1e-8, 1e-5, 1e-2):
        for j in range(21):
            c = [float(x) for x in iso(1., 1.)]
            c[j] += e
            out.append(('near', c))
    rng = [((i * 0.754877666 + 0.1 * seed) % 1) - .5 for i in range(500)]
    for k in range(4 if tier == 'quick' else 20):
        A = np.array(rng[k * 20:k * 20 + 36]).reshape(6, 6)
        S = A.dot(A.T) * .6 + np.diag([3, 3, 3, 1, 1, 1.]) + np.array([[0, 1, 1, 0, 0, 0], [1, 0, 1, 0, 0, 0], [1, 1, 0, 0, 0, 0]] + [[0] * 6] * 3)
        out.append(('any', [float(S[i, j]) for i in range(6) for j in range(i, 6)]))
    vti = [19., 7., 6.5, 0, 0, 0, 19., 6.5, 0, 0, 0, 13., 0, 0, 0, 4., 0, 0, 4., 0, 6.]
    out.append(('vti', vti))
    return out


def stiffness(R, tier, seed):
    """isotropic approximation, norms, Voigt form, potency and bi-axes for every stiffness and a set of sources."""
    M = tensors('quick', seed)
    M = M[:, ::(53 if tier == 'quick' else 17)]
    for l, m in itertools.product((0., 1., -.3, 7.5, 3), (1., 0.2, 3e9, 2)):
        both(R, 'stiff|isotropic_c', lambda V: V.get(MC, 'isotropic_c')(l, m), data=dict(l=l, m=m))
    both(R, 'stiff|isotropic_c', lambda V: V.get(MC, 'isotropic_c')())
    for kind, c in stiff(tier, seed):
        d = dict(c=c)
        for f in ('c_norm', 'c21_cvoigt'):
            for cc in (c, np.array(c, float)):
                both(R, 'stiff|' + f, lambda V: V.get(MC, f)(cc), rel=1e-12, data=d)
        for cc in (c, np.array(c, float)):
            both(R, 'stiff|is_isotropic_c', lambda V: float(V.get(MC, 'is_isotropic_c')(cc)), data=d)
            both(R, 'stiff|isotropic_c', lambda V: V.get(MC, 'isotropic_c')(c=cc), rel=1e-12, data=d)
        for i in range(M.shape[1]):
            if kind == 'near' and i % 5:
                continue
            x = M[:, i]
            for lay, y in (('flat', x.copy()), ('column', x.reshape(6, 1).copy())):
                both(R, 'stiff|MT6c_D6', lambda V: np.asarray(V.get(MC, 'MT6c_D6')(y.copy(), c)).ravel(), rel=1e-8, ab=1e-12 if max(c) < 1e6 else 1e-20, data=dict(d, m=x, lay=lay))
                r = run2(R, 'stiff|MT6_biaxes', lambda V: V.get(MC, 'MT6_biaxes')(y.copy(), c), dict(d, m=x, lay=lay))
                if r:
                    biaxes_same(R, 'stiff|MT6_biaxes', r, dict(d, m=x, lay=lay, kind=kind))
        both(R, 'stiff|MT6c_D6', lambda V: np.asarray(V.get(MC, 'MT6c_D6')(M[:, :1].copy(), c)).ravel(), rel=1e-8, ab=1e-12, data=d)
        r = run2(R, 'stiff|MT6_biaxes', lambda V: V.get(MC, 'MT6_biaxes')(M[:, :4].copy(), c), d)
        if r and R.check([q.shape for q in r[0]] == [q.shape for q in r[1]], 'stiff|MT6_biaxes', 'shapes differ', d):
            for i in range(4):
                biaxes_same(R, 'stiff|MT6_biaxes', [[q[i] for q in z] for z in r], dict(d, m=M[:, i]))
    R.sample(d)


def biaxes_same(R, key, r, d):
    (pc, ec, ac), (pp, ep, ap) = [(np.asarray(z[0]).reshape(3, 2), float(np.asarray(z[1]).ravel()[0]), float(np.asarray(z[2]).ravel()[0])) for z in r]
    cs = max(abs(x) for x in d['c'])
    tol = 1e-6
    d = dict(d, compiled=[pc, ec, ac], python=[pp, ep, ap])
    R.check(abs(ec - ep) < tol, key, 'explosion values differ', d)
    R.check(abs(ac - ap) < tol / min(1., cs), key, 'area displacements differ', d)
    if ac * cs < 1e-4:
        return
    # the bi-axes: an unordered pair of undirected axes, scaled potency deviator = phi1 phi2 + phi2 phi1
    S = lambda q: np.outer(q[:, 0], q[:, 1]) + np.outer(q[:, 1], q[:, 0])
    R.check(np.abs(S(pc) - S(pp)).max() < 1e-4, key, 'bi-axes differ', d)


# ---- combined likelihood of a whole source --------------------------------------------------------------------------------------
NLOC_W = {1: (None, [2.], [1e-3]), 2: (None, [1.7, 0.3], [0., 2.], [504.7, 504.7]), 3: (None, [0.2, 504.7, 3.], [1., 0., 1.])}
WKINDS = ('zero', 'one', 'each', 'half')


def blocks(kinds, ns, nloc, o, sig, wk):
    """constructor arguments of the forward task (lists are copied by the caller): dictionary by name."""
    d = dict(a_polarity=False, error_polarity=False, a1_amplitude_ratio=False, a2_amplitude_ratio=False, amplitude_ratio=False, percentage_error1_amplitude_ratio=False,
             percentage_error2_amplitude_ratio=False, a_polarity_prob=False, polarity_prob=False, incorrect_polarity_prob=0)
    npol = 0
    if 'pol' in kinds:
        n = npol = ns[0]
        d['a_polarity'] = A3(n, nloc, o, BASE)
        d['error_polarity'] = np.array([sig, 0.4, 0.05, 1.][:n])
    if 'prob' in kinds:
        n = ns[1]
        npol = max(n, npol)
        d['a_polarity_prob'] = A3(n, nloc, o + 3, BASE)
        d['polarity_prob'] = (np.array([0.7, 1., 0.1, 0.][:n]), np.array([0.3, 0., 0.5, 1.][:n]))
        if sig == 0.:
            d['polarity_prob'] = (np.array([1., 1., 0., 0.][:n]), np.array([0., 0., 1., 1.][:n]))
    if 'ratio' in kinds:
        n = ns[2]
        d['a1_amplitude_ratio'], d['a2_amplitude_ratio'] = A3(n, nloc, o + 1, BASE), A3(n, nloc, o + 2, BASE)
        d['amplitude_ratio'] = np.array([0.3, 1.4, 0.8, 5.][:n])
        d['percentage_error1_amplitude_ratio'], d['percentage_error2_amplitude_ratio'] = np.array([0.05, 0.4, 1., 0.2][:n]), np.array([0.3, 0.02, 0.1, 2.][:n])
    d['incorrect_polarity_prob'] = {'zero': 0, 'one': np.array([0.13]), 'each': np.array([0., 0.3, 1., 0.5][:max(npol, 1)]), 'half': np.array([0.5])}[wk]
    return d


ARGS = ('a_polarity', 'error_polarity', 'a1_amplitude_ratio', 'a2_amplitude_ratio', 'amplitude_ratio', 'percentage_error1_amplitude_ratio',
        'percentage_error2_amplitude_ratio', 'a_polarity_prob', 'polarity_prob')


def cp(x):
    return x.copy() if isinstance(x, np.ndarray) else tuple(cp(i) for i in x) if isinstance(x, tuple) else list(x) if isinstance(x, list) else x


def task(V, mt, d, weights, rz, marg, **kw):
    F = V.get('MTfit.inversion', 'ForwardTask')
    return F(cp(mt), *[cp(d[k]) for k in ARGS], location_sample_multipliers=cp(weights) if weights is not None else False, incorrect_polarity_prob=cp(d['incorrect_polarity_prob']),
             return_zero=rz, marginalise=marg, **kw)


def settle(res):
    """the three results of a task; a one-dimensional log-density is a row."""
    ln = np.asarray(plain(res['ln_pdf']), float)
    m = np.asarray(res['moment_tensors'], float)
    if not m.size and (not ln.size or ln.shape[-1] == 0):
        m, ln = np.zeros((6, 0)), np.zeros((1, 0))
    return [m, np.atleast_2d(ln), np.asarray(float(res['n']))]


def forward(R, tier, seed):
    """every presence of the three data types x station numbers x location samples x weights x options, one task call in each variant."""
    kinds = [k for r in (1, 2, 3) for k in itertools.combinations(('pol', 'prob', 'ratio'), r)]
    nss = [(1, 1, 1), (2, 3, 1), (3, 2, 2)] if tier == 'quick' else [(a, b, c) for a in (1, 2, 4) for b in (1, 3) for c in (1, 2, 4)]
    zero = np.zeros((6, 1))
    count = 0
    for ks, ns, nloc in itertools.product(kinds, nss, (1, 2, 3)):
        for o, sig, wk in itertools.product((1, 2), (0.3, 0., 1e-3), WKINDS):
            if 'pol' not in ks and 'prob' not in ks and wk != 'zero':
                continue
            d = blocks(ks, ns, nloc, o, sig, wk)
            if wk == 'each' and 'pol' in ks and 'prob' in ks and ns[0] != ns[1]:
                continue
            for w, marg, rz in itertools.product(NLOC_W[nloc], (True, False), (True, False)):
                count += 1
                for which, mt in (('all', MTS), ('one', MTS[:, 4:5]), ('some', np.ascontiguousarray(MTS[:, ::2]))):
                    if which != 'all' and count % 3:
                        continue
                    data = dict(kinds=ks, ns=ns, nloc=nloc, o=o, sig=sig, mispick=wk, weights=w, marginalise=marg, return_zero=rz, mt=which)
                    both(R, 'forward', lambda V: settle(task(V, np.ascontiguousarray(mt), d, w, rz, marg)()), zero=-600, data=data)
                if count % 7 == 0:                     # the same task object again with new sources
                    def again(V):
                        t = task(V, np.ascontiguousarray(MTS), d, w, rz, marg, reuse=True)
                        a = settle(t())
                        t.mt = np.ascontiguousarray(MTS[:, 1:4])
                        return a + settle(t())
                    both(R, 'forward|again', again, zero=-600, data=data)
                if count % 5 == 0:
                    for lay, mt in layouts(MTS):
                        both(R, 'forward|layout', lambda V: settle(task(V, mt.copy(order='K'), d, w, rz, marg)()), rel=1e-9, zero=-600, data=dict(data, layout=lay))
    R.sample(data)


def generate(R, tier, seed):
    """sources drawn inside the compiled forward task: the log-densities reported for them are those the Python path gives them."""
    from mc import seam
    C, P = twins()
    kinds = [k for r in (1, 2, 3) for k in itertools.combinations(('pol', 'prob', 'ratio'), r)]
    seam.install()
    count = 0
    for ks, ns, nloc in itertools.product(kinds, [(1, 1, 1), (3, 2, 2)], (1, 2, 3)):
        for sig, wk in itertools.product((0.3, 0.), WKINDS):
            if 'pol' not in ks and 'prob' not in ks and wk != 'zero' or wk == 'each' and 'pol' in ks and 'prob' in ks and ns[0] != ns[1]:
                continue
            d = blocks(ks, ns, nloc, 1 + count % 3, sig, wk)
            for w, marg, dc in itertools.product(NLOC_W[nloc], (True, False), (True, False)):
                count += 1
                n = (1, 3, 20)[count % 3]
                data = dict(kinds=ks, ns=ns, nloc=nloc, sig=sig, mispick=wk, weights=w, marginalise=marg, dc=dc, number=n)
                seam.S.reset([((i + seed) * 0.6180339887498949 + 0.037 * count) % 1. for i in range(60)], limit=10 ** 7)
                with C:
                    R.state()
                    R.trans(2)
                    ok, r = R.call('generate', task(C, False, d, w, False, marg, generate_samples=n, cutoff=50 * n, dc=dc))
                if not ok:
                    continue
                mt, ln, m = settle(r)
                R.outcome('sources', mt.shape[1] if mt.ndim > 1 else 0)
                if mt.size == 0:
                    continue
                with P:
                    q = settle(task(P, np.ascontiguousarray(mt), d, w, True, marg)())
                e = differ(ln, q[1], 1e-9, 1e-12, -600)
                R.check(e is None, 'generate', e or '', dict(data, mt=mt, compiled=ln, python=q[1]))
                R.check(float(m) >= mt.shape[1], 'generate', 'fewer tried than returned', data)
    seam.uninstall()
    R.sample(data)


# ---- joint forward task of several events ---------------------------------------------------------------------------------------
def levelled(x):
    """nested results with the number arrays flattened."""
    if isinstance(x, dict):
        return {k: levelled(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [levelled(v) for v in x]
    if hasattr(x, '_ln_pdf'):
        return levelled(x._ln_pdf)
    x = np.asarray(x)
    if x.dtype == object:
        return [levelled(v) for v in x.ravel()]
    return x.astype(float).ravel()


def multi(R, tier, seed):
    """two and three events: per-event data combinations, shared amplitude stations, location samples, weights, options."""
    combos = [(('pol',), ('pol',)), (('pol', 'ratio'), ('prob',)), (('ratio',), ('pol', 'ratio')), (('prob', 'ratio'), ('ratio',)), (('pol',), ('prob',), ('ratio',)), (('pol', 'ratio'),) * 3]
    labels = [('A', 'B', 'C'), ('B', 'C', 'D'), ('C', 'A', 'D', 'B')]
    count = 0
    for ks, nloc, rel, mn in itertools.product(combos, (1, 2, 3), (False, True), (1, 2, 3)):
        if not rel and mn > 1:
            continue
        E = len(ks)
        for sig, wk in itertools.product((0.3, 0.), ('zero', 'one', 'each')):
            ds = [blocks(k, (2, 2, 2), nloc, 1 + e, sig, wk) for e, k in enumerate(ks)]
            for w, rz, margrel in itertools.product(NLOC_W[nloc], (True, False), (True, False) if rel else (False,)):
                count += 1
                if tier == 'quick' and count % 2 and sig == 0.3:
                    continue
                mts = [np.ascontiguousarray(np.roll(MTS[:, [0, 1, 2, 3, 4]] + 0.013 * e, e, axis=1)) for e in range(E)]
                data = dict(kinds=ks, nloc=nloc, relative=rel, minimum=mn, sig=sig, mispick=wk, weights=w, return_zero=rz, marginalise_relative=margrel)

                def run(V):
                    ra = [A3(len(labels[e]), nloc, 4 + e, BASE[:7]) for e in range(E)]
                    rz_ = [np.array([1., 0.4, 2.3, -.7][:len(labels[e])]) * (1 + e) for e in range(E)]
                    re = [np.array([.1, .3, .05, .6][:len(labels[e])]) for e in range(E)]
                    cols = [[cp(d[k]) for d in ds] for k in ARGS]
                    t = V.get('MTfit.inversion', 'MultipleEventsForwardTask')([m.copy() for m in mts], *(cols + [ra, rz_, re, [list(labels[e]) for e in range(E)], cp(w) if w is not None else False,
                                                                               [cp(d['incorrect_polarity_prob']) for d in ds]]), minimum_number_intersections=mn, return_zero=rz, reuse=False,
                                                                               relative=rel, location_sample_size=nloc, marginalise_relative=margrel, combine=True, extension_data=[])
                    res = t()
                    out = [plain(res['moment_tensors']) if isinstance(res['moment_tensors'], np.ndarray) else [plain(m) for m in res['moment_tensors']], np.atleast_2d(plain(res['ln_pdf'])), float(res['n'])]
                    for k in ('scale_factor', 'scale_factors'):
                        if k in res and not isinstance(res[k], bool):
                            f = res[k]
                            out.append(levelled(f))
                    out[2] = np.asarray(out[2])
                    return out
                both(R, 'multi', run, rel=1e-7, ab=1e-9, zero=-600, data=data)
    R.sample(data)


# ---- random sources ----------------------------------------------------------------------------------------------------------------
def rand(R, tier, seed):
    """push one net of draws through the two generators of each source type; the two samples must have the same distribution."""
    from mc import seam
    from checks import c08
    C, P = twins()
    m = 13 if tier == 'quick' else 16
    tol = 4e-3 if tier == 'quick' else 1.5e-3
    seam.install()
    for kind in ('mt', 'dc', 'clvd'):
        for n, column in ((1, 0), (3, 1)):
            got = []
            for V in (C, P):
                with V:
                    fn = c08.generator(kind, n, 'method')
                    base = c08.filler(64 * n)
                    nd = c08.draws(R, fn, base)
                    inf = [i for i, h in enumerate(c08.influence(R, fn, base, nd)[1]) if column in h]
                    R.check(0 < len(inf) <= 20, 'rand|draws', '%d draws decide one sample' % len(inf), dict(kind=kind, variant=V.name))
                    got.append(c08.push_forward(R, kind, fn, inf, base, column, m if n == 1 else m - 3))
            a, b = got
            t = tol if n == 1 else 6 * tol
            d = dict(kind=kind, n=n, draws=len(inf))
            for x in (a, b):
                R.check(np.all(np.isfinite(x)) and np.abs((x * x).sum(0) - 1).max() < 1e-12, 'rand|unit', 'not unit tensors', d)
            mono = c08.monomials(4)
            ma, mb = c08.moments(a, mono), c08.moments(b, mono)
            R.traces += len(mono)
            k = int(np.abs(ma - mb).argmax())
            R.check(abs(ma[k] - mb[k]) < t, 'rand|moments', 'mean of the product of components %s: %.5f compiled, %.5f python' % (mono[k], ma[k], mb[k]), d)
            for v in list(np.eye(6)) + [np.array([1, 1, 1, 0, 0, 0.]), np.array([1, -1, 0, 0, 0, 1.]), np.array([0, 0, 1, 1, -1, 0.])]:
                xa, xb = np.sort(v.dot(a)), np.sort(v.dot(b))
                g = np.linspace(-1.5, 1.5, 61) + 1e-3
                e = np.abs(np.searchsorted(xa, g) / len(xa) - np.searchsorted(xb, g) / len(xb)).max()
                R.check(e < 4 * t, 'rand|distribution', 'distribution function of component %s differs by %.4f' % (v, e), d)
            R.outcome(kind, len(inf))
    seam.uninstall()
    R.sample(d)


# ---- angle samples --------------------------------------------------------------------------------------------------------------
def scat(R, tier, seed):
    """reading and binning: every sequence of samples of one, two and three stations on an angle lattice; bin sizes; weights; station order."""
    import os
    from checks import c18
    C, P = twins()
    seqs = []
    A1 = [('0', '90'), ('2', '91.4'), ('2.5', '88'), ('5', '90')]
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for s in itertools.product(range(len(A1)), repeat=n):
            seqs.append([('S01',) + A1[i] for i in s])
    W = ['1', '0.5', '3e-4', '504.7', '0', '7']
    cases = []
    for s in seqs:
        cases.append([(W[(i * i + len(s)) % 4], [x]) for i, x in enumerate(s)])
        if len(s) < 4:
            cases.append([(W[(2 + i + len(s)) % 6], [x]) for i, x in enumerate(s)])
    # two stations, the second station's angle and the order of the stations vary, a station can be missing
    for s in itertools.product(range(3), range(3), (0, 1, 2), repeat=2 if tier == 'quick' else 3):
        bl = []
        for i in range(0, len(s), 3):
            r = [('S01',) + A1[s[i]], ('BB3',) + A1[s[i + 1]]]
            bl.append((W[(i + s[0]) % 4], r if s[i + 2] == 0 else r[::-1] if s[i + 2] == 1 else r[:1]))
        bl.append(('2.5', [('BB3',) + A1[s[0]], ('S01',) + A1[s[1]]]))
        cases.append(bl)
    for k, bl in enumerate(cases):
        f = c18.write(c18.text(bl))
        for b in (0, 1, 4., 5, 5.000001, 30, 400):
            if k % 2 and b in (5.000001, 30):
                continue
            R.sample(dict(blocks=bl, bin=b)) if k < 3 else None

            def run(V):
                r, w = V.get('MTfit.extensions.scatangle', 'parse_scatangle')(f, bin_size=b)
                return [[repr(c18.plain(x)) for x in r], np.asarray(w, float).ravel()]
            res = []
            for V in (C, P):
                with V:
                    ok, r = R.call('scat', run, V)
                    res.append(r if ok else None)
            R.state()
            R.trans(2)
            if None in res:
                continue
            R.check(res[0][0] == res[1][0], 'scat|records', 'kept records differ', dict(blocks=bl, bin=b, compiled=res[0], python=res[1]))
            R.check(res[0][1].shape == res[1][1].shape and np.allclose(res[0][1], res[1][1], rtol=1e-12, atol=0), 'scat|weights', 'weights differ', dict(blocks=bl, bin=b, compiled=res[0], python=res[1]))
            R.outcome('kept', len(res[0][0]))
        os.remove(f)


# ---- Markov-chain acceptance and proposals ---------------------------------------------------------------------------------------
def accept(R, tier, seed, cls, n):
    """The decision of one iteration of a multiple-try chain: same uniform draws, same move (Python tries one candidate per iteration)."""
    from mc import seam
    from checks import c05
    C, P = twins()
    seam.install()
    G, D = c05.mt_states('quick', seed), [c05.st(0., 0., h, s, k) for h, s, k in itertools.product((0., .05, .5, 1.), (-c05.PI / 2, -1.2, .3, c05.PI / 2), (0., 3.))]
    trans = cls == 'mtd'
    moves = []
    for i, a in enumerate(G):
        for j, b in enumerate(G):
            if i != j and (i * 7 + 3 * j) % (17 if tier == 'quick' else 3) == seed % 3:
                moves.append((a, b, 'mt', 'mt'))
    for i, a in enumerate(D):
        for j, b in enumerate(D):
            if i != j and (i + 3 * j) % (7 if tier == 'quick' else 2) == 0:
                moves.append((a, b, 'dc', 'dc'))
        if trans:
            for j, b in enumerate(G[i % 11::11 if tier == 'quick' else 3]):
                b = dict(b, h=a['h'], sigma=a['sigma'], kappa=a['kappa'])
                if b['gamma'] or b['delta']:
                    moves.append((a, b, 'dc', 'mt'))
                    moves.append((b, a, 'mt', 'dc'))
    combos = [(m,) for m in moves] if n == 1 else [(moves[i], moves[(i * 31 + 17) % len(moves)]) for i in range(len(moves))]
    if n == 2 and not trans:
        combos = [c for c in combos if c[0][2] == c[1][2]]
    grid = [1e-12, .04, .21, .47, .73, .96, 1 - 1e-12]
    cfgs = list(itertools.product(('uniform_prior', 'flat_prior'), c05.WIDTHS if tier == 'thorough' else c05.WIDTHS[::3], ((.5, (.2, .2)), (.2, (.7, .9))) if trans else ((.5, (.2, .2)),)))
    for ci, (prior, alpha, (dcp, jw)) in enumerate(cfgs):
        algs = []
        for V in (C, P):
            with V:
                alg = c05.build(cls, n=n, prior=prior, alpha=alpha if n == 1 else [alpha, c05.WIDTHS[1]], jw=jw, dcp=dcp)
                for al in (alg.alpha if n > 1 else [alg.alpha]):
                    if trans:
                        al['gamma_dc'], al['delta_dc'] = jw
                algs.append(alg)
        alphas = algs[1].alpha if n > 1 else [algs[1].alpha]
        alphas = [dict(a) for a in alphas]
        for k, mv in enumerate(combos):
            xi, x, mi, m = ([u[q] for u in mv] for q in range(4))
            if not all(c05.reachable(a, b, p, q, al) for a, b, p, q, al in zip(xi, x, mi, m, alphas)):
                continue
            if prior != 'flat_prior' and any(c05.gb(a, b) for a, b in zip(xi, x)):
                continue        # zero prior up to rounding
            LS = c05.LS[:4] + ([(0., -np.inf), (-5., np.inf)] if k % 7 == 0 else [])
            for li, (L, Lx) in enumerate(LS):
                if (li + k + ci) % 4 and tier == 'quick' and not np.isinf(Lx):
                    continue
                lna = c05.ref_ln_a(xi, x, mi, m, L, Lx, alphas, prior, [dcp] * n)
                if lna is None:
                    continue
                a = math.exp(lna)
                us = [u for u in grid if abs(u - a) > 1e-9]
                if 1e-290 < a < 1 - 1e-12:
                    us += [a * (1 - 1e-6), min(a * (1 + 1e-6), 1 - 2. ** -53)]
                    us = us if a * (1 + 1e-6) < 1 - 2. ** -53 else us[:-1]
                us = us[-2:] + us[k % 3::3]
                jumped = any(p != q for p, q in zip(mi, m))
                data = dict(cls=cls, prior=prior, alpha=alphas, dcp=dcp, xi=xi, x=x, models=(mi, m), L=L, Lx=Lx, a=a)
                for u in sorted(set(us)):
                    R.state()
                    R.trans(2)
                    got = []
                    for V, alg, batch in ((C, algs[0], True), (P, algs[1], False)):
                        with V:
                            ok, r = R.call('accept|' + cls, c05.decide, alg, xi, [x], mi, [m], L, [Lx], [u] * 4, n, batch, jumped)
                            got.append(r if ok else 'raised')
                    R.outcome(cls, got[0] == 0)
                    R.check(got[0] == got[1], 'accept|' + cls, 'draw %r: move made %r compiled, %r python' % (u, got[0], got[1]), dict(data, u=u))
        # a compiled batch of tries is the sequence of Python's single tries
        for k in range(0, len(combos), 23):
            first = combos[k]
            xi, mi = [u[0] for u in first], [u[2] for u in first]
            cands = [c for c in combos[k:] + combos[:k] if all(p[0] == q[0] and p[2] == q[2] for p, q in zip(c, first))][:3]
            if len(cands) < 2 or prior != 'flat_prior' and any(c05.gb(u[0], u[1]) for c in cands for u in c):
                continue
            if len(set(tuple(u[3] != u[2] for u in c) for c in cands)) > 1 or not all(c05.reachable(u[0], u[1], u[2], u[3], al) for c in cands for u, al in zip(c, alphas)):
                continue
            xs, ms = [[u[1] for u in c] for c in cands], [[u[3] for u in c] for c in cands]
            jumped = ms[0] != mi
            for L, ls in ((0., (-.7, .2, -1.5)), (-3., (-3.2, -np.inf, -2.))):
                for us in ((u,) * len(cands) for u in (.02, .14, .31, .52, .83, .99)):   # a try of zero probability draws nothing
                    R.state()
                    R.trans(2)
                    with C:
                        ok, a = R.call('accept-batch|' + cls, c05.decide, algs[0], xi, xs, mi, ms, L, list(ls[:len(xs)]), list(us) + [us[0]] * 4, n, True, jumped)
                    if not ok:
                        continue
                    b = None
                    for t in range(len(xs)):
                        with P:
                            ok, r = R.call('accept-batch|' + cls, c05.decide, algs[1], xi, [xs[t]], mi, [ms[t]], L, [ls[t]], [us[t]] * 4, n, False, jumped)
                        if r is not None:
                            b = t if r == 0 else r
                            break
                    R.outcome('batch', a)
                    R.check(a == b, 'accept-batch|' + cls, 'tries %s: compiled moves to %r, python to %r' % (us, a, b), dict(cls=cls, prior=prior, alpha=alphas, xi=xi, xs=xs, L=L, ls=ls, us=us))
    seam.uninstall()
    R.sample(dict(moves=len(moves), combos=len(combos)))


def two_sample(a, b):
    a, b = np.sort(a), np.sort(b)
    g = np.concatenate([a, b])
    return np.abs(np.searchsorted(a, g, 'right') / len(a) - np.searchsorted(b, g, 'right') / len(b)).max()


def propose(R, tier, seed, cls):
    """Push one net through the proposals of both variants: same distribution of every parameter, of pairs, of the tensors; same jump behaviour."""
    from mc import seam
    from checks import c06
    C, P = twins()
    M = 12 if tier == 'quick' else 14
    N = c06.net(90, M, seed)
    seam.install()
    trans = cls == 'mtd'
    st = c06.st
    mts = [st(.1, -.3, .4, .2, 2.2), st(c06.PI / 6, -c06.PI / 2, 0., c06.PI / 2, 0.), st(-.4, 1.2, .93, -1.3, 6.1)]
    dcs = [st(0., 0., .4, .2, 2.2), st(0., 0., 1., -c06.PI / 2, 6.2)]
    cases = []
    for w, alpha in enumerate(c06.WIDTHS):
        for i, x in enumerate(mts):
            if (w + i) % 2 == 0 or tier != 'quick':
                cases.append(('mt', alpha, [x], c06.JW[0], 1e-9))
        for i, x in enumerate(dcs):
            if (w + i) % 2 == 0 or tier != 'quick':
                cases.append(('dc', alpha, [x], c06.JW[0], 1e-9))
    cases.append(('mt', c06.WIDTHS[1], [mts[0], mts[2]], c06.JW[0], 1e-9))
    if trans:
        for jw in c06.JW:
            cases += [('dc', c06.WIDTHS[1], [dcs[0]], jw, 1.), ('mt', c06.WIDTHS[0], [mts[2]], jw, 1.), ('mt', c06.WIDTHS[0], [mts[0]], jw, .4), ('dc', c06.WIDTHS[0], [dcs[1]], jw, .4)]
        cases.append(('dc', c06.WIDTHS[1], dcs, c06.JW[1], 1.))
        cases.append(('dc', c06.WIDTHS[1], [dcs[0], mts[0]], c06.JW[1], .5))
    for kind, alpha, xi, jw, pj in cases:
        n = len(xi)
        al2 = [alpha, dict(alpha, h=alpha['h'] * .5, sigma=alpha['sigma'] * .7)][:n]
        dc = [u['gamma'] == 0 and u['delta'] == 0 for u in xi]
        data = dict(cls=cls, kind=kind, alpha=alpha, xi=xi, jw=jw, pj=pj)
        res = []
        for V in (C, P):
            rows, moments, bad = [[] for _ in xi], [], False
            with V:
                alg = c06.build(cls, n=n, alpha=al2 if n > 1 else alpha, dc=(all(dc) and not trans), jw=jw, pj=pj, rate=.4)
                for p in N:
                    c06.place(alg, xi, dc, n)
                    seam.S.reset(p, limit=20000)
                    R.state()
                    ok, mt = R.call('propose|' + cls, alg.new_sample)
                    if not ok:
                        bad = True
                        break
                    R.trans()
                    for x, v in c06.split(alg, mt, n)[:1]:
                        for e in range(n):
                            rows[e].append([c06.val(x[e], k) for k in c06.KEYS] + list(np.asarray(v[e], float)))
            res.append(None if bad else [np.array(r) for r in rows])
        if res[0] is None or res[1] is None:
            continue
        tol = .03 + 1.2 / math.sqrt(len(N))
        for e in range(n):
            c, p = res[0][e], res[1][e]
            # share of jumps
            fc, fp = [np.mean((r[:, 0] == 0) & (r[:, 1] == 0)) for r in (c, p)]
            R.outcome('dc share', round(fc, 2))
            R.check(abs(fc - fp) < tol, 'propose|jump|' + cls, 'double-couple share of the proposals of event %d: %.4f compiled, %.4f python' % (e, fc, fp), data)
            # a jump of a chain of several events is decided for all of them
            for j in range(c.shape[1]):
                R.traces += 1
                # a fixed value repeats up to rounding only
                d = two_sample(np.round(c[:, j], 9), np.round(p[:, j], 9))
                R.outcome('ks', round(d, 2))
                R.check(d < tol, 'propose|distribution|' + cls, 'component %d (of kappa.. and tensor) of event %d: distribution functions differ by %.4f' % (j, e, d), data)
            for j, k in itertools.combinations(range(5), 2):
                q = [np.column_stack([x[:, j], x[:, k]]) for x in (c, p)]
                gj, gk = (np.quantile(np.round(p[:, i], 9), np.arange(1, 8) / 8.) for i in (j, k))
                A = [((np.round(x[:, 0], 9)[:, None] <= gj).astype(float).T.dot((np.round(x[:, 1], 9)[:, None] <= gk).astype(float))) / len(x) for x in q]
                d = np.abs(A[0] - A[1]).max()
                R.check(d < tol, 'propose|pair|' + cls, 'joint distribution of components %d and %d of event %d differs by %.4f' % (j, k, e, d), data)
        if n == 2:
            both_dc = [np.mean([(r[0][i, 0] == 0 and r[0][i, 1] == 0) and (r[1][i, 0] == 0 and r[1][i, 1] == 0) for i in range(len(N))]) for r in res]
            R.check(abs(both_dc[0] - both_dc[1]) < tol, 'propose|jump|' + cls, 'share of proposals with both events double-couple: %.4f / %.4f' % tuple(both_dc), data)
    seam.uninstall()
    R.sample(dict(cases=len(cases), net=len(N)))


# ---- whole inversions -------------------------------------------------------------------------------------------------------------
def runs(R, tier, seed, part):
    """The same sources through a whole inversion with and without the compiled modules: same samples kept, same values, same output file."""
    import os
    import pickle
    import shutil
    from checks import c01, c15
    C, P = twins()
    pols = [(), ('PPolarity',), ('PPolarity', 'SHPolarity'), ('PPolarityProbability',), ('PPolarityProbability', 'PPolarity')]
    rats = [(), ('P/SHRMSAmplitudeRatio',), ('P/SVAmplitudeRatio', 'SH/SVQAmplitudeRatio')]
    locs = [None, [2.], [1.7, .3], [.2, 504.7, 3.]]
    count = 0
    cwd = os.path.join(os.environ['MC_WORK'], 'runs%d' % part)
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    rng = np.random.RandomState(11 + seed)
    pool = rng.normal(size=(6, 400))
    pool /= np.sqrt((pool ** 2).sum(0))
    from checks import geo
    dcpool = np.array([geo.tape6(0., 0., k, h, s) for k, h, s in zip(2 * math.pi * rng.rand(400), rng.rand(400), math.pi * (rng.rand(400) - .5))]).T
    for pol, rat in itertools.product(pols, rats):
        types = pol + rat
        if not types:
            continue
        for ipp, loc, dc, form, extra in itertools.product((0, 2) if pol else (0,), locs, (False, True), ('pickle', 'matlab', 'hyp'),
                                                            ({}, {'convert': True}, {'marginalise': False}, {'normalise': False}, {'relative': True}, {'bin_scatangle': True, 'bin_size': 5.}, {'return_zero': True})):
            if 'relative' in extra and form != 'pickle':
                continue
            if ('marginalise' in extra or 'bin_scatangle' in extra) and not loc or 'marginalise' in extra and form != 'pickle':
                continue
            if 'PPolarity' in pol and 'PPolarityProbability' in pol and ipp:
                continue
            count += 1
            if count % 4 != part or tier == 'quick' and (count // 4) % 2 != seed % 2:
                continue
            names = ['S%d' % i for i in range(1, 10)]
            nev = 2 if 'relative' in extra else 1
            kw = dict(algorithm='iterate', parallel=False, output_format=form, phy_mem=1, dc=dc, convert=False, max_samples=60, number_samples=20, fid='o')
            kw.update(extra)
            if nev == 2:
                kw['multiple_events'] = True
                kw['relative_amplitude'] = kw.pop('relative')
            if loc:
                p = [tuple(range(9)), tuple(range(9))[::-1], (3, 1, 4, 0, 5, 8, 2, 6, 7)]
                c01.write_location('l.scatangle', names, p[:len(loc)], loc)
                kw['location_pdf_file_path'] = [os.path.abspath('l.scatangle')] * nev
            data = dict(types=types, mispick=ipp, weights=loc, dc=dc, format=form, options=extra)
            res = []
            for V in (C, P):
                R.state()
                R.trans()
                with V:
                    at = [0]
                    src = dcpool if dc else pool

                    def take(self, *a):
                        k = at[0]
                        at[0] += 20
                        return src[:, [(k + i) % 400 for i in range(20)]].copy()
                    base = V.get('MTfit.algorithms.base', 'BaseAlgorithm')
                    ev = [c01.event(types, (0, 1, 2, 3), ipp) for _ in range(nev)]
                    for e, d in enumerate(ev):
                        d['UID'] = 'ev%d' % e
                        if nev > 1:
                            d.update(c15.amplitude_event(('PAmplitude', 'PRMSAmplitude'), [('S1', 'S2', 'S3', 'S4')[e:], ('S2', 'S3')], e), UID='ev%d' % e)
                    out = os.path.join(cwd, V.name)
                    shutil.rmtree(out, ignore_errors=True)
                    os.makedirs(out)
                    kw['path'] = out
                    bmod = V.get('MTfit.algorithms.base')
                    old = bmod._6sphere_random_mt, base.random_dc

                    def take_mt(self):
                        return take(self)
                    take_mt.__name__ = '_6sphere_random_mt'

                    def go():
                        try:
                            bmod._6sphere_random_mt, base.random_dc = take_mt, take
                            inv = c01.quiet(V.get('MTfit.inversion', 'Inversion'), ev if nev > 1 else ev[0], **kw)
                            c01.quiet(inv.forward)
                        finally:
                            bmod._6sphere_random_mt, base.random_dc = old
                        inner = inv.algorithm.pdf_sample.output(kw.get('normalise', True)) if hasattr(inv.algorithm, 'pdf_sample') else None
                        files = {}
                        for f in sorted(os.listdir(out)):
                            if f.endswith('.out'):
                                with open(os.path.join(out, f), 'rb') as fh:
                                    files[f] = pickle.load(fh)
                            elif f.endswith('.mat'):
                                import scipy.io
                                files[f] = {k: v for k, v in scipy.io.loadmat(os.path.join(out, f), squeeze_me=True, struct_as_record=True).items() if not k.startswith('__')}
                            else:
                                with open(os.path.join(out, f), 'rb') as fh:
                                    files[f] = fh.read()
                        return inner, files
                    try:
                        res.append((True, go()))
                    except Exception as ex:
                        res.append((False, ex))
            (okc, c), (okp, p) = res
            if okc != okp:
                R.check(False, 'runs', 'raises only %s: %r' % ('in Python' if okc else 'compiled', p if okc else c), data)
                continue
            if not okc:
                R.outcome('refused', '%s %s' % (type(c).__name__, sorted(extra)))
                continue
            R.outcome('files', tuple(sorted(os.path.splitext(f)[1] for f in c[1])))
            e = compare_tree(c[0], p[0], 'samples') or compare_tree(c[1], p[1], 'file')
            R.traces += 1
            R.check(e is None, 'runs', e or '', data)
    os.chdir('/')
    R.sample(data)


SKIP = ('Elapsed', 'elapsed', 'time', 'Time', 'path')


def compare_tree(a, b, path, rel=1e-6):
    """nested outputs; numbers up to rounding."""
    if hasattr(a, '_ln_pdf') and hasattr(b, '_ln_pdf'):
        return compare_tree(a._ln_pdf, b._ln_pdf, path, rel)
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return '%s: keys %s and %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            e = compare_tree(a[k], b[k], '%s[%r]' % (path, k), rel)
            if e:
                return e
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: lengths %d and %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            e = compare_tree(x, y, '%s[%d]' % (path, i), rel)
            if e:
                return e
        return None
    if isinstance(a, str) and isinstance(b, str):
        a, b = a.encode(), b.encode()
    if isinstance(a, bytes) and isinstance(b, bytes):
        if a == b:
            return None
        try:
            ta, tb = (q.decode().replace('[', ' ').replace(']', ' ').split() for q in (a, b))
        except UnicodeDecodeError:
            n = len(a) // 8
            x, y = (np.frombuffer(q[:8 * n], float) for q in (a, b))
            return None if len(a) == len(b) and close(x, y, rel, 1e-9).mean() > .98 else '%s: binary output differs' % path
        if len(ta) != len(tb):
            return '%s: %d and %d words' % (path, len(ta), len(tb))
        for x, y in zip(ta, tb):
            if x != y:
                try:
                    if not close(float(x), float(y), 1e-5, 1e-6):
                        return '%s: %s and %s' % (path, x, y)
                except ValueError:
                    return '%s: %s and %s' % (path, x, y)
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a == b else '%s: %r and %r' % (path, a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype.names:
        return compare_tree({n: x[n] for n in x.dtype.names}, {n: y[n] for n in y.dtype.names}, path, rel) if y.dtype.names else '%s: structure' % path
    if x.dtype == object:
        return compare_tree(list(x.ravel()), list(y.ravel()), path, rel)
    x, y = np.squeeze(x), np.squeeze(y)         # row, column or flat: the same values
    if x.shape != y.shape:
        return '%s: shapes %s and %s' % (path, x.shape, y.shape)
    if x.dtype.kind in 'SUb':
        return None if np.all(x == y) else '%s: %r and %r' % (path, a, b)
    ok = close(x, y, rel, 1e-9, -600 if 'ln' in path else None)
    if not np.all(ok):
        i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        return '%s%s: %r compiled, %r python' % (path, list(i), np.atleast_1d(x)[i], np.atleast_1d(y)[i])
    return None
