"""C04 - log-domain marginalisation and normalisation are exact and stable."""
import itertools
import math
from fractions import Fraction
import numpy as np

NINF = -np.inf
ASSUMPTIONS = ['inputs are two-dimensional (location samples x sources) or one-dimensional (normalisation); a sum in which '
               'every term is zero is excluded from normalisation (it has no normalised form)',
               'magnitudes up to 1e300']

VALS = [NINF, -1e300, -1e5, -800., -37.5, -1., 0., 0.5, 3., 690., 1e4, 1e300]
SMALL = [NINF, -1e4, -750., -1., 0., 2., 800.]
CS = [-1e5, -3., 0.25, 1e5]


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out += [dict(name='marg-' + mode, mode=mode, fn='marg', kw=dict(mode=mode, tier=tier), cost=3),
                dict(name='norm-' + mode, mode=mode, fn='norm', kw=dict(mode=mode, tier=tier), cost=2),
                dict(name='obj-' + mode, mode=mode, fn='obj', kw=dict(mode=mode, tier=tier)),
                dict(name='volume-' + mode, mode=mode, fn='volume', kw=dict(mode=mode, tier=tier))]
    return out


def lse(v):
    """reference log-sum-exp of a list of floats (compensated)."""
    m = max(v) if len(v) else NINF
    if m == NINF:
        return NINF
    return m + math.log(math.fsum(math.exp(max(x - m, -1e4)) if x - m > -1e4 else 0. for x in v))


def close(g, w):
    if w == NINF:
        return g == NINF
    return g == w or (np.isfinite(g) and abs(g - w) <= 2e-12 * max(1., abs(w)))


def marg(R, mode, tier):
    from MTfit.probability import ln_marginalise, LnPDF
    mats = []
    for v in itertools.product(VALS, repeat=2):
        mats.append(np.array(v).reshape(2, 1))
        mats.append(np.array(v).reshape(1, 2))
    for v in itertools.product(VALS, repeat=3):
        mats.append(np.array(v).reshape(3, 1))
    for v in itertools.product(SMALL, repeat=4):          # columns of different magnitude in one matrix
        mats.append(np.array(v).reshape(2, 2))
    if tier == 'thorough':
        for v in itertools.product(SMALL[:1] + SMALL[1:6:2] + [800.], repeat=6):
            mats.append(np.array(v).reshape(3, 2))
            mats.append(np.array(v).reshape(2, 3))
        for v in itertools.product([NINF, -800., 0., 800.], repeat=6):
            mats.append(np.array(v).reshape(2, 3))
    else:
        for v in itertools.product([NINF, -800., 0., 800.], repeat=6):
            mats.append(np.array(v).reshape(3, 2))
    for M in mats:
        R.state()
        for axis in (0, 1):
            if M.shape[axis] == 1 and mode == 'py' and M.size > 4:
                continue
            want = [lse(list(r)) for r in (M.T if axis == 0 else M)]
            for kind in ('array', 'matrix', 'LnPDF'):
                if kind != 'array' and M.size > 4:
                    continue
                X = M.copy() if kind == 'array' else (np.matrix(M) if kind == 'matrix' else LnPDF(M))
                for dV in ((1., 0.5) if M.size <= 2 else (1.,)):
                    before = np.array(X._ln_pdf if kind == 'LnPDF' else X)
                    ok, got = R.call('marg', ln_marginalise, X, axis, dV)
                    if not ok:
                        continue
                    got = np.asarray(got, float).flatten()
                    exp = [w + math.log(dV) if w > NINF else w for w in want]
                    R.check(got.size == len(exp) and all(close(g, w) for g, w in zip(got, exp)), 'marg:value:%s' % mode,
                            'marginal is not the log of the sum of exponentials', dict(M=M, axis=axis, kind=kind, dV=dV, got=got, want=exp))
                    after = np.array(X._ln_pdf if kind == 'LnPDF' else X)
                    R.check(np.array_equal(before, after), 'marg:mutates', 'input modified', dict(M=M, axis=axis, kind=kind))
                    R.outcome('r', tuple(np.round(got, 6)))
            # commutes with adding a constant
            for c in CS if M.size <= 2 else CS[:2]:
                if np.max(np.abs(M[np.isfinite(M)]), initial=0) > 1e6:
                    continue
                ok, got = R.call('marg', ln_marginalise, M + c, axis)
                if ok:
                    g = np.asarray(got, float).flatten()
                    R.check(all(close(a, w + c) or abs(a - w - c) < 1e-9 for a, w in zip(g, want)), 'marg:shift:%s' % mode,
                            'does not commute with adding a constant', dict(M=M, c=c, axis=axis, got=g, want=want))
    R.sample(dict(M=M, want=want))


def check_norm(R, mode, X, ref, dV, call, tag):
    ok, got = R.call('norm', call)
    if not ok:
        return None
    g = np.asarray(getattr(got, '_ln_pdf', got), float).flatten()
    m = max(ref)
    tot = math.log(math.fsum(math.exp(x - m) if x - m > -1e4 else 0. for x in ref)) + math.log(dV)
    want = [(x - m) - tot if x > NINF else NINF for x in ref]
    good = g.size == len(want)
    if good:
        for a, w in zip(g, want):
            if w == NINF:
                good &= a == NINF
            elif w < -1e250:
                good &= a == NINF or a < -1e250
            else:
                good &= bool(np.isfinite(a)) and abs(a - w) <= 1e-10 * max(1., abs(w))
    R.check(good, 'norm:value:%s:%s' % (tag, mode), 'normalised log-values wrong', dict(X=ref, dV=dV, got=g, want=want, tag=tag))
    if g.size == len(want):
        s = math.fsum(math.exp(min(x, 700.)) for x in g if x > NINF and x == x) * dV
        R.check(abs(s - 1) < 1e-9, 'norm:sum:%s:%s' % (tag, mode), 'exponentials times dV sum to %r' % s, dict(X=ref, dV=dV, got=g))
        R.check(not np.isnan(g).any() and not (g == np.inf).any(), 'norm:finite:' + mode, 'NaN or +inf', dict(X=ref, dV=dV, got=g))
        R.outcome('r', tuple(np.round(g, 6)))
    return g


def norm(R, mode, tier):
    from MTfit.probability import ln_normalise
    vecs = [v for n in (1, 2, 3) for v in itertools.product(VALS, repeat=n)]
    vecs += list(itertools.product(SMALL, repeat=4))
    if tier == 'thorough':
        vecs += list(itertools.product(SMALL, repeat=5))
    for v in vecs:
        if max(v) == NINF:
            continue
        R.state()
        for dV in ((1., 0.01, 40.) if len(v) <= 3 else (0.5,)):
            for kind in ('1d', 'row', 'mrow', 'int') if len(v) <= 3 else ('1d', 'row'):
                X = np.array(v, float)
                if kind == 'row':
                    X = X.reshape(1, -1)
                elif kind == 'mrow':
                    X = np.matrix(X)
                elif kind == 'int':
                    if not all(np.isfinite(x) and x == int(x) and abs(x) < 1e6 for x in v):
                        continue
                    X = np.array(v).astype(int)
                b = np.array(X)
                g = check_norm(R, mode, X, v, dV, lambda: ln_normalise(X, dV), kind)
                R.check(np.array_equal(b, np.array(X)), 'norm:mutates:' + mode, 'input modified', dict(v=v, kind=kind, dV=dV))
        if max(abs(x) for x in v if x > NINF) < 2e4:
            for c in CS[:2] if len(v) > 2 else CS:
                check_norm(R, mode, None, v, 1., lambda: ln_normalise(np.array(v) + c, 1.), 'shift')
    # several rows: the whole array is normalised
    for v in itertools.product(SMALL, repeat=4):
        if max(v) == NINF:
            continue
        M = np.array(v).reshape(2, 2)
        for dV in (1., 0.5):
            check_norm(R, mode, M, v, dV, lambda: ln_normalise(M.copy(), dV), '2x2')
    R.sample(dict(v=v, dV=dV))


def volume(R, mode, tier):
    """Volume elements given to the functions and to the object, default values, and objects made from probabilities."""
    from MTfit.probability import LnPDF, ln_normalise, ln_marginalise
    alph = [NINF, -750., 0., 2.5, 800.]
    shapes = ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)) + (((2, 3),) if tier == 'thorough' else ())
    for shape in shapes:
        for v in itertools.product(alph, repeat=shape[0] * shape[1]):
            if max(v) == NINF:
                continue
            M = np.array(v).reshape(shape)
            cols, rows = [lse(list(c)) for c in M.T], [lse(list(c)) for c in M]
            R.state()
            for dV in (1., 0.25, 8., 2):
                for axis, want in ((0, cols), (1, rows)):
                    for kind, X in (('array', M.copy()), ('matrix', np.matrix(M)), ('object', LnPDF(M.copy()))):
                        if kind == 'object' and axis == 1 and dV != 2:
                            continue
                        fs = [lambda: ln_marginalise(X, axis, dV), lambda: ln_marginalise(X, axis=axis, dV=dV)] + \
                            ([lambda: X.marginalise(axis, dV), lambda: X.marginalise(axis=axis, dV=dV)] if kind == 'object' else [])
                        for f in fs:
                            ok, got = R.call('volume', f)
                            if ok:
                                g = np.asarray(getattr(got, '_ln_pdf', got), float).flatten()
                                w = [x + math.log(dV) if x > NINF else NINF for x in want]
                                R.check(g.size == len(w) and all(close(a, b) for a, b in zip(g, w)), 'volume:marginalise:' + mode,
                                        'marginal values with a volume element wrong', dict(M=M, dV=dV, axis=axis, kind=kind, got=g, want=w))
                if shape[0] == 1:
                    check_norm(R, mode, None, v, dV, lambda: LnPDF(M.copy()).normalise(dV), 'obj:normalise(dV)')
                    check_norm(R, mode, None, v, dV, lambda: LnPDF(M.copy(), dV=3.).normalise(dV=dV), 'obj:normalise(dV=)')
                    check_norm(R, mode, None, v, dV, lambda: LnPDF(M.copy(), dV=dV).normalise(), 'obj:dV')
                    x = LnPDF(M.copy(), dV=3.)
                    ok, _ = R.call('volume', x.normalise, dV)
                    check_norm(R, mode, None, v, dV, lambda: x.normalise(), 'obj:dV-kept')
            if shape[0] == 1:
                check_norm(R, mode, None, v, 1., lambda: ln_normalise(M.flatten()), 'default')
                check_norm(R, mode, None, v, 1., lambda: ln_normalise(M.copy()), 'default-row')
                for none in (False, None, 0):
                    check_norm(R, mode, None, v, 1., lambda: LnPDF(M.copy(), dV=none).normalise(), 'obj:no-dV')
                check_norm(R, mode, None, v, 1., lambda: LnPDF(M.copy()).normalise(), 'obj:default')
                check_norm(R, mode, None, v, 1., lambda: LnPDF(list(v)).normalise(), 'obj:list')
            # objects made from probabilities
            if max(v) < 700:
                P = np.exp(M)
                logs = [math.log(x) if x > 0 else NINF for x in P.flatten()]
                L = np.array(logs).reshape(shape)
                for form, X in (('array', P.copy()), ('matrix', np.matrix(P)), ('list', P.tolist())):
                    ok, y = R.call('volume', lambda: LnPDF(pdf=X))
                    if not ok:
                        continue
                    g = np.asarray(y._ln_pdf, float)
                    R.check(g.shape == shape and all(close(a, b) for a, b in zip(g.flatten(), logs)), 'volume:from-pdf:' + mode,
                            'log-values of an object made from probabilities wrong', dict(P=P, form=form, got=g))
                    ok, e = R.call('volume', y.exp)
                    if ok:
                        R.check(np.allclose(np.asarray(e, float).reshape(shape), P, rtol=1e-12, atol=0), 'volume:exp:' + mode, 'exponentials differ from the probabilities',
                                dict(P=P, form=form, got=e))
                    if max(logs) > NINF:
                        check_norm(R, mode, None, [lse(list(c)) for c in L.T], 1., y.output, 'obj:pdf-output')
    R.sample(dict(M=M))


def obj(R, mode, tier):
    """the same through LnPDF objects: all chains marginalise/normalise/output of length <=3; object left unchanged."""
    from MTfit.probability import LnPDF
    alph = [NINF, -750., 0., 5., 800.]
    for shape in ((1, 2), (2, 1), (2, 2), (1, 3)):
        for v in itertools.product(alph, repeat=shape[0] * shape[1]):
            if max(v) == NINF:
                continue
            M = np.array(v).reshape(shape)
            cols = [lse(list(c)) for c in M.T]
            R.state()
            for dV in (1., 0.5):
                x = LnPDF(M.copy(), dV=dV)
                # marginalising over the location samples with a volume element only shifts the result; the
                # normalised output must not depend on it
                for path in ('output', 'marg.norm', 'norm.marg.norm', 'marg.marg.norm', 'norm.output'):
                    if shape[1] == 1 and path.startswith('norm'):
                        continue     # a normalised single column is returned one-dimensional: no location axis left
                    def go():
                        y = x
                        for s in path.split('.'):
                            y = {'output': lambda q: q.output(), 'marg': lambda q: q.marginalise(),
                                 'norm': lambda q: q.normalise()}[s](y)
                        return y
                    check_norm(R, mode, None, cols, dV, go, 'obj:' + path)
                    R.check(np.array_equal(np.asarray(x._ln_pdf), M) and x.dV == dV, 'obj:mutates:' + mode,
                            'LnPDF modified by %s' % path, dict(M=M, dV=dV, after=x._ln_pdf))
                ok, nz = R.call('obj', x.nonzero)
                if ok:
                    R.check(list(np.asarray(nz).flatten()) == [i for i, c in enumerate(cols) if c > NINF], 'obj:nonzero:' + mode,
                            'non-zero columns wrong', dict(M=M, got=nz))
                ok, m = R.call('obj', x.marginalise)
                if ok:
                    m2 = LnPDF(m, dV=dV)
                    a, b = m, m2.marginalise() if dV == 1. else None
                    keep = np.array(np.asarray(a._ln_pdf))
                    R.call('obj', m.normalise)
                    R.check(np.array_equal(keep, np.asarray(m._ln_pdf)), 'obj:mutates2:' + mode,
                            'normalise() changed the marginalised PDF it was called on', dict(M=M, before=keep, after=m._ln_pdf))
    R.sample(dict(M=M, cols=cols))
