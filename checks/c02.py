"""C02 - polarity likelihoods are valid two-outcome probability models."""
import itertools
import numpy as np
from mc import oracle as O

ASSUMPTIONS = ['with zero uncertainty a modelled amplitude is either exactly zero or larger than 1e-20 in magnitude',
               'tail probabilities below 4e-16 may be rounded to zero (cancellation of 1+erf in binary64)']

AMPS = [0.0, 5e-324, 1e-300, 1e-24, 1e-12, 1e-3, 0.03, 0.1, 0.5, 1.0, 1.7, 30.0, 1e10]
SIG = [0.0, 1e-24, 1e-8, 1e-3, 0.05, 0.3, 1.0, 7.0, 1e6]
WS = [0.0, 1e-6, 0.01, 0.2, 0.49, 0.5, 0.8, 1.0]
PTOL = 4e-16


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out += [dict(name='grid-' + mode, mode=mode, fn='grid', kw=dict(mode=mode)),
                dict(name='prob-' + mode, mode=mode, fn='prob', kw=dict(mode=mode)),
                dict(name='shapes-' + mode, mode=mode, fn='shapes', kw=dict(mode=mode, tier=tier), cost=3),
                dict(name='task-' + mode, mode=mode, fn='task', kw=dict(mode=mode, tier=tier), cost=3)]
    return out


def _e1(vals):
    """coefficients/tensor with exact modelled amplitudes: a=[v,0..], mt=e1."""
    a = np.zeros((len(vals), 1, 6))
    a[:, 0, 0] = vals
    return a


def _uses(mode):
    return (None, True, False) if mode == 'c' else (None,)


def grid(R, mode):
    """every (y, A, s, w): each point alone, and all uncertainties of one w together (two-station products)."""
    from MTfit.probability import polarity_ln_pdf
    # amplitude varied through the tensor: a = e1 (or -e1 for negative polarity)
    allvals = [-x for x in reversed(AMPS)] + AMPS
    bigvals = [v for v in allvals if v == 0 or abs(v) > 1e-20]   # s=0: amplitudes are either exactly nodal or not tiny
    allmt, bigmt = np.zeros((6, len(allvals))), np.zeros((6, len(bigvals)))
    allmt[0], bigmt[0] = allvals, bigvals
    for use in _uses(mode):
        for wkind in ('float', 'array'):
            for s, w in itertools.product(SIG, WS):
                vals, mtv = (allvals, allmt) if s > 0 else (bigvals, bigmt)
                p = {}
                for y in (1., -1.):
                    for nst in (1, 2):
                        a = np.zeros((nst, 1, 6))
                        a[:, 0, 0] = y
                        sig = np.array([s] * nst)
                        ww = w if wkind == 'float' else np.array([w] * nst)
                        ok, got = R.call('grid', polarity_ln_pdf, a, mtv.copy(), sig, ww, _use_c=use)
                        R.state(len(vals))
                        if not ok:
                            continue
                        got = np.asarray(got).flatten()
                        if got.size != len(vals):
                            R.fail('grid:shape', 'wrong output shape', [got.size])
                            continue
                        want = nst * O.pol_ln(y * np.array(vals), s, w)
                        good = O.ln_close(got, want, 1e-9, 2 * PTOL)
                        R.trace(len(vals))
                        for i in np.where(~good)[0]:
                            R.fail('grid:value:%s' % mode, 'log-likelihood %r, expected %r' % (got[i], want[i]),
                                   dict(y=y, A=vals[i], s=s, w=w, stations=nst, use_c=use, wkind=wkind))
                        if nst == 1:
                            p[y] = np.exp(got)
                        imp = np.isneginf(want)
                        R.check(np.all(np.isneginf(got[imp])), 'grid:impossible', 'impossible source has non-zero probability',
                                dict(y=y, s=s, w=w, use_c=use))
                if len(p) == 2:
                    R.check(np.all(np.abs(p[1.] + p[-1.] - 1) < 1e-12), 'grid:complement',
                            'the two polarities do not sum to one', dict(s=s, w=w, use_c=use, p=p))
                    R.check(np.all((p[1.] >= 0) & (p[1.] <= 1 + 1e-15)), 'grid:range', 'probability outside [0,1]',
                            dict(s=s, w=w, p=p))
                    if w < 0.5:
                        R.check(np.all(np.diff(p[1.]) >= -1e-15), 'grid:monotone', 'not non-decreasing in yA',
                                dict(s=s, w=w, p=p[1.]))
                    R.outcome('p', tuple(np.round(p[1.], 12)))
    R.sample(dict(vals=vals, last=got))


PN = [(0., 0.), (1., 0.), (0., 1.), (0.5, 0.5), (0.9, 0.1), (0.3, 0.7), (0.6, 0.2), (1e-12, 1 - 1e-12), (0.2, 0.)]


def prob(R, mode):
    from MTfit.probability import polarity_probability_ln_pdf
    vals = [-x for x in reversed(AMPS)] + AMPS
    mtv = np.zeros((6, len(vals)))
    mtv[0] = vals
    for use in _uses(mode):
        for (p, n), w, wkind, nst in itertools.product(PN, WS, ('float', 'array'), (1, 2)):
            a = np.zeros((nst, 1, 6))
            a[:, 0, 0] = 1.
            ww = w if wkind == 'float' else np.array([w] * nst)
            ok, got = R.call('prob', polarity_probability_ln_pdf, a, mtv.copy(), np.array([p] * nst), np.array([n] * nst),
                             ww, _use_c=use)
            R.state(len(vals))
            if not ok:
                continue
            got = np.asarray(got).flatten()
            if got.size != len(vals):
                R.fail('prob:shape', 'wrong output shape', [got.size])
                continue
            want = nst * O.polprob_ln(np.array(vals), p, n, w)
            R.trace(len(vals))
            for i in np.where(~O.ln_close(got, want, 1e-9, 4e-16))[0]:
                R.fail('prob:value:%s' % mode, 'log-likelihood %r, expected %r' % (got[i], want[i]),
                       dict(A=vals[i], p=p, n=n, w=w, stations=nst, use_c=use))
            R.outcome('v', tuple(np.round(got, 9)))
    R.sample(dict(p=p, n=n, w=w, got=got))


def _coeffs(nst, nloc):
    """deterministic coefficients incl. exact nodal ones."""
    base = [0., 1., -1., 0.3, -0.02, 2.]
    a = np.zeros((nst, nloc, 6))
    for i in range(nst):
        for j in range(nloc):
            for k in range(6):
                a[i, j, k] = base[(3 * i + 5 * j + 2 * k + i * k + (j + 1) * (k % 2)) % 6]
    return a


MTS = np.array([[1., 0, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0], [.5, -.5, 0, .5, .5, 0], [0, .6, -.8, 0, 0, 0],
                [-.1, .2, .3, -.4, .5, np.sqrt(1 - .55)], [1 / np.sqrt(3)] * 3 + [0, 0, 0], [0, 0, 0, 0, -1., 0]]).T


def shapes(R, mode, tier):
    """all shapes (stations 1..3, location samples 1..3, sources 1..7) with all assignments of uncertainty and
    mispick probability per station from a small alphabet."""
    from MTfit.probability import polarity_ln_pdf, polarity_probability_ln_pdf
    salph = (0., 0.05, 0.6)
    walph = (0., 0.2)
    for use in _uses(mode):
        for nst, nloc, nmt in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 6, 7)):
            a = _coeffs(nst, nloc)
            mt = np.ascontiguousarray(MTS[:, :nmt])
            for sig in itertools.product(salph, repeat=nst):
                wset = [0., 0.1] + [np.array(x) for x in itertools.product(walph, repeat=nst)]
                for w in wset:
                    ok, got = R.call('shapes', polarity_ln_pdf, a.copy(), mt.copy(), np.array(sig), w if np.ndim(w) == 0 else w.copy(), _use_c=use)
                    R.state(1)
                    if not ok:
                        continue
                    want = O.pol_ln(O.amplitudes(a, mt), O.b3(sig), O.b3(w)).sum(0)
                    got = np.asarray(got)
                    if got.shape != want.shape:
                        R.fail('shapes:shape', 'shape %r expected %r' % (got.shape, want.shape), dict(nst=nst, nloc=nloc, nmt=nmt))
                        continue
                    R.check(np.all(O.ln_close(got, want, 1e-9, 4e-16)), 'shapes:pol:%s' % mode, 'polarity product wrong',
                            dict(nst=nst, nloc=nloc, nmt=nmt, sig=sig, w=w, use_c=use, got=got, want=want))
                    # prob version with the same alphabet
                    p = np.array([[0.7, 1., 0.2][int(salph.index(s))] for s in sig])
                    n = np.array([[0.3, 0., 0.5][int(salph.index(s))] for s in sig])
                    ok, got = R.call('shapes', polarity_probability_ln_pdf, a.copy(), mt.copy(), p.copy(), n.copy(), w if np.ndim(w) == 0 else w.copy(), _use_c=use)
                    if ok:
                        want = O.polprob_ln(O.amplitudes(a, mt), O.b3(p), O.b3(n), O.b3(w)).sum(0)
                        got = np.asarray(got)
                        R.check(got.shape == want.shape and np.all(O.ln_close(got, want, 1e-9, 4e-16)), 'shapes:prob:%s' % mode,
                                'polarity-probability product wrong',
                                dict(nst=nst, nloc=nloc, nmt=nmt, p=p, n=n, w=w, use_c=use, got=got, want=want))


def task(R, mode, tier):
    """the same likelihood as used by the inversion: ForwardTask on polarity-type data only (combined C loops included),
    with every pair (number of polarity stations, number of polarity-probability stations)."""
    from MTfit.inversion import ForwardTask
    salph = (0., 0.05, 0.6)
    for npol, nprob, nloc in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (1, 2)):
        if npol + nprob == 0:
            continue
        mt = np.ascontiguousarray(MTS)
        walph = [np.array([0.]), np.array([0.1])]
        if npol and nprob and npol != nprob:
            pass
        elif max(npol, nprob) > 1:
            walph += [np.array([0.0, 0.2, 0.4][:max(npol, nprob)])]
        for w in walph:
            for sig in itertools.product(salph, repeat=npol):
                a = _coeffs(npol, nloc) if npol else False
                ap = _coeffs(nprob + 1, nloc)[1:] if nprob else False
                p = np.array([0.7, 1., 0.2][:nprob])
                n = np.array([0.3, 0., 0.5][:nprob])
                for mult in ([], [1.] * nloc):
                    for rz in (True,):
                        kw = dict(location_sample_multipliers=mult or False, incorrect_polarity_prob=w.copy() if w.any() else 0,
                                  return_zero=rz, reuse=True, marginalise=True)
                        def run():
                            t = ForwardTask(mt.copy(), a if a is False else a.copy(), np.array(sig) if npol else False, False, False, False,
                                            False, False, ap if ap is False else ap.copy(),
                                            (p.copy(), n.copy()) if nprob else False, **kw)
                            return t()
                        R.state(1)
                        ok, res = R.call('task', run)
                        if not ok:
                            continue
                        want = O.ln_forward(mt, (a, sig) if npol else None, (ap, p, n) if nprob else None, None, w if w.size > 1 else float(w[0]))
                        got = np.asarray(res['ln_pdf']._ln_pdf, float).flatten()
                        if got.shape != want.shape:
                            R.fail('task:shape:%s' % mode, 'shape %r expected %r' % (got.shape, want.shape), dict(npol=npol, nprob=nprob))
                            continue
                        R.check(np.all(O.ln_close(got, want, 1e-9, 4e-15)), 'task:value:%s' % mode,
                                'inversion polarity likelihood wrong',
                                dict(npol=npol, nprob=nprob, nloc=nloc, w=w, sig=sig, got=got, want=want))
                        R.outcome('v', tuple(np.round(got, 6)))
