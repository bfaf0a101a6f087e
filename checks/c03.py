"""C03 - amplitude-ratio likelihood is the normalised density of |X/Y| for two Gaussians."""
import itertools
import math
import numpy as np
from mc import oracle as O

ASSUMPTIONS = ['a modelled amplitude of exactly zero makes that Gaussian degenerate at zero (fractional uncertainty), so the density is 0 at every r>0',
               'relative tolerance 1e-9 + 4e-16*(mu/sigma)^2 for the cancellation in the documented closed form',
               'densities below e^-600 may be reported as zero']

F = [1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.3, 0.7, 1.0, 3.0, 50.0]
MX = [1e-8, 1e-3, 0.04, 0.5, 1.0, 2.3]
MY = [1e-8, 1e-3, 0.04, 0.5, 1.0, 2.3]
# r relative to the modelled ratio, in units used below
REL = [-8., -5., -3., -1.5, -1., -0.3, 0., 0.3, 1., 1.5, 3., 5., 8.]
RMUL = [1e-6, 1e-2, 0.1, 0.5, 0.9, 0.99, 1., 1.01, 1.1, 2., 10., 1e2, 1e6]


def shards(tier, seed):
    out = [dict(name='oracle', mode='c', fn='oracle_check')]
    for mode in ('c', 'py'):
        out += [dict(name='grid-' + mode, mode=mode, fn='grid', kw=dict(mode=mode, tier=tier), cost=3),
                dict(name='integral-' + mode, mode=mode, fn='integral', kw=dict(mode=mode, tier=tier), cost=3),
                dict(name='zero-' + mode, mode=mode, fn='zero', kw=dict(mode=mode)),
                dict(name='shapes-' + mode, mode=mode, fn='shapes', kw=dict(mode=mode), cost=2)]
    return out


def tol(fx, fy):
    return 1e-9 + 2e-15 * (1. / fx ** 2 + 1. / fy ** 2)


def rs(mx, my, fx, fy):
    z = abs(mx / my)
    w = z * math.sqrt(fx * fx + fy * fy)
    r = [z + q * w for q in REL] + [z * q for q in RMUL]
    return np.array(sorted(set(x for x in r if x > 0)))


def evaluate(fn, r, mx, my, fx, fy, use):
    """ln density at every r: one station, amplitude pairs exact through unit coefficients.
    (r is per station, so each r is a separate call unless stations are separated; use stations=1.)"""
    ax = np.zeros((1, 1, 6))
    ay = np.zeros((1, 1, 6))
    ax[0, 0, 0] = 1.
    ay[0, 0, 1] = 1.
    mt = np.zeros((6, len(mx)))
    mt[0] = mx
    mt[1] = my
    return np.asarray(fn(np.array([r]), mt, ax, ay, np.array([fx]), np.array([fy]), _use_c=use), float).flatten()


def _uses(mode):
    return (None, False) if mode == 'c' else (None,)


def oracle_check(R):
    """the closed form of the oracle equals the defining integral (quadrature) over a sub-lattice."""
    for mx, my, fx, fy in itertools.product([0.04, 1., 2.3], [0.04, 0.5, 1.], [1e-5, 1e-3, 0.05, 0.3, 1., 3.], [1e-5, 1e-3, 0.05, 0.3, 1., 3.]):
        for r in rs(mx, my, fx, fy)[::5]:
            R.state()
            want = O.ratio_by_quadrature(r, mx, my, fx * mx, fy * my)
            got = math.exp(float(O.ratio_ln(r, mx, my, fx, fy)))
            R.trans()
            if want > 1e-200 and abs(got - want) > 1e-7 * want:
                raise AssertionError('oracle broken: %r %r %r' % ((r, mx, my, fx, fy), got, want))
    R.sample(dict(r=r, mx=mx, my=my, fx=fx, fy=fy, density=got, quadrature=want))


def grid(R, mode, tier):
    """every (|mu_x|, |mu_y|, signs, fx, fy, r): value, sign independence, finiteness."""
    from MTfit.probability import amplitude_ratio_ln_pdf as fn
    from MTfit.probability import ratio_pdf
    signs = [(1, 1), (-1, 1), (1, -1), (-1, -1)]
    Fs = F if tier == 'thorough' else F[::2] + [0.01]
    for fx, fy in itertools.product(Fs, F):
        for mx, my in itertools.product(MX, MY):
            r = rs(mx, my, fx, fy)
            if tier != 'thorough':
                r = r[::2]
            for use in _uses(mode):
                for ri in r:
                    ok, got = R.call('grid', evaluate, fn, ri, [s[0] * mx for s in signs], [s[1] * my for s in signs], fx, fy, use)
                    R.state(4)
                    if not ok:
                        continue
                    want = float(O.ratio_ln(ri, mx, my, fx, fy))
                    d = dict(r=ri, mx=mx, my=my, fx=fx, fy=fy, use_c=use, got=got, want=want)
                    R.check(np.all(O.ln_close(got, want, tol(fx, fy))), 'grid:value:' + mode, 'log-density differs from the defining integral', d)
                    R.check(not np.isnan(got).any() and np.all(got < np.inf), 'grid:finite:' + mode, 'not finite', d)
                    R.check(np.all(O.ln_close(got, got[0], 1e-12)), 'grid:signs:' + mode, 'depends on the sign of the modelled amplitudes', d)
                    R.outcome('v', round(float(got[0]), 6))
                    if use is None and mx == 1. and my in (0.5, 1.):
                        ok, p = R.call('grid', ratio_pdf, ri, mx, my, fx * mx, fy * my)
                        ok2, p2 = R.call('grid', ratio_pdf, -ri, mx, my, fx * mx, fy * my)
                        if ok and ok2:
                            with np.errstate(all='ignore'):
                                R.check(bool(np.all(O.ln_close(np.log(np.float64(p + p2)), want, tol(fx, fy)))), 'grid:ratio_pdf:' + mode,
                                        'ratio_pdf differs from the defining integral', dict(d, p=p, p2=p2))
                            R.check(p >= 0 and p2 >= 0, 'grid:nonneg:' + mode, 'negative density', dict(d, p=p, p2=p2))
    R.sample(d)


def integral(R, mode, tier):
    """integrates to one over (0, inf): composite Gauss-Legendre in the angle atan(r/s) over cells refined about the mode."""
    from MTfit.probability import amplitude_ratio_ln_pdf as fn
    x, w = np.polynomial.legendre.leggauss(24)
    Fs = [1e-5, 1e-3, 0.05, 0.3, 1., 3.] if tier != 'thorough' else F
    for fx, fy, mx, my in itertools.product(Fs, Fs, [0.04, 1., 2.3], [0.5, 1.]):
        z = mx / my
        wd = z * math.sqrt(fx * fx + fy * fy)
        edges = {0., math.pi / 2}
        for q in [-40, -20, -10, -6, -4, -2, -1, 0, 1, 2, 4, 6, 10, 20, 40]:
            if z + q * wd > 0:
                edges.add(math.atan((z + q * wd) / z))
        for q in (0.01, 0.05, 0.1, 0.3, 1., 3., 10., 30., 100.):
            edges.add(math.atan(q * fx / fy))       # heavy tail scale sx/sy
            edges.add(math.atan(q))
        e = sorted(edges)
        th = np.concatenate([(b - a) / 2 * x + (a + b) / 2 for a, b in zip(e, e[1:])])
        ww = np.concatenate([(b - a) / 2 * w for a, b in zip(e, e[1:])])
        r = z * np.tan(th)
        jac = z / np.cos(th) ** 2
        # one call with one station per r would multiply; use location samples axis? no: r is per station, so evaluate
        # through the scaling  f(r; mx, my) = (1/c) f(r/c; mx/c, my):  keep r0 fixed and scale mx
        r0 = 1.0
        mxs = mx * r0 / r
        ok, got = R.call('integral', evaluate, fn, r0, mxs, np.full(len(r), my), fx, fy, None)
        R.state(len(r))
        if not ok:
            continue
        dens = np.exp(got) * r0 / r
        tot = float(np.sum(dens * jac * ww))
        R.check(abs(tot - 1) < 1e-6 + 3e-15 * (fx ** -2 + fy ** -2), 'integral:' + mode, 'integrates to %r' % tot, dict(fx=fx, fy=fy, mx=mx, my=my))
        R.outcome('t', round(tot, 9))
    R.sample(dict(fx=fx, fy=fy, mx=mx, my=my, total=tot, nodes=len(r)))


def zero(R, mode):
    """vanishing modelled amplitudes: no NaN, no +inf, no exception; nodal sources impossible;
    and other candidates of the batch unaffected."""
    from MTfit.probability import amplitude_ratio_ln_pdf as fn
    from MTfit.inversion import ForwardTask
    amps = [0., -0., 1e-300, 0.5, -1.]
    mtx = np.array([a for a in amps for b in amps])
    mty = np.array([b for a in amps for b in amps])
    for fx, fy, r in itertools.product([1e-5, 1e-3, 0.1, 2.], [1e-5, 1e-3, 0.1, 2.], [1e-3, 1., 40.]):
        for use in _uses(mode):
            R.state(len(mtx))
            ok, got = R.call('zero', evaluate, fn, r, mtx, mty, fx, fy, use)
            if ok:
                d = dict(r=r, fx=fx, fy=fy, use_c=use, got=got)
                R.check(not np.isnan(got).any() and np.all(got < np.inf), 'zero:finite:' + mode, 'NaN or inf', d)
                nod = (mtx == 0) | (mty == 0)
                R.check(np.all(np.isneginf(got[nod])), 'zero:nodal:' + mode, 'nodal amplitude has non-zero density at r>0', d)
                if fx > 0 and fy > 0:
                    big = ~nod & (np.abs(mtx) > 1e-100) & (np.abs(mty) > 1e-100)
                    want = O.ratio_ln(r, mtx, mty, fx, fy)
                    R.check(np.all(O.ln_close(got[big], want[big], tol(fx, fy))), 'zero:value:' + mode, 'value wrong', d)
    # location samples: a nodal amplitude for one location sample must not remove the other samples
    for k in range(3):
        ax = np.zeros((1, 3, 6))
        ay = np.zeros((1, 3, 6))
        ax[0, :, 0] = [1., .8, .6]
        ay[0, :, 1] = [1., 1., 1.]
        for nodal in ('x', 'y'):
            bx, by = ax.copy(), ay.copy()
            (bx if nodal == 'x' else by)[0, k, :] = 0
            mt = np.array([[.6, .8, 0, 0, 0, 0], [.8, .6, 0, 0, 0, 0]]).T.copy()
            for w in (False, [1., 2., 3.]):
                ratio = (bx, by, np.array([.7]), np.array([.1]), np.array([.2]))
                def run():
                    return ForwardTask(mt.copy(), False, False, bx.copy(), by.copy(), ratio[2].copy(), ratio[3].copy(), ratio[4].copy(), False,
                                       False, location_sample_multipliers=w, return_zero=True)()
                R.state()
                ok, res = R.call('zero', run)
                if ok:
                    want = O.ln_forward(mt, ratio=ratio, loc_weights=w or None)
                    got = np.asarray(res['ln_pdf']._ln_pdf, float).flatten()
                    R.check(got.shape == want.shape and np.all(O.ln_close(got, want, 1e-9)), 'zero:location:' + mode,
                            'nodal location sample handled wrongly', dict(k=k, nodal=nodal, w=w, got=got, want=want))
    R.sample(dict(got=got, want=want))


def shapes(R, mode):
    """products over stations / location samples / sources for all small shapes and error assignments."""
    from MTfit.probability import amplitude_ratio_ln_pdf as fn
    from MTfit.inversion import ForwardTask
    base = [0.1, 1., -1., 0.3, -0.02, 2., 0.7]
    mts = np.array([[1., 0, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0], [.5, -.5, 0, .5, .5, 0], [0, .6, -.8, 0, 0, 0], [-.1, .2, .3, -.4, .5, .67]]).T
    for nst, nloc, nmt in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 5)):
        A = lambda o: np.array([[[base[(3 * i + 5 * j + 2 * k + i * k + o * (k + 1)) % 7] for k in range(6)] for j in range(nloc)] for i in range(nst)])
        ax, ay = A(1), A(2)
        mt = np.ascontiguousarray(mts[:, :nmt])
        for ex in itertools.product((0.03, 0.4), repeat=nst):
            for ey in itertools.product((0.05, 1.), repeat=nst):
                z = np.array([0.3, 1.4, 0.8][:nst])
                for use in _uses(mode):
                    R.state()
                    ok, got = R.call('shapes', fn, z.copy(), mt.copy(), ax.copy(), ay.copy(), np.array(ex), np.array(ey), _use_c=use)
                    if not ok:
                        continue
                    want = O.ratio_ln(O.b3(z), O.amplitudes(ax, mt), O.amplitudes(ay, mt), O.b3(ex), O.b3(ey)).sum(0)
                    got = np.asarray(got)
                    R.check(got.shape == want.shape and np.all(O.ln_close(got, want, 1e-9)), 'shapes:' + mode, 'product wrong',
                            dict(nst=nst, nloc=nloc, nmt=nmt, ex=ex, ey=ey, use_c=use, got=got, want=want))
                # in the forward task, alone and combined with polarities (compiled combined loops)
                for npol in (0, 1, 3):
                    a = A(3)
                    a = np.concatenate([a] * 3)[:npol] if npol else False
                    sg = np.array([.1, .3, .2][:npol])
                    def run():
                        return ForwardTask(mt.copy(), a if a is False else np.ascontiguousarray(a), sg.copy() if npol else False, ax.copy(), ay.copy(),
                                           z.copy(), np.array(ex), np.array(ey), False, False, return_zero=True)()
                    ok, res = R.call('shapes', run)
                    if ok:
                        want = O.ln_forward(mt, (a, sg) if npol else None, None, (ax, ay, z, ex, ey))
                        got = np.asarray(res['ln_pdf']._ln_pdf, float).flatten()
                        R.check(got.shape == want.shape and np.all(O.ln_close(got, want, 1e-9, 1e-14)), 'shapes:task:' + mode, 'forward task value wrong',
                                dict(nst=nst, nloc=nloc, nmt=nmt, ex=ex, ey=ey, npol=npol, got=got, want=want))
    R.sample(dict(got=got, want=want))
