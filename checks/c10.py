"""C10 - evidence, model probabilities and divergences obey their defining identities."""
import itertools
import math
import numpy as np

NINF = -np.inf
ASSUMPTIONS = ['the sampling prior is the default one (sampled from directly, so the evidence is the plain mean likelihood)',
               'samples removed by the optional discard may lower the evidence by at most ln(1-1/discard)',
               'a model probability may underflow to zero when the evidences differ by more than 700']
A = [-1e4, -800., -3.2, 0., 2., 700., 1e4]
B = [NINF, -900., -2.5, 0., 1.25, 3.]


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out += [dict(name='evidence-' + mode, mode=mode, fn='evidence', kw=dict(tier=tier), cost=4),
                dict(name='store-' + mode, mode=mode, fn='store', kw=dict(tier=tier), cost=5),
                dict(name='dkl-' + mode, mode=mode, fn='divergence', kw=dict(tier=tier), cost=4),
                dict(name='dkluni-' + mode, mode=mode, fn='uniform', kw=dict(tier=tier), cost=4),
                dict(name='combine-' + mode, mode=mode, fn='combine', kw=dict(tier=tier), cost=2)]
    out.append(dict(name='models', mode='c', fn='models', kw=dict(tier=tier), cost=3))
    return out


def lse(v):
    v = [x for x in v if x > NINF]
    if not v:
        return NINF
    m = max(v)
    return m + math.log(math.fsum(math.exp(x - m) if x - m > -745 else 0. for x in v))


def near(a, b, tol=1e-9):
    try:
        a, b = float(a), float(b)
    except Exception:
        return False
    return a == b or abs(a - b) <= tol * max(1., abs(b))


def evidence(R, tier):
    from MTfit.sampling import ln_bayesian_evidence
    from MTfit.probability import LnPDF
    L = 3 if tier == 'quick' else 4

    def ev(v, N, form):
        g = np.zeros(len(v))
        p = np.matrix(v) if form else LnPDF(np.matrix(v))
        return R.call('evidence', ln_bayesian_evidence, {'ln_pdf': p, 'g': g, 'd': g}, N)

    for l in range(1, L + 1):
        for v in itertools.product(A + [NINF], repeat=l):
            if max(v) == NINF:
                continue
            R.state()
            for N in (l, l + 1, 10 * l, 1000000):
                for form in (0, 1):
                    ok, e = ev(v, N, form)
                    if not ok:
                        continue
                    want = lse(v) - math.log(N)
                    R.check(near(e, want), 'evidence', 'ln evidence %r, mean likelihood gives %r' % (e, want), {'ln_pdf': v, 'N': N})
                    ok, e2 = ev(v[::-1], N, form)
                    if ok:
                        R.check(near(e, e2), 'evidence:order', 'depends on the order: %r %r' % (e, e2), {'ln_pdf': v, 'N': N})
            for c in (-1e3, 0.7, 1e3):
                ok, e3 = ev([x + c for x in v], l, 0)
                if ok:
                    R.check(near(e3, lse(v) - math.log(l) + c), 'evidence:shift', 'shift by %r gave %r' % (c, e3), {'ln_pdf': v})
    # many samples; the number of tried samples exceeds the number kept
    for n in (50, 1000):
        v = [-((7 * i) % 23) * 1.3 for i in range(n)]
        for N in (n, 20 * n, 10 ** 7):
            ok, e = ev(v, N, 1)
            if ok:
                R.check(near(e, lse(v) - math.log(N)), 'evidence', 'ln evidence %r' % e, {'n': n, 'N': N})


# unit tensors used for the stores (distinct source types, or all double-couples)
def tensors(n, dc):
    out = []
    for i in range(n):
        if dc:
            a = 0.3 + 0.5 * i
            out.append([math.cos(a) / math.sqrt(2), -math.cos(a) / math.sqrt(2), 0, math.sin(a), 0, 0])
        else:
            x = np.array([1. + i, 0.3 * i, -1., 0.2, 0.5 * (-1) ** i, 0.1 * i])
            out.append(x / math.sqrt((x * x).sum()))
    return np.matrix(np.array(out).T)


def store(R, tier):
    """The numbers reported by the sample store for every batch history."""
    from MTfit.sampling import Sample
    from MTfit.probability import LnPDF
    vals = [NINF, -900., -2.5, 1.25] if tier == 'quick' else B
    for dc in (False, True):
        for events in (1, 2):
            for sizes in ((1,), (2,), (3,), (1, 2), (2, 1), (2, 2)):
                n = sum(sizes)
                if events == 2 and n > 3:
                    continue
                for v in itertools.product(vals, repeat=n):
                    if max(v) == NINF:
                        continue
                    R.state()
                    for extra in (0, 5):
                        for convert in ((False, True) if (n <= 3 and extra == 0) else (False,)):
                            s = Sample(2, events)
                            k, good = 0, True
                            T = tensors(n, dc)
                            for b in sizes:
                                m = T[:, k:k + b]
                                if events == 2:
                                    m = [m.copy(), T[:, ::-1][:, k:k + b].copy()]
                                good, _ = R.call('append', s.append, m, LnPDF(np.matrix(v[k:k + b])), b)
                                if not good:
                                    break
                                k += b
                            if not good:
                                continue
                            if extra:
                                z = np.matrix(np.zeros((6 * events, extra)))
                                good, _ = R.call('append', s.append, z, LnPDF(np.matrix([NINF] * extra)), extra)
                                if not good:
                                    continue
                            N = n + extra
                            data = {'batches': sizes, 'lnp': v, 'N': N, 'events': events, 'dc': dc, 'convert': convert}
                            for discard in (0, 50.):
                                ok, o = R.call('output', s.output, True, convert, N, discard)
                                if not ok:
                                    continue
                                o = o[0]
                                want = lse(v) - math.log(N)
                                lo = math.log(1 - 1. / discard) if discard else 0.
                                e = o.get('ln_bayesian_evidence')
                                R.check(e is not None and want + lo - 1e-9 <= float(e) <= want + 1e-9, 'store:evidence',
                                        'reported ln evidence %r, log mean likelihood %r' % (e, want), data)
                                D = o.get('dkl')
                                wd = uni_want(v, N)
                                R.check(D is not None and near(D, wd, 1e-8), 'store:dkl',
                                        'reported divergence %r, ln N minus entropy is %r' % (D, wd), data)


def uni_want(v, N):
    z = lse(v)
    H = 0.
    for x in v:
        if x - z > -745:
            w = math.exp(x - z)
            H -= w * (x - z)
    return math.log(N) - H


def uniform(R, tier):
    from MTfit.probability import LnPDF
    from MTfit.probability.probability import dkl_estimate
    L = 4 if tier == 'quick' else 5
    VV = (1., math.pi ** 3, 2 * math.pi ** 2)
    for vals in (B, [NINF, -1e4, -800., 700., 1e4]):
        for l in range(1, L + 1):
            for v in itertools.product(vals, repeat=l):
                if max(v) == NINF:
                    continue
                R.state()
                for N in (l, l + 3, 100000):
                    V = VV[(N + l) % 3]
                    want = uni_want(v, N)
                    for form in (np.array(v), LnPDF(np.matrix(v))):
                        ok, d = R.call('dkl_estimate', dkl_estimate, form, V, N)
                        if ok:
                            R.check(near(d, want, 1e-8), 'dkl_estimate', 'divergence %r, ln N - H = %r' % (d, want), {'lnp': v, 'N': N, 'V': V})
                            R.check(-1e-9 <= d <= math.log(N) + 1e-9, 'dkl_estimate:range', 'divergence %r outside [0, ln %d]' % (d, N),
                                    {'lnp': v, 'N': N, 'V': V})
                if l == 3:
                    for V in VV:
                        ok, d = R.call('dkl_estimate', dkl_estimate, np.array(v), V, 17)
                        if ok:
                            R.check(near(d, uni_want(v, 17), 1e-8), 'dkl_estimate:V', 'divergence %r' % d, {'lnp': v, 'V': V})
    for n in (100, 5000):        # uniform weights: divergence ln(N/n)
        ok, d = R.call('dkl_estimate', dkl_estimate, np.full(n, -37.), math.pi ** 3, 3 * n)
        if ok:
            R.check(near(d, math.log(3)), 'dkl_estimate', 'uniform weights: %r' % d, {'n': n})


def dkl_want(p, q):
    zp, zq = lse(p), lse(q)
    s = 0.
    for a, b in zip(p, q):
        if a == NINF:
            continue
        w = math.exp(a - zp) if a - zp > -745 else 0.
        if b == NINF:
            if w > 0:
                return np.inf
            continue
        s += w * ((a - zp) - (b - zq))
    return s


def divergence(R, tier):
    from MTfit.probability import LnPDF
    from MTfit.probability.probability import dkl
    L = 3 if tier == 'quick' else 4
    vals = [NINF, -60., -2.5, 0., 3.] if tier == 'quick' else [NINF, -30., -2.5, 0., 3.]
    for l in range(1, L + 1):
        vs = [v for v in itertools.product(vals, repeat=l) if max(v) > NINF]
        for p in vs:
            for q in vs:
                R.state()
                want = dkl_want(p, q)
                data = {'p': p, 'q': q}
                for k, (a, b) in enumerate([(np.array(p), np.array(q)), (LnPDF(np.matrix(p)), LnPDF(np.matrix(q)))]):
                    if k and l > 2:
                        continue
                    for dV in (1., 0.03):
                        ok, d = R.call('dkl', dkl, a, b, dV)
                        if not ok:
                            continue
                        R.check(near(d, want, 1e-9) or (want == 0 and abs(d) < 1e-12), 'dkl', 'divergence %r, definition gives %r' % (d, want), data)
                        R.check(d >= -1e-12, 'dkl:sign', 'negative divergence %r' % d, data)
                        if p == q:
                            R.check(abs(d) <= 1e-12, 'dkl:identity', 'divergence from itself is %r' % d, data)
    for c in (-1e5, 1e4):            # unchanged by a shift of either
        for p, q in [((-1., 0., 2.), (0., 0.5, -3.)), ((NINF, 0., 2.), (0., 0.5, -3.))]:
            ok, d = R.call('dkl', dkl, np.array(p) + c, np.array(q) - c)
            if ok:
                R.check(near(d, dkl_want(p, q), 1e-8), 'dkl:shift', 'divergence %r after a shift' % d, {'p': p, 'q': q, 'c': c})


def models(R, tier):
    from MTfit.probability.probability import model_probabilities
    vals = [-1e5, -900., -30.5, -1., 0., 2.25, 650., 1e5] if tier == 'quick' else \
        [-1e5, -99990., -900., -300., -30.5, -1., 0., 2.25, 300., 650., 1e4, 1e5]
    for l in range(1, 5):
        for e in itertools.product(vals, repeat=l):
            R.state()
            ok, p = R.call('models', model_probabilities, *e)
            if not ok:
                continue
            data = {'ln_evidences': e, 'p': p}
            ok = len(p) == l and all(np.isfinite(x) for x in p)
            R.check(ok, 'models:finite', 'probabilities %r' % (p,), data)
            if not ok:
                continue
            R.check(abs(math.fsum(p) - 1) < 1e-12, 'models:sum', 'sum %r' % math.fsum(p), data)
            m = max(e)
            z = math.fsum(math.exp(x - m) if x - m > -745 else 0. for x in e)
            for x, y in zip(e, p):
                w = math.exp(x - m) / z if x - m > -745 else 0.
                R.check(y >= 0 and (y > 0 or x - m < -700) and abs(y - w) <= 1e-12 * w + 1e-300, 'models:ratio',
                        'probability %r, exp(difference of log evidences) gives %r' % (y, w), data)
            if l <= 3:
                for c in (-1024., 4096.):
                    ok, p2 = R.call('models', model_probabilities, *[x + c for x in e])
                    if ok:
                        R.check(np.allclose(p, p2, rtol=1e-9, atol=1e-300), 'models:shift', 'changed by a shift: %r' % (p2,), data)


def combine(R, tier):
    """Through the random-sampling algorithm: its reported numbers for a whole run."""
    from MTfit.algorithms.monte_carlo import IterationSample
    from MTfit.probability import LnPDF
    vals = [NINF, -900., -2.5, 3.]
    for ns, nb in ((1, 3), (2, 2), (3, 1), (4, 1)) if tier == 'quick' else ((1, 4), (2, 3), (3, 2), (5, 1)):
        for v in itertools.product(vals, repeat=ns * nb):
            if max(v) == NINF:
                continue
            alg = IterationSample(number_samples=ns, max_samples=ns * nb)
            task, end = alg.initialise()
            good = True
            for b in range(nb):
                lp = np.array(v[b * ns:(b + 1) * ns])
                nz = lp > NINF
                good, r = R.call('iterate', alg.iterate, {'moment_tensors': task[:, nz], 'ln_pdf': LnPDF(np.matrix(lp[nz])), 'n': ns})
                if not good:
                    break
                task, end = r
            if not good:
                continue
            R.state()
            for convert in (False, True):
                ok, o = R.call('output', alg.output, True, convert, 0)
                if ok:
                    o = o[0]
                    want = lse(v) - math.log(ns * nb)
                    R.check(near(o.get('ln_bayesian_evidence', np.nan), want), 'run:evidence', 'reported %r, log mean likelihood %r'
                            % (o.get('ln_bayesian_evidence'), want), {'lnp': v, 'ns': ns})
                    R.check(near(o.get('dkl', np.nan), uni_want(v, ns * nb), 1e-8), 'run:dkl', 'reported %r, ln N - H %r'
                            % (o.get('dkl'), uni_want(v, ns * nb)), {'lnp': v, 'ns': ns})
