"""C05 - Markov-chain acceptance satisfies detailed balance for shifts and model jumps."""
import itertools
import math
import numpy as np
from scipy.special import log_ndtr, ndtr
from scipy.stats import beta as _beta

ASSUMPTIONS = ['a full-tensor state with lune longitude and latitude both exactly zero is the double-couple state (the code identifies them)',
               'pairs for which the balance is 0 = 0 whatever a is (both states of zero posterior density) are left out',
               'pairs whose proposal density underflows in double precision (further than 30 widths apart) are left out: they cannot be proposed']

PI = np.pi
KNOWN_FLAT = 3 / (2 * PI)


# ---- reference ------------------------------------------------------------------------------------------------------
def ln(x):
    return math.log(x) if x > 0 else -math.inf


def ln_prior(x, model, prior):
    """ln of the sampling prior density on (gamma, delta); the double-couple model has none (density 1)."""
    if model == 'dc':
        return 0.
    if prior == 'flat_prior':
        return math.log(3 / PI ** 2)
    g, d = float(x['gamma']), float(x['delta'])
    c = math.cos(3 * g)
    if c < 1e-12 or abs(d) >= PI / 2 - 1e-12:
        return -math.inf
    return math.log(1.5 * c) + float(_beta.logpdf((d + PI / 2) / PI, 5.745, 5.745)) - math.log(PI) + math.log(1.1045219407152909)


def gb(*xs):
    """A state on the lune's longitude bound, where the 6-sphere prior vanishes up to rounding."""
    return any(abs(abs(float(x['gamma'])) - PI / 6) < 1e-9 for x in xs)


def lndiff(lo, hi, m, s):
    return math.log(ndtr((hi - m) / s) - ndtr((lo - m) / s))


BOUNDS = {'gamma': (-PI / 6, PI / 6), 'delta': (-PI / 2, PI / 2), 'h': (0., 1.), 'sigma': (-PI / 2, PI / 2)}


def ln_q(x, x0, alpha, model):
    """ln density of proposing x from x0 (strike left out: symmetric)."""
    tot = 0.
    for k in (('gamma', 'delta', 'h', 'sigma') if model == 'mt' else ('h', 'sigma')):
        s = float(alpha[k])
        t = (float(x[k]) - float(x0[k])) / s
        tot += -0.5 * t * t - math.log(s * math.sqrt(2 * PI)) - lndiff(BOUNDS[k][0], BOUNDS[k][1], float(x0[k]), s)
    return tot


def ln_balance(x, sg, sd):
    """ln density of the Gaussian balancing draw, truncated to the lune."""
    tot = 0.
    for k, s in (('gamma', sg), ('delta', sd)):
        t = float(x[k]) / s
        tot += -0.5 * t * t - math.log(s * math.sqrt(2 * PI)) - lndiff(BOUNDS[k][0], BOUNDS[k][1], 0., s)
    return tot


FLAT_DENSITY = {'py': lambda d: math.log(3 / PI ** 2), 'c': lambda d: math.log(3 * math.cos(d) / (2 * PI)) if abs(d) < PI / 2 else -math.inf}


def event_ln_ratio(xi, x, mi, m, alpha, prior, dcp, jump='gauss', flat=None):
    """(ln numerator, ln denominator) of one event's factor."""
    num, den = ln_prior(x, m, prior), ln_prior(xi, mi, prior)
    if mi == m:
        num += ln_q(xi, x, alpha, m)
        den += ln_q(x, xi, alpha, m)
        return num, den
    mt = x if m == 'mt' else xi
    b = ln_balance(mt, alpha['gamma_dc'], alpha['delta_dc']) if jump == 'gauss' else flat(float(mt['delta']))
    if m == 'mt':
        return num + math.log(1 - dcp), den + math.log(dcp) + b
    return num + math.log(dcp) + b, den + math.log(1 - dcp)


def ref_ln_a(xi, x, models_i, models, L, Lx, alphas, prior, dcps, jump='gauss', flat=None):
    """ln a for a joint state (lists over events); None if the balance does not fix it."""
    num, den = Lx, L
    for a, b, mi, m, al, p in zip(xi, x, models_i, models, alphas, dcps):
        n, d = event_ln_ratio(a, b, mi, m, al, prior, p, jump, flat)
        num += n
        den += d
    if num == -math.inf:
        return None if den == -math.inf and Lx != -math.inf else -math.inf
    if den == -math.inf:
        return 0.
    return min(0., num - den)


# ---- lattices -------------------------------------------------------------------------------------------------------
EPS = 1e-3
WIDTHS = [{'gamma': 0.2, 'delta': 0.3, 'h': 0.2, 'sigma': 0.4, 'kappa': 0.5},
          {'gamma': PI / 12, 'delta': PI / 4, 'h': 0.5, 'sigma': PI / 4, 'kappa': PI / 2},
          {'gamma': 0.09, 'delta': 0.7, 'h': 0.11, 'sigma': 0.23, 'kappa': 0.05},
          {'gamma': 0.25, 'delta': 0.12, 'h': 0.45, 'sigma': 0.75, 'kappa': 1.}]
JW = [(0.2, 0.2), (0.1, 0.35), (0.7, 0.9), (1.5, 3.)]
LS = [(0., 0.), (-3., -2.2), (-1., -2.3), (5., 5.7), (-40., 40.), (700., -100.), (1., -1200.), (-1200., 1.)]
DCPS = [0.5, 0.1, 0.83, 0.999]
SEEDED = [(0.07, -0.31, 0.37, 0.21), (-0.23, 0.93, 0.71, -1.07), (0.41, -1.21, 0.13, 0.83), (-0.11, 0.17, 0.59, -0.29)]


def st(g, d, h, s, k=1.):
    return {'gamma': float(g), 'delta': float(d), 'kappa': float(k), 'h': float(h), 'sigma': float(s)}


def mt_states(tier, seed=1):
    if tier == 'thorough':
        G = (-PI / 6, -0.3, 0.0, 0.1, 0.45, PI / 6)
        D = (-PI / 2, -0.8, 0.0, 0.35, 1.2, PI / 2)
        H = (0., 0.15, 0.6, 1.)
        S = (-PI / 2, -0.4, 0.7, PI / 2)
    else:
        G = (-PI / 6, -0.3, 0.1, PI / 6)
        D = (-PI / 2, -0.8, 0.35, PI / 2)
        H = (0., 0.3, 1.)
        S = (-PI / 2, 0.4, PI / 2)
    out = [st(g, d, h, s, 0.3 + 0.37 * i) for i, (g, d, h, s) in enumerate(itertools.product(G, D, H, S))]
    g, d, h, s = SEEDED[seed % len(SEEDED)]
    out.append(st(g, d, h, s, 2.2))
    out.append(st(0.0, 0.3, 0.4, 0.1, 1.7))
    out.append(st(0.3, 0.0, 0.4, 0.1, 1.9))
    for u in out:
        u['kappa'] %= 2 * PI
    return out


def shards(tier, seed):
    out = []
    parts = 4 if tier == 'quick' else 16
    for cls in ('single', 'multi', 'td', 'mtd'):
        n = parts if cls in ('single', 'td') else max(1, parts // 4)
        for i in range(n):
            out.append(dict(name='shift-%s-%d' % (cls, i), mode='c', fn='shift', kw=dict(tier=tier, seed=seed, cls=cls, part=i, parts=n, mode='c'), cost=20))
    for cls in ('multi', 'mtd'):
        out.append(dict(name='shift-%s-py' % cls, mode='py', fn='shift', kw=dict(tier=tier, seed=seed, cls=cls, part=0, parts=4, mode='py'), cost=20))
    for mode, cls in (('c', 'td'), ('c', 'mtd'), ('py', 'td'), ('py', 'mtd')):
        out.append(dict(name='jump-%s-%s' % (cls, mode), mode=mode, fn='jump', kw=dict(tier=tier, seed=seed, cls=cls, mode=mode), cost=20))
    for mode, cls in (('c', 'single'), ('c', 'multi'), ('c', 'td'), ('c', 'mtd'), ('py', 'multi'), ('py', 'mtd')):
        for n in (1, 2, 3):
            out.append(dict(name='joint-%s-%s-%d' % (cls, mode, n), mode=mode, fn='joint', kw=dict(tier=tier, seed=seed, cls=cls, mode=mode, n=n), cost=10 * n))
    for mode in ('c', 'py'):
        out.append(dict(name='inf-' + mode, mode=mode, fn='infinite', kw=dict(mode=mode), cost=3))
    out.append(dict(name='batch-c', mode='c', fn='batch', kw=dict(tier=tier), cost=10))
    out.append(dict(name='density', mode='c', fn='density', kw=dict(tier=tier, seed=seed), cost=5))
    return out


# ---- the code under test --------------------------------------------------------------------------------------------
CLS = {'single': 'IterativeMetropolisHastingsGaussianTape', 'multi': 'IterativeMultipleTryMetropolisHastingsGaussianTape',
       'td': 'IterativeTransDMetropolisHastingsGaussianTape', 'mtd': 'IterativeMultipleTryTransDMetropolisHastingsGaussianTape'}


def build(cls, n=1, prior='uniform_prior', alpha=None, jw=(0.2, 0.2), dcp=0.5, jump='gauss', nsamples=1):
    import MTfit.algorithms.markov_chain_monte_carlo as m
    kw = dict(learning_length=10 ** 9, acceptance_rate_window=10 ** 9, sampling_prior=prior, chain_length=10 ** 9, number_samples=nsamples,
              initial_sample='none')
    if n > 1:
        kw['number_events'] = n
    if cls in ('td', 'mtd'):
        kw.update(dc_sigma_g=jw[0], dc_sigma_d=jw[1], dc_prior=dcp, gaussian_jump_params=(jump == 'gauss'), dimension_jump_prob=0.3)
    alg = getattr(m, CLS[cls])(**kw)
    if alpha is not None:
        for i in range(n):
            (alg.alpha[i] if n > 1 else alg.alpha).update(alpha if isinstance(alpha, dict) else alpha[i])
    alg.tx = alg.t0
    return alg


def place(alg, xi, models, L, n):
    """Put the chain in the state xi (lists over events)."""
    alg.xi = [dict(u) for u in xi] if n > 1 else dict(xi[0])
    alg.dc = [m == 'dc' for m in models] if n > 1 else models[0] == 'dc'
    alg.ln_likelihood_xi = float(L)
    alg.scale_factor_i = False
    alg._initialising = False
    alg._tried = 5
    alg._learning_accepted = []


def proposal(xi, x, mi, m):
    """The proposed state as the sampler would hand it to the acceptance rule."""
    y = dict(x)
    if mi == 'mt' and m == 'dc':
        y['g0'], y['d0'] = xi['gamma'], xi['delta']
    return y


KEYS = ('gamma', 'delta', 'kappa', 'h', 'sigma')


def same(a, b):
    return all(float(a[k]) == float(b[k]) for k in KEYS)


def decide(alg, xi, cands, models_i, models, L, lnps, us, n, as_batch, jumped):
    """Index of the candidate the chain moves to in one iteration whose acceptance draws are us (None: stays)."""
    from mc import seam
    from MTfit.probability import LnPDF
    place(alg, xi, models_i, L, n)
    alg.jump = jumped
    alg._jumps = None
    if as_batch:
        if n > 1:
            alg.xi_1 = [[proposal(xi[e], c[e], models_i[e], mm[e]) for c, mm in zip(cands, models)] for e in range(n)]
        else:
            alg.xi_1 = [proposal(xi[0], c[0], models_i[0], mm[0]) for c, mm in zip(cands, models)]
    else:
        c, mm = cands[0], models[0]
        alg.xi_1 = [proposal(xi[e], c[e], models_i[e], mm[e]) for e in range(n)] if n > 1 else proposal(xi[0], c[0], models_i[0], mm[0])
    seam.S.reset([seam.Node(u, 0.01 * (i % 7) - 0.02) for i, u in enumerate(us)], limit=200000)
    alg.iterate({'ln_pdf': LnPDF(np.array([list(lnps)], dtype=float)), 'moment_tensors': None, 'n': len(lnps)})
    now = alg.xi if n > 1 else [alg.xi]
    for i, c in enumerate(cands):
        if all(same(a, b) for a, b in zip(now, c)):
            return i
    if all(same(a, b) for a, b in zip(now, xi)):
        return None
    return 'elsewhere'


def probe(R, key, alg, xi, x, mi, m, L, Lx, lna, n, as_batch, data, known=None):
    """Compare the accept decisions next to the reference acceptance probability."""
    if lna is None:
        return
    a = math.exp(lna)
    jumped = any(p != q for p, q in zip(mi, m))
    us = []
    if a >= 1 - 1e-12:
        us = [(1 - 1e-9, True)]
    elif a <= 1e-290:
        us = [(1e-9 if any(gb(u) for u in x) else 0.0 if lna == -math.inf else 1e-280, False)]
    else:
        e = 1e-7
        if a * (1 - e) >= 2.0 ** -1000:
            us.append((a * (1 - e), True))
        us.append((min(a * (1 + e), 1 - 2.0 ** -53), False))
        if a * (1 + e) >= 1 - 2.0 ** -53:
            us.pop()
    for u, expect in us:
        R.state()
        ok, got = R.call(key, decide, alg, xi, [x], mi, [m], L, [Lx], [u] * 4, n, as_batch, jumped)
        if not ok:
            return
        good = got == (0 if expect else None)
        if not good and known is not None:
            lk = known
            e2 = abs(math.exp(lk) - u) > 1e-9 and ((u < math.exp(lk)) == (got == 0)) and got in (0, None)
            if e2:
                R.check(False, 'flat-jump-density', 'the balancing-draw density used with flat jump parameters is 3/(2 pi), not the density drawn from',
                        data)
                continue
        R.check(good, key, 'move to %s %s with the uniform draw %r, but a = %r' % (x, 'refused' if expect else 'made' if got == 0 else got, u, a),
                dict(data, xi=xi, x=x, L=L, Lx=Lx, u=u, a=a))
    return


def acceptance(R, key, alg, xi, x, mi, m, L, Lx, lna, n, dcp, data, known=None):
    if lna is None:
        return
    place(alg, xi, mi, L, n)
    alg.jump = any(p != q for p, q in zip(mi, m))
    y = [proposal(a, b, p, q) for a, b, p, q in zip(xi, x, mi, m)]
    R.state()
    R.sample(dict(data, xi=xi, x=x, L=L, Lx=Lx, a=math.exp(lna)))
    ok, got = R.call(key, alg.acceptance, y if n > 1 else y[0], float(Lx), dcp)
    if not ok:
        return
    got = float(np.asarray(got).ravel()[0])
    a = math.exp(lna)
    good = abs(got - a) <= 1e-7 * a + 1e-13
    if not good and known is not None and abs(got - math.exp(known)) <= 1e-7 * math.exp(known) + 1e-13:
        R.check(False, 'flat-jump-density', 'the balancing-draw density used with flat jump parameters is 3/(2 pi), not the density drawn from', data)
        return
    R.check(good, key, 'acceptance %r, detailed balance needs %r' % (got, a), dict(data, xi=xi, x=x, L=L, Lx=Lx, got=got, a=a))


def reachable(xi, x, mi, m, alpha):
    if mi != m:
        return True
    return all(abs(float(xi[k]) - float(x[k])) < 30 * alpha[k] for k in (('gamma', 'delta', 'h', 'sigma') if m == 'mt' else ('h', 'sigma'))) and \
        ln_q(x, xi, alpha, m) > -600 and ln_q(xi, x, alpha, m) > -600


def shift(R, tier, seed, cls, part, parts, mode):
    from mc import seam
    seam.install()
    S = mt_states(tier, seed)
    direct = cls in ('single', 'td')
    nw = WIDTHS if tier == 'thorough' else WIDTHS[:2] if cls == 'single' else WIDTHS[2:]
    cases = []
    for w, (wi, prior) in enumerate(itertools.product(range(len(nw)), ('uniform_prior', 'flat_prior'))):
        alg = build(cls, prior=prior, alpha=nw[wi])
        alpha = alg.alpha
        for i, xi in enumerate(S):
            # the states reached from xi: all of them for the direct evaluation, a transversal of them for the decision probes
            for j, x in enumerate(S):
                if i == j or (i + j) % parts != part:
                    continue
                if (i * 7 + j) % (3 if mode == 'c' else 12) and (not direct or cls == 'td' and tier == 'quick'):
                    continue
                if not reachable(xi, x, 'mt', 'mt', alpha):
                    continue
                if gb(xi) and gb(x) and prior != 'flat_prior':
                    continue
                ls = LS[:3] if gb(xi, x) else LS
                L, Lx = ls[(i * 5 + j * 3 + w) % len(ls)]
                lna = ref_ln_a([xi], [x], ['mt'], ['mt'], L, Lx, [alpha], prior, [0.5])
                data = dict(cls=cls, prior=prior, alpha=nw[wi], model='mt')
                if direct:
                    acceptance(R, 'shift|%s|mt' % cls, alg, [xi], [x], ['mt'], ['mt'], L, Lx, lna, 1, 0.5, data)
                    if (i * 31 + j) % 97:
                        continue
                probe(R, 'shift-decision|%s|%s|mt' % (cls, mode), alg, [xi], [x], ['mt'], ['mt'], L, Lx, lna, 1, cls in ('multi', 'mtd') and mode == 'c', data)
        # double-couple constrained states
        D = [st(0., 0., h, s, k) for h, s, k in itertools.product((0., 0.05, 0.5, 0.93, 1.), (-PI / 2, -1.2, 0.3, PI / 2), (0., 3.))]
        for i, xi in enumerate(D):
            for j, x in enumerate(D):
                if i == j or (i + j) % parts != part:
                    continue
                for L, Lx in LS[:4] if direct else LS[:2]:
                    lna = ref_ln_a([xi], [x], ['dc'], ['dc'], L, Lx, [alpha], prior, [0.5])
                    data = dict(cls=cls, prior=prior, alpha=nw[wi], model='dc')
                    if direct:
                        acceptance(R, 'shift|%s|dc' % cls, alg, [xi], [x], ['dc'], ['dc'], L, Lx, lna, 1, 0.5, data)
                    if not direct or (i + 3 * j) % 29 == 0:
                        probe(R, 'shift-decision|%s|%s|dc' % (cls, mode), alg, [xi], [x], ['dc'], ['dc'], L, Lx, lna, 1, cls in ('multi', 'mtd') and mode == 'c', data)
    seam.uninstall()


def jump(R, tier, seed, cls, mode):
    """Model jumps, both directions, every balancing width, model prior, sampling prior and likelihood pair."""
    from mc import seam
    seam.install()
    G = (-PI / 6, -0.3, -0.05, 0.0, 0.12, 0.4, PI / 6)
    D = (-PI / 2, -1.0, -0.2, 0.0, 0.05, 0.6, 1.4, PI / 2)
    src = [(0.0, -PI / 2, 0.0), (0.4, 0.3, 1.3), (1.0, PI / 2, 6.2)]
    if tier == 'quick':
        G, D, src = G[1::2] + (PI / 6,), D[::2] + (PI / 2,), src[:2]
    jws = JW if tier == 'thorough' else JW[:3]
    dcps = DCPS if tier == 'thorough' else DCPS[:3]
    Ls = LS if tier == 'thorough' else LS[1:6]
    batch = cls == 'mtd' and mode == 'c'
    for prior, jw, dcp, kind in itertools.product(('uniform_prior', 'flat_prior'), jws, dcps, ('gauss', 'flat')):
        if kind == 'flat' and (jw != jws[0] or dcp != dcps[1]):
            continue
        alg = build(cls, prior=prior, alpha=WIDTHS[0], jw=jw, dcp=dcp, jump=kind)
        alpha = alg.alpha
        alpha['gamma_dc'], alpha['delta_dc'] = jw
        flat = FLAT_DENSITY['c' if batch else 'py']
        for g, d, (h, s, k) in itertools.product(G, D, src):
            if g == 0 and d == 0:
                continue
            dc, mt = st(0., 0., h, s, k), st(g, d, h, s, k)
            for up in (True, False):
                for L, Lx in Ls:
                    xi, x = (dc, mt) if up else (mt, dc)
                    mi, m = ('dc', 'mt') if up else ('mt', 'dc')
                    if gb(mt) and prior != 'flat_prior' and (abs(L - Lx) > 5 or kind == 'gauss' and ln_balance(mt, *jw) < -5):
                        continue
                    lna = ref_ln_a([xi], [x], [mi], [m], L, Lx, [alpha], prior, [dcp], kind, flat)
                    known = None
                    if kind == 'flat':
                        known = ref_ln_a([xi], [x], [mi], [m], L, Lx, [alpha], prior, [dcp], kind, lambda dd: math.log(KNOWN_FLAT))
                        if known is None:
                            continue
                        if lna is None:
                            lna = known
                    data = dict(cls=cls, prior=prior, jw=jw, dcp=dcp, kind=kind, up=up)
                    if cls == 'td' and mode == 'c' or cls == 'mtd' and mode == 'py':
                        acceptance(R, 'jump|%s|%s' % (cls, kind), alg, [xi], [x], [mi], [m], L, Lx, lna, 1, dcp, data, known)
                    if cls == 'mtd' and mode == 'c' or (L, Lx) == Ls[0] or tier == 'thorough':
                        probe(R, 'jump-decision|%s|%s|%s' % (cls, mode, kind), alg, [xi], [x], [mi], [m], L, Lx, lna, 1, batch, data, known)
    seam.uninstall()


def joint(R, tier, seed, cls, mode, n):
    """Joint states of n events: every combination of per-event transitions; the ratio is the product over the events."""
    from mc import seam
    seam.install()
    A, B = st(-0.3, -0.8, 0.1, -1.2, 0.4), st(0.2, 0.3, 0.55, 0.4, 1.1)
    C, Dd = st(0.45, 1.1, 0.98, 1.5, 5.), st(-0.1, 0.2, 0.4, 0.2, 6.)
    E, F = st(0, 0, 0.02, -1.5, 3.), st(0, 0, 0.6, 0.3, 2.)
    moves = [(A, B, 'mt', 'mt'), (C, A, 'mt', 'mt'), (B, Dd, 'mt', 'mt'), (E, F, 'dc', 'dc'), (F, E, 'dc', 'dc')]
    if cls in ('td', 'mtd'):
        up, down = dict(F, gamma=0.25, delta=-0.9), dict(E, gamma=-0.1, delta=0.3)
        moves += [(F, up, 'dc', 'mt'), (up, F, 'mt', 'dc'), (down, E, 'mt', 'dc'), (E, down, 'dc', 'mt')]
    else:
        # a constrained run has one model for all events
        pass
    if n == 3 and tier == 'quick':
        moves = moves[:2] + moves[3:4] + moves[5:8:2] + moves[6:7]
    alphas0 = [WIDTHS[0], WIDTHS[3], WIDTHS[1]][:n]
    batch = cls in ('multi', 'mtd') and mode == 'c'
    direct = not batch
    for prior in ('uniform_prior', 'flat_prior'):
        for dcp in (0.5, 0.2):
            if dcp != 0.5 and cls not in ('td', 'mtd'):
                continue
            alg = build(cls, n=n, prior=prior, alpha=alphas0 if n > 1 else alphas0[0], jw=(0.2, 0.5), dcp=dcp)
            if n > 1:
                # each event gets its own widths
                for e in range(n):
                    al = dict(alg.alpha[e])
                    al.update(alphas0[e])
                    alg.alpha[e] = al
            alphas = alg.alpha if n > 1 else [alg.alpha]
            for al in alphas:
                if cls in ('td', 'mtd'):
                    al['gamma_dc'], al['delta_dc'] = 0.2, 0.5
            for combo in itertools.product(range(len(moves)), repeat=n):
                mv = [moves[c] for c in combo]
                xi, x = [u[0] for u in mv], [u[1] for u in mv]
                mi, m = [u[2] for u in mv], [u[3] for u in mv]
                for L, Lx in (LS[:2] if tier == 'quick' else LS[:6]):
                    lna = ref_ln_a(xi, x, mi, m, L, Lx, alphas, prior, [dcp] * n)
                    data = dict(cls=cls, prior=prior, combo=combo, dcp=dcp)
                    kinds = 'jumps' if any(p != q for p, q in zip(mi, m)) else 'shifts'
                    if direct:
                        acceptance(R, 'joint|%s|%s' % (cls, kinds), alg, xi, x, mi, m, L, Lx, lna, n, dcp, data)
                    if batch or sum(combo) % 3 == 0:
                        probe(R, 'joint-decision|%s|%s|%s' % (cls, mode, kinds), alg, xi, x, mi, m, L, Lx, lna, n, batch, data)
    seam.uninstall()


def batch(R, tier):
    """Batches of tries from one state: the chain moves to the first candidate whose own acceptance exceeds its draw."""
    from mc import seam
    seam.install()
    xi1 = st(0.1, 0.3, 0.5, 0.2, 1.)
    cand = [(st(0.2, 0.5, 0.6, 0.1, 2.), -1.), (st(-0.2, -0.4, 0.3, 0.4, 3.), -2.), (st(0.3, 0.1, 0.45, 0.0, 4.), -np.inf),
            (st(0.15, 0.25, 0.8, -0.5, 5.), -0.4)]
    jmp = (st(0., 0., 0.5, 0.2, 1.), 0.3)
    for cls in ('multi', 'mtd'):
        for n in (1, 2):
            alg = build(cls, n=n, alpha=WIDTHS[0])
            alphas = alg.alpha if n > 1 else [alg.alpha]
            pool = cand + ([jmp] if cls == 'mtd' else [])
            if cls == 'mtd':
                for al in alphas:
                    al['gamma_dc'], al['delta_dc'] = 0.2, 0.2
            xi = [xi1, dict(xi1, kappa=2.5)][:n]
            for size in (2, 3) if tier == 'quick' else (2, 3, 4):
                for combo in itertools.product(range(len(pool)), repeat=size):
                    if n > 1 and sum(combo) % 3:
                        continue
                    cs, ms, lps, lnas = [], [], [], []
                    for c in combo:
                        x = [dict(pool[c][0]) for e in range(n)]
                        if c == 4 and n > 1:
                            x[1]['kappa'] = 2.5
                        mm = ['dc' if c == 4 else 'mt'] * n
                        cs.append(x)
                        ms.append(mm)
                        lps.append(pool[c][1])
                        lnas.append(ref_ln_a(xi, x, ['mt'] * n, mm, 0., pool[c][1], alphas, 'uniform_prior', [0.5] * n))
                    av = sorted(set([0.] + [math.exp(q) for q in lnas] + [1.]))
                    for lo, hi in zip(av[:-1], av[1:]):
                        if hi - lo < 1e-6:
                            continue
                        u = 0.5 * (lo + hi)
                        want = [i for i, q in enumerate(lnas) if math.exp(q) > u]
                        R.state()
                        ok, got = R.call('batch', decide, alg, xi, cs, ['mt'] * n, ms, 0., lps, [u] * (size + 1), n, True, False)
                        if not ok:
                            continue
                        w = want[0] if want else None
                        good = got == w or (isinstance(got, int) and w is not None and combo[got] == combo[w])
                        R.check(good, 'batch|%s|%d' % (cls, n), 'tries %s with acceptances %s and the draw %r: moved to %r, expected %r'
                                % (combo, [round(math.exp(q), 6) for q in lnas], u, got, w), dict(combo=combo, u=u))
    seam.uninstall()


def infinite(R, mode):
    """Zero likelihood: such a proposal is never accepted, and a zero-likelihood start always moves to a possible source."""
    from mc import seam
    seam.install()
    ninf = -math.inf
    A, B = st(0.1, 0.3, 0.5, 0.2, 1.), st(-0.2, -0.4, 0.3, 0.4, 3.)
    E, F = st(0., 0., 0.5, 0.2, 1.), st(0., 0., 0.3, 0.4, 3.)
    far = st(-0.5, 1.3, 0.99, -1.5, 3.)
    for cls in ('single', 'multi', 'td', 'mtd'):
        moves = [(A, B, 'mt', 'mt'), (A, far, 'mt', 'mt'), (E, F, 'dc', 'dc')]
        if cls in ('td', 'mtd'):
            moves += [(E, A, 'dc', 'mt'), (A, E, 'mt', 'dc')]
        for n in (1, 2, 3):
            alg = build(cls, n=n, alpha=WIDTHS[0])
            bt = cls in ('multi', 'mtd') and mode == 'c'
            for combo in itertools.product(range(len(moves)), repeat=n):
                mv = [moves[c] for c in combo]
                xi, x = [u[0] for u in mv], [u[1] for u in mv]
                mi, m = [u[2] for u in mv], [u[3] for u in mv]
                jumped = any(p != q for p, q in zip(mi, m))
                data = dict(cls=cls, n=n, combo=combo, mode=mode)
                for L, Lx, want, tag in ((0., ninf, None, 'zero-proposal'), (-700., ninf, None, 'zero-proposal'), (ninf, ninf, None, 'zero-proposal'),
                                         (ninf, -900., 0, 'zero-start'), (ninf, 5., 0, 'zero-start')):
                    for u in ((0., 1e-300, 0.5) if want is None else (0.5, 1 - 2.0 ** -53)):
                        R.state()
                        ok, got = R.call('zero|%s' % tag, decide, alg, xi, [x], mi, [m], L, [Lx], [u] * 4, n, bt, jumped)
                        if ok:
                            R.check(got == want, '%s|%s|%s' % (tag, cls, mode), 'L=%s -> L=%s with the draw %r: %s' % (L, Lx, u, got), dict(data, u=u, xi=xi, x=x))
                if not bt:
                    for L, Lx, want in ((0., ninf, 0.), (ninf, ninf, 0.), (ninf, 3., 1.)):
                        place(alg, xi, mi, L, n)
                        alg.jump = jumped
                        y = [proposal(a, b, p, q) for a, b, p, q in zip(xi, x, mi, m)]
                        R.state()
                        ok, got = R.call('zero|acceptance', alg.acceptance, y if n > 1 else y[0], Lx, 0.5)
                        if ok:
                            got = float(np.asarray(got).ravel()[0])
                            R.check(got == want, 'zero-acceptance|%s' % cls, 'L=%s -> L=%s: acceptance %r' % (L, Lx, got), data)
    seam.uninstall()


def density(R, tier, seed):
    """The published pieces: transition_pdf(), prior(), jump_params()."""
    S = mt_states(tier, seed)[::3 if tier == 'quick' else 1]
    for cls in ('single', 'td'):
        for prior in ('uniform_prior', 'flat_prior'):
            for w in WIDTHS[::2] if cls == 'single' else WIDTHS[1::2]:
                alg = build(cls, prior=prior, alpha=w, jw=(0.2, 0.7))
                for xi in S:
                    R.state()
                    ok, p = R.call('prior', alg.prior, xi)
                    if ok:
                        want = ln_prior(xi, 'mt', prior)
                        R.check(abs(float(np.asarray(p).ravel()[0]) - math.exp(want)) <= 1e-8 * math.exp(want) + 1e-13, 'prior|%s' % prior, 'prior %r, reference %r' % (p, math.exp(want)), xi)
                    for x in S:
                        for dc in (False, True):
                            R.state()
                            ok, p = R.call('transition_pdf', alg.transition_pdf, x, xi, dc)
                            if not ok:
                                continue
                            want = ln_q(x, xi, w, 'dc' if dc else 'mt')
                            R.check(abs(float(p) - math.exp(want)) <= 1e-7 * math.exp(want) + 1e-200, 'transition_pdf|%s' % ('dc' if dc else 'mt'),
                                    'density %r of proposing %s from %s, reference %r' % (p, x, xi, math.exp(want)), dict(alpha=w))
    for jw in JW + [(0.05, 0.05), (0.3, 0.01)]:
        alg = build('td', jw=jw)
        for g, d in itertools.product((-PI / 6, -0.3, 0., 0.1, PI / 6), (-PI / 2, -0.6, 0., 0.2, PI / 2)):
            R.state()
            ok, q = R.call('jump_params', alg.jump_params, {'gamma': g, 'delta': d})
            if ok:
                want = math.exp(ln_balance({'gamma': g, 'delta': d}, *jw))
                R.check(abs(float(q) - want) <= 1e-7 * want + 1e-200, 'jump_params|gauss', 'balancing density %r at (%r, %r), widths %s, reference %r' % (q, g, d, jw, want))
