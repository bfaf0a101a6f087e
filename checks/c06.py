"""C06 - Markov-chain proposals stay in the domain, follow the truncated Gaussian, and adapted widths stay positive and bounded."""
import copy
import itertools
import math
import numpy as np
from scipy.special import ndtr, ndtri
from checks import geo
from checks.c05 import CLS, PI, st, proposal  # noqa: F401

ASSUMPTIONS = ['a full-tensor state with lune longitude and latitude both exactly zero is the double-couple state (the code identifies them)',
               'the flat balancing draw (gaussian_jump_params=False) is only checked for its range: no density is stated for it (see C05 known finding)',
               'the reflecting options and the crack+double-couple model are not part of the sampled models']

LIMITS = {'gamma': (-PI / 6, PI / 6), 'delta': (-PI / 2, PI / 2), 'h': (0., 1.), 'sigma': (-PI / 2, PI / 2)}
KEYS = ('gamma', 'delta', 'kappa', 'h', 'sigma')

WIDTHS = [{'gamma': PI / 15, 'delta': PI / 10, 'h': 0.2, 'sigma': PI / 10, 'kappa': PI / 5},
          {'gamma': PI / 12, 'delta': PI / 4, 'h': 0.5, 'sigma': PI / 4, 'kappa': PI / 2},
          {'gamma': 0.002, 'delta': 0.004, 'h': 0.003, 'sigma': 0.005, 'kappa': 0.01},
          {'gamma': 0.25, 'delta': 0.03, 'h': 0.01, 'sigma': 0.75, 'kappa': 1.5}]
JW = [(0.2, 0.2), (0.05, 0.6), (1.2, 2.5)]


def shards(tier, seed):
    out = []
    cfg = [('c', c) for c in ('single', 'multi', 'td', 'mtd')] + [('py', c) for c in ('single', 'multi', 'td', 'mtd')]
    for mode, cls in cfg:
        if mode == 'py' and cls == 'single' and tier == 'quick':
            continue
        out.append(dict(name='domain-%s-%s' % (cls, mode), mode=mode, fn='domain', kw=dict(tier=tier, seed=seed, cls=cls, mode=mode), cost=10))
        out.append(dict(name='density-%s-%s' % (cls, mode), mode=mode, fn='density', kw=dict(tier=tier, seed=seed, cls=cls, mode=mode), cost=15))
        out.append(dict(name='chain-%s-%s' % (cls, mode), mode=mode, fn='chain', kw=dict(tier=tier, cls=cls, mode=mode), cost=10))
    for cls in ('single', 'multi', 'td', 'mtd'):
        out.append(dict(name='adapt-%s' % cls, mode='c', fn='adapt', kw=dict(tier=tier, cls=cls), cost=12))
    for mode in ('c', 'py'):
        out.append(dict(name='learn-%s' % mode, mode=mode, fn='learn', kw=dict(tier=tier, mode=mode), cost=10))
    return out


def build(cls, n=1, alpha=None, jw=(0.2, 0.2), dc=False, jump='gauss', rate=0.3, window=10 ** 9, learning=10 ** 9, pj=0.3, **more):
    import MTfit.algorithms.markov_chain_monte_carlo as m
    kw = dict(learning_length=learning, acceptance_rate_window=window, chain_length=10 ** 9, number_samples=1, initial_sample='none',
              min_acceptance_rate=rate, max_acceptance_rate=max(0.5, rate + 0.1))
    kw.update(more)
    if n > 1:
        kw['number_events'] = n
    if dc:
        kw['dc'] = True
    if cls in ('td', 'mtd'):
        kw.update(dc_sigma_g=jw[0], dc_sigma_d=jw[1], gaussian_jump_params=(jump == 'gauss'), dimension_jump_prob=pj)
    alg = getattr(m, CLS[cls])(**kw)
    if alpha is not None:
        if n > 1:
            alg.alpha = [dict(alg.alpha[e], **(alpha if isinstance(alpha, dict) else alpha[e])) for e in range(n)]
        else:
            alg.alpha = dict(alg.alpha, **alpha)
    alg.tx = alg.t0
    return alg


def place(alg, xi, dc, n):
    alg.xi = [dict(u) for u in xi] if n > 1 else dict(xi[0])
    alg.xi_1 = alg.xi
    alg.dc = list(dc) if n > 1 else dc[0]
    alg.ln_likelihood_xi = 0.
    alg.scale_factor_i = False
    alg._initialising = False


def split(alg, mts, n):
    """The proposals of one call: list over tries of (list over events of parameter dict, list of six-vectors)."""
    xs = alg.xi_1
    ev = xs if n > 1 else [xs]
    m = list(mts) if n > 1 else [mts]
    out = []
    tries = len(ev[0]) if isinstance(ev[0], list) else 1
    for t in range(tries):
        x = [(e[t] if isinstance(e, list) else e) for e in ev]
        v = [np.asarray(a, float).reshape(6, -1)[:, t] for a in m]
        out.append((x, v))
    return out


def val(x, k):
    v = np.asarray(x[k], float).ravel()
    return float(v[0]) if v.size == 1 else float('nan')


def in_domain(x):
    g, d, k, h, s = (val(x, q) for q in KEYS)
    return -PI / 6 <= g <= PI / 6 and -PI / 2 <= d <= PI / 2 and 0 <= k < 2 * PI and 0 <= h <= 1 and -PI / 2 <= s <= PI / 2


def judge(R, key, alg, mts, n, xi, dc, can_jump, data):
    """All domain requirements on one call's proposals; returns the split proposals (None if malformed)."""
    try:
        props = split(alg, mts, n)
    except Exception as e:
        R.check(False, key + '|shape', 'proposal and its tensors do not fit: %r' % e, data)
        return None
    for t, (x, v) in enumerate(props):
        for e in range(n):
            y = x[e]
            tag = dict(data, proposed=y, event=e, attempt=t)
            vals = {k: val(y, k) for k in KEYS}
            ok = in_domain(y)
            R.check(ok, key + '|range', '' if ok else 'proposed state outside the domain: %s' % vals, tag)
            want = geo.tape6(*[vals[k] for k in KEYS])
            ok = abs(float(np.dot(v[e], v[e])) - 1) < 1e-12 and np.abs(v[e] - want).max() < 1e-9
            R.check(ok, key + '|tensor', '' if ok else 'tensor %s of %s (norm %r), expected %s' % (v[e], vals, float(np.sqrt(np.dot(v[e], v[e]))), want), tag)
            isdc = vals['gamma'] == 0 and vals['delta'] == 0
            if isdc:
                tr, dt = float(v[e][0] + v[e][1] + v[e][2]), np.linalg.det(geo.m33(v[e]))
                R.check(abs(tr) < 1e-12 and abs(dt) < 1e-12, key + '|dc-tensor', 'double-couple proposal with non-zero trace or determinant', tag)
            if not can_jump:
                ok = isdc == bool(dc[e])
                R.check(ok, key + '|model', '' if ok else 'model changed without a jump: %s from %s' % (vals, xi[e]), tag)
            elif isdc != bool(dc[e]):
                ok = all(vals[k] == val(xi[e], k) for k in ('kappa', 'h', 'sigma'))
                R.check(ok, key + '|jump-orientation', '' if ok else 'the jump changed strike, dip or slip: %s from %s' % (vals, xi[e]), tag)
    return props


def mt_lattice(tier):
    G = (-PI / 6, 0.1, PI / 6)
    D = (-PI / 2, -0.3, PI / 2)
    K = (0., 2.2, 2 * PI - 1e-9)
    H = (0., 0.4, 1.)
    S = (-PI / 2, 0.2, PI / 2)
    full = list(itertools.product(G, D, K, H, S))
    if tier == 'thorough':
        return [st(g, d, h, s, k) for g, d, k, h, s in full]
    # every pair of values of every two parameters (orthogonal array of strength 2 by modular sums)
    return [st(G[a], D[b], H[c], S[(a + b + c) % 3], K[(a + 2 * b + c) % 3]) for a, b, c in itertools.product(range(3), repeat=3)]


TAILS = [1e-300, 1e-12, 1e-6, 0.01, 0.2, 0.5 - 1e-13, 0.5, 0.5 + 1e-13, 0.8, 0.99, 1 - 1e-6, 1 - 1e-12, 1 - 2.0 ** -53]


def nodes(seed):
    from mc import seam
    out = [seam.Node(min(max(q, 0.), 1 - 2.0 ** -53), float(ndtri(q))) for q in TAILS]
    out += [seam.Node(0.0, -1e-17), seam.Node(0.37, 1e-17), seam.Node(0.61, -6.5), seam.Node(0.62, 7.9), seam.Node(0.11, 25.), seam.Node(0.13, -25.)]
    out.append(seam.Node(*((lambda u: (u, float(ndtri(u))))((0.317 + 0.271 * seed) % 1))))
    return out


def domain(R, tier, seed, cls, mode):
    """Every state, every width, each draw (and each pair of draws) of a proposal set to every extreme value in turn."""
    from mc import seam
    seam.install()
    N = nodes(seed)
    base = [seam.Node(0.999, 0.1 * ((i * 7) % 5 - 2)) for i in range(60)]
    trans = cls in ('td', 'mtd')
    sts = mt_lattice(tier)
    dcs = [st(0., 0., h, s, k) for h, s, k in itertools.product((0., 0.4, 1.), (-PI / 2, 0.2, PI / 2), (0., 2.2, 2 * PI - 1e-9))]
    for w, alpha in enumerate(WIDTHS):
        for constrained in (False, True):
            if constrained and trans:
                continue
            for n in (1, 2):
                alg = build(cls, n=n, alpha=alpha, dc=constrained, jw=JW[w % 3], pj=0.3, jump='gauss' if w < 3 else 'flat')
                pool = dcs if constrained else sts + (dcs[::2] if trans else [])
                if n == 2:
                    pool = pool[w % 3::3]
                for si, x0 in enumerate(pool):
                    xi = [x0, dict(pool[(si * 5 + 3) % len(pool)])][:n]
                    dc = [u['gamma'] == 0 and u['delta'] == 0 for u in xi]
                    place(alg, xi, dc, n)
                    seam.S.reset(list(base), limit=20000)
                    ok, mts = R.call('domain|%s' % cls, alg.new_sample)
                    R.state()
                    if not ok:
                        continue
                    data = dict(cls=cls, xi=xi, alpha=alpha, n=n, constrained=constrained)
                    judge(R, 'domain|%s' % cls, alg, mts, n, xi, dc, trans, data)
                    nd = min(seam.S.i, 12 if n == 1 else 24)
                    todo = [((i, a),) for i in range(nd) for a in range(len(N))]
                    if tier == 'thorough' or si % 9 == w:
                        todo += [((i, a), (j, b)) for i, j in ((0, 1), (0, 2), (1, 2), (0, 3)) for a in range(0, len(N), 2) for b in range(1, len(N), 2)]
                    for combo in todo:
                        tape = list(base)
                        for i, a in combo:
                            tape[i] = N[a]
                        place(alg, xi, dc, n)
                        seam.S.reset(tape, limit=20000)
                        R.state()
                        ok, mts = R.call('domain|%s' % cls, alg.new_sample)
                        if ok:
                            judge(R, 'domain|%s' % cls, alg, mts, n, xi, dc, trans, dict(data, draws=[(i, N[a].u, N[a].n) for i, a in combo]))
    seam.uninstall()


# ---- distribution of the proposals -----------------------------------------------------------------------------------
def cdf_tg(x, m, s, lo, hi):
    return (ndtr((x - m) / s) - ndtr((lo - m) / s)) / (ndtr((hi - m) / s) - ndtr((lo - m) / s))


def cdf_wrapped(x, m, s):
    """P(wrapped draw in [0, x]) for kappa = (m + s n) mod 2 pi."""
    out = np.zeros_like(x)
    for k in range(-6, 7):
        out += ndtr((x + 2 * PI * k - m) / s) - ndtr((2 * PI * k - m) / s)
    return out


def ks(u):
    u = np.sort(u)
    n = len(u)
    i = np.arange(n)
    return max(np.abs(u - i / n).max(), np.abs(u - (i + 1) / n).max())


def pair_discrepancy(u, v):
    """Largest difference between the empirical and the uniform probability of a box [0,a]x[0,b], on a 10x10 grid."""
    g = np.arange(1, 10) / 10.
    A = (u[:, None] <= g).astype(float)
    B = (v[:, None] <= g).astype(float)
    return float(np.abs(A.T.dot(B) / len(u) - np.outer(g, g)).max())


TOL1, TOL2 = 0.012, 0.02
_NETS = {}


def net(d, m, seed):
    from scipy.stats import qmc
    if (d, m) not in _NETS:
        p = qmc.Sobol(d, scramble=True, seed=977 + seed).random_base2(m)
        _NETS[(d, m)] = np.clip(p, 1e-12, 1 - 1e-12)
    return _NETS[(d, m)]


def uniforms(x, xi, al, jumped, jw):
    """Probability integral transforms of the free parameters of a proposal."""
    out = {}
    if jumped == 'up':
        for k, s in zip(('gamma', 'delta'), jw):
            out[k] = cdf_tg(x[k], 0., s, *LIMITS[k])
        return out
    for k in KEYS:
        if k == 'kappa':
            out[k] = cdf_wrapped(x[k], xi[k], al[k])
        elif k in ('h', 'sigma') or not jumped == 'dc':
            out[k] = cdf_tg(x[k], xi[k], al[k], *LIMITS[k])
    return out


def density(R, tier, seed, cls, mode):
    """Push a low-discrepancy net of draws through the proposal and compare with the density the acceptance rule assumes."""
    from mc import seam
    M = {'quick': 13 if mode == 'c' else 12, 'thorough': 15}[tier]
    trans, multi = cls in ('td', 'mtd'), cls in ('multi', 'mtd') and mode == 'c'
    D = 90 if multi else 44
    states = [st(0.1, -0.3, 0.4, 0.2, 2.2), st(PI / 6, -PI / 2, 0., PI / 2, 0.), st(-0.4, 1.2, 0.93, -1.3, 6.1)]
    if tier == 'thorough':
        states += [st(-PI / 6, PI / 2, 1., -PI / 2, 5.9), st(0.5, 0., 0.05, 1.1, 3.1)]
    dcs = [st(0., 0., 0.4, 0.2, 2.2), st(0., 0., 1., -PI / 2, 6.2)]
    P = net(D, M, seed)
    seam.install()
    cases = []
    for w, alpha in enumerate(WIDTHS):
        for i, x0 in enumerate(states):
            if (w + i) % 2 == 0 or tier == 'thorough':
                cases.append(('shift', alpha, [x0], JW[0]))
        for i, x0 in enumerate(dcs):
            if (w + i) % 2 == 0 or tier == 'thorough':
                cases.append(('dc', alpha, [x0], JW[0]))
        if w < 2:
            cases.append(('shift', alpha, [states[w], states[2]], JW[0]))
    if trans:
        for jw in JW:
            cases.append(('up', WIDTHS[1], [dcs[0]], jw))
        cases.append(('up', WIDTHS[1], [dcs[0], dcs[1]], JW[1]))
    for kind, alpha, xi, jw in cases:
        n = len(xi)
        al2 = [alpha, dict(alpha, h=alpha['h'] * 0.5, sigma=alpha['sigma'] * 0.7)][:n]
        alg = build(cls, n=n, alpha=al2 if n > 1 else alpha, dc=(kind == 'dc' and not trans), jw=jw, pj=1.0 if kind == 'up' else 1e-9, rate=0.4)
        dc = [kind in ('dc', 'up')] * n
        data = dict(cls=cls, kind=kind, alpha=alpha, xi=xi, jw=jw)
        res = {}
        bad = False
        for p in P:
            place(alg, xi, dc, n)
            seam.S.reset(p, limit=20000)
            R.state()
            ok, mts = R.call('density|%s|%s' % (cls, kind), alg.new_sample)
            if not ok:
                bad = True
                break
            for t, (x, v) in enumerate(split(alg, mts, n)):
                for e in range(n):
                    res.setdefault((t, e), []).append([val(x[e], k) for k in KEYS])
        if bad:
            continue
        # several events share the net's dimensions: more draws per point, and the first ones matter most
        allu = {}
        for (t, e), rows in res.items():
            a = np.array(rows)
            x = dict(zip(KEYS, a.T))
            u = uniforms(x, xi[e], al2[e], kind if kind != 'shift' else '', jw)
            for k, q in u.items():
                allu[(t, e, k)] = q
                d = ks(q)
                R.outcome('ks', round(d, 4))
                # without redraws the net gives every stratum of a draw once
                tol = 0.004 if alpha is WIDTHS[2] and xi[0] is states[0] and kind == 'shift' and n == 1 else TOL1 + 0.9 / math.sqrt(len(q))
                R.check(d < tol, 'density|%s|%s|%s' % (cls, kind, k),
                        'distribution of %s about %s differs from the truncated Gaussian of width %s by %.4f (Kolmogorov-Smirnov, %d draws, try %d, event %d)'
                        % (k, xi[e].get(k), al2[e].get(k), d, len(q), t, e), data)
        for (p, q) in itertools.combinations(sorted(allu), 2):
            if len(allu[p]) != len(allu[q]):
                continue
            d = pair_discrepancy(allu[p], allu[q])
            R.check(d < TOL2 + 0.9 / math.sqrt(len(allu[p])), 'independence|%s|%s' % (cls, kind),
                    'proposed %s and %s are not independent: %.4f' % (p, q, d), data)
    seam.uninstall()


# ---- proposals along chains --------------------------------------------------------------------------------------------
def chain(R, tier, cls, mode):
    """All histories of (jump or not, accept or reject) from every start model: the proposals follow the state reached."""
    from mc import seam
    from MTfit.probability import LnPDF
    seam.install()
    trans, multi = cls in ('td', 'mtd'), cls in ('multi', 'mtd')
    A = [st(0.2, -0.4, 0.3, 0.5, 1.), st(-0.1, 0.6, 0.8, -0.7, 4.), st(0.3, 1.0, 0.5, 0.1, 6.)]
    B = [st(0., 0., 0.3, 0.5, 1.), st(0., 0., 0.8, -0.7, 4.), st(0., 0., 0.5, 0.1, 6.)]
    for n in (1, 2, 3):
        depth = {1: 4, 2: 3, 3: 2}[n] + (1 if tier == 'thorough' and n < 3 else 0)
        if not trans:
            depth = min(depth, 3)
        if n == 2 and tier == 'quick' and (cls, mode) not in (('mtd', 'c'), ('td', 'py')):
            depth = 2
        starts = list(itertools.product((False, True), repeat=n)) if trans else [(False,) * n, (True,) * n]
        steps = [(j, acc) for j in (itertools.product((False, True), repeat=n) if trans else [(False,) * n]) for acc in (0, 1, None)]
        if not (multi and mode == 'c') or n > 1 and tier == 'quick':
            steps = [s for s in steps if s[1] != 1]
        for start in starts:
            for hist in itertools.product(steps, repeat=depth):
                for learning in ((True, False) if n == 1 or tier == 'thorough' else (sum(map(len, map(repr, hist))) % 2 == 0,)):
                    alg = build(cls, n=n, alpha=WIDTHS[0], dc=(start[0] and not trans), pj=0.3, learning=10 ** 9 if learning else 0)
                    if not learning:
                        alg._tried = 7
                        alg._accepted = 3
                    xi = [(B if d else A)[e] for e, d in enumerate(start)]
                    dc = list(start)
                    place(alg, xi, dc, n)
                    data = dict(cls=cls, start=start, history=hist, n=n, learning=learning)
                    for k, (jmp, acc) in enumerate(hist):
                        R.state()
                        us = Tape(jmp, trans, n, multi and mode == 'c')
                        seam.S.reset(us, limit=20000)
                        if k == 0:
                            ok, mts = R.call('chain|%s' % cls, alg.new_sample)
                        else:
                            tries = len(props)
                            lp = [-np.inf] * tries
                            if last is not None:
                                lp[min(last, tries - 1)] = 900. * (k + 1)
                            us.first = True
                            ok, r = R.call('chain|%s' % cls, alg.iterate, {'ln_pdf': LnPDF(np.array([lp])), 'moment_tensors': None, 'n': tries})
                            if not ok:
                                break
                            mts = r[0]
                            cur = alg.xi if n > 1 else [alg.xi]
                            want = props[min(last, tries - 1)][0] if last is not None else xi
                            R.check(all(val(a, q) == val(b, q) for a, b in zip(cur, want) for q in KEYS), 'chain|%s|state' % cls,
                                    'state after the step %s is not the %s' % (last, 'accepted proposal' if last is not None else 'previous state'), data)
                            xi = [{q: val(u, q) for q in KEYS} for u in cur]
                            dc = [u['gamma'] == 0 and u['delta'] == 0 for u in xi]
                        if not ok:
                            break
                        props = judge(R, 'chain|%s' % cls, alg, mts, n, xi, dc, trans, dict(data, step=k))
                        if props is None:
                            break
                        if trans:
                            for x, v in props[:1]:
                                for e in range(n):
                                    isdc = val(x[e], 'gamma') == 0 and val(x[e], 'delta') == 0
                                    kept = all(val(x[e], q) == val(xi[e], q) for q in ('kappa', 'h', 'sigma'))
                                    R.check((isdc != dc[e]) == kept, 'chain|%s|jump-orientation' % cls,
                                            'event %d: %s from %s is neither a jump nor a shift' % (e, x[e], xi[e]), data)
                        last = acc
    seam.uninstall()


class Tape(object):
    """A tape of draws that picks the jumps: the uniform draws of a proposal select jump (0.0001) or shift (0.9)."""

    def __init__(self, jumps, trans, n, multi):
        self.jumps, self.n, self.k = jumps, n, 0
        self.first = False
        self.c = 0

    def __len__(self):
        return 10 ** 6

    def __getitem__(self, i):
        from mc import seam

        class Pick(seam.Node):
            u = property(lambda me: self.uniform())
            n = property(lambda me: self.normal())
        return Pick.__new__(Pick)

    def uniform(self):
        j = self.jumps[self.k % len(self.jumps)]
        self.k += 1
        return 1e-4 if j else 0.9

    def normal(self):
        self.c += 1
        return float(ndtri((self.c * 0.6180339887498949 + 0.137) % 1.0))



# ---- width adaptation ---------------------------------------------------------------------------------------------------
RATES = [0., 0.01, 0.05, 0.12, 0.29, 0.3, 0.4, 0.5, 0.51, 0.75, 0.99, 1.]
GAUSS = ('gamma', 'delta', 'kappa', 'h', 'sigma')


def widths_ok(R, key, alg, before, base, mx, trans, data):
    al = alg.alpha if isinstance(alg.alpha, list) else [alg.alpha]
    for e, a in enumerate(al):
        if not isinstance(a, dict):
            R.check(False, key + '|type', 'widths are %r' % (a,), data)
            return
        for k in GAUSS + (('gamma_dc', 'delta_dc') if trans else ()):
            if k not in a:
                R.check(False, key + '|lost', 'the width %s is no longer there' % k, dict(data, widths=a))
                continue
            v = a[k]
            R.check(v > 0 and math.isfinite(v), key + '|positive', 'width %s = %r' % (k, v), dict(data, event=e))
            if k in mx:
                R.check(v <= max(mx[k], base[e][k]) * (1 + 1e-12) and (v <= mx[k] * (1 + 1e-12) or v <= before[e].get(k, 0) * (1 + 1e-12)), key + '|maximum',
                        'width %s raised to %r, above its maximum %r' % (k, v, mx[k]), dict(data, event=e))


def consistent_norm(R, key, alg, data):
    """The normalisation of the balancing draw goes with its widths."""
    for a in alg.alpha if isinstance(alg.alpha, list) else [alg.alpha]:
        if all(k in a for k in ('gamma_dc', 'delta_dc', 'proposal_normalisation')):
            g, d = a['gamma_dc'], a['delta_dc']
            want = (1 - 2 * ndtr(-PI / 6 / g)) * (1 - 2 * ndtr(-PI / 2 / d))
            R.check(abs(a['proposal_normalisation'] - want) < 1e-9 * want, key + '|normalisation', 'normalisation of the balancing draw %r, expected %r'
                    % (a['proposal_normalisation'], want), data)
        else:
            R.check(False, key + '|lost', 'balancing widths or their normalisation are no longer there', data)


def adapt(R, tier, cls):
    """All sequences of window acceptance rates, to a depth and then periodically for hundreds of windows."""
    trans = cls in ('td', 'mtd')
    depth = 4 if tier == 'quick' else 5
    for n in (1, 2):
        alg0 = build(cls, n=n, jw=(0.15, 0.4), window=100)
        base0 = dict(alg0.__dict__)
        mx = dict(alg0.max_alpha)
        starts = [None]
        if n == 2:
            starts.append('distinct')
        for start in starts:
            al = copy.deepcopy(alg0.alpha)
            if start:
                al = [dict(a, gamma=0.01 * (i + 1), h=0.4 / (i + 1)) for i, a in enumerate(al)]
            base = [dict(a) for a in (al if n > 1 else [al])]
            seqs = list(itertools.product(range(len(RATES)), repeat=depth if n == 1 else depth - 1))
            longs = [p for m in (1, 2) for p in itertools.product(range(len(RATES)), repeat=m)]
            if tier == 'thorough':
                longs += list(itertools.product(range(len(RATES)), repeat=3))
            else:
                longs += [p for p in itertools.product((0, 2, 5, 9, 11), repeat=3)]
            for first in (None, 0.004, 0.3, 0.9, 1.0):
                if first is not None and n > 1:
                    continue
                for lng, pool in ((False, seqs if first is None else seqs[::37]), (True, longs)):
                    for seq in pool:
                        for k in list(alg0.__dict__):
                            if k not in base0:
                                del alg0.__dict__[k]
                        alg0.__dict__.update(base0)
                        alg0.alpha = copy.deepcopy(al)
                        data = dict(cls=cls, n=n, rates=[RATES[i] for i in seq], repeated=lng, first=first)
                        rs = [RATES[i] for i in seq] * (1 if not lng else 300 if tier == 'thorough' else 120)
                        if first is not None:
                            R.call('adapt|%s' % cls, alg0._modify_acceptance_rate, first)
                        good = True
                        for i, r in enumerate(rs):
                            before = alg0.alpha if n > 1 else [alg0.alpha]
                            c = int(round(r * 100))
                            alg0._learning_accepted = [1] * c + [0] * (100 - c)
                            R.state()
                            try:
                                alg0._modify_acceptance_rate()
                            except Exception as ex:
                                R.check(False, 'adapt|%s|raises' % cls, 'adapting the widths raised %r' % ex, data)
                                good = False
                                break
                            nv = len(R.violations)
                            if not lng or i < 12 or i % 8 == 0 or i == len(rs) - 1:
                                widths_ok(R, 'adapt|%s' % cls, alg0, before, base, mx, trans, data)
                            if len(R.violations) > nv:
                                good = False
                                break
                        if good and trans:
                            consistent_norm(R, 'adapt|%s' % cls, alg0, data)


def learn(R, tier, mode):
    """The adaptation in its place: every accept/reject history of the learning period, with windows of 2 and 3 proposals."""
    from mc import seam
    from MTfit.probability import LnPDF
    seam.install()
    D = 8 if tier == 'quick' else 10
    for cls, n, window in itertools.product(('single', 'multi', 'td', 'mtd'), (1, 2), (2, 3)):
        trans = cls in ('td', 'mtd')
        if n == 2 and window == 3:
            continue
        for hist in itertools.product((0, 1), repeat=D - 2 * (n - 1)):
            alg = build(cls, n=n, window=window, learning=D + 3 if sum(hist) % 2 else 2, jw=(0.15, 0.4), pj=0.5)
            mx = dict(alg.max_alpha)
            base = [dict(a) for a in (alg.alpha if n > 1 else [alg.alpha])]
            xi = [st(0.2, -0.4, 0.3, 0.5, 1.), st(-0.1, 0.6, 0.8, -0.7, 4.)][:n]
            place(alg, xi, [False] * n, n)
            seam.S.reset([], limit=200000)
            data = dict(cls=cls, n=n, window=window, history=hist)
            ok, mts = R.call('learn|%s' % cls, alg.new_sample)
            before = [dict(a) for a in (alg.alpha if n > 1 else [alg.alpha])]
            for k, acc in enumerate(hist):
                if not ok:
                    break
                R.state()
                tries = len(split(alg, mts, n))
                lp = np.full((1, tries), -np.inf)
                if acc:
                    lp[0, k % tries] = 800. * (k + 1)
                ok, r = R.call('learn|%s' % cls, alg.iterate, {'ln_pdf': LnPDF(lp), 'moment_tensors': None, 'n': tries})
                if not ok:
                    break
                mts = r[0]
                widths_ok(R, 'learn|%s' % cls, alg, before, base, mx, trans, dict(data, step=k))
                cur = alg.xi if n > 1 else [alg.xi]
                dc = [val(u, 'gamma') == 0 and val(u, 'delta') == 0 for u in cur]
                judge(R, 'learn|%s' % cls, alg, mts, n, cur, dc, trans, dict(data, step=k))
                before = [dict(a) for a in (alg.alpha if n > 1 else [alg.alpha])]
    seam.uninstall()
