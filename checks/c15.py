"""C15 - joint multi-event posterior: per-event terms plus pairwise relative-amplitude terms."""
import itertools
import math
import os
import numpy as np
from mc import oracle as O
from checks import c01
from checks.c01 import coef, sources, observations, raw, quiet
from checks.c11 import block, coefficients, geometry, PHASE

ASSUMPTIONS = ['modelled amplitudes at shared stations are not exactly nodal (the scale of a nodal station is undefined)',
               'fractional errors of relative amplitudes are at most 0.9 (the moment formula of the estimator has no variance beyond that) and at least 1e-5 where the likelihood value is compared; the scale itself is compared down to zero error',
               'events evaluated with location samples and without marginalise_relative share the location records (co-located events), so the records are combined before marginalising and their weights enter once',
               'with several amplitude types a shared observation is a station with the same data type in both events']

LD = np.longdouble


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out.append(dict(name='scale-' + mode, mode=mode, fn='scale', kw=dict(tier=tier), cost=4))
        out.append(dict(name='overlap-' + mode, mode=mode, fn='overlap', kw=dict(tier=tier), cost=8))
        out.append(dict(name='many-' + mode, mode=mode, fn='many', kw=dict(tier=tier), cost=8))
        out.append(dict(name='location-' + mode, mode=mode, fn='location', kw=dict(tier=tier), cost=5))
        out.append(dict(name='types-' + mode, mode=mode, fn='types', kw=dict(tier=tier), cost=3))
        out.append(dict(name='inversion-' + mode, mode=mode, fn='inversion', kw=dict(tier=tier), cost=8))
    out.append(dict(name='moments', mode='c', fn='moments', kw=dict(tier=tier), cost=2))
    return out


# ---- oracle --------------------------------------------------------------------------------------------------------
def station_estimate(z, mx, my, px, py):
    """Mean and standard deviation of the scale of one station: the mixture (A S + B) N(S; m1, s1) + C N(S; 0, sx/mx)."""
    z, mx, my, px, py = [np.asarray(q, LD) for q in np.broadcast_arrays(z, np.abs(mx), np.abs(my), px, py)]
    sx, sy = px * mx, py * my
    with np.errstate(all='ignore'):
        m1 = my * z / mx
        v1 = (sy * sy * z * z + sx * sx) / (mx * mx)
        A = z * sy * sy / (mx * mx)
        B = my * sx * sx / mx ** 3
        C = np.sqrt(LD(2) / np.pi) * sx * sx * sy * np.exp(-my * my / (2 * sy * sy)) / (mx ** 3 * v1)
        D = A * m1 + B
        q = D / (D + C)
        md = m1 + A * v1 / D
        vd = v1 - (A * v1 / D) ** 2
        mu = q * md
        var = q * vd + (1 - q) * (sx / mx) ** 2 + q * (1 - q) * md * md
    return mu, np.sqrt(var)


def combine(mu, s, axis=0):
    w = 1 / (s * s)
    tot = w.sum(axis)
    return (w * mu).sum(axis) / tot, 1 / np.sqrt(tot)


def pair_term(zi, zj, mti, mtj, ai, aj, pi, pj):
    """(lo, hi) of the ln ratio term, and the scale with its deviation, (loc, n)."""
    pi = np.where(np.asarray(pi) == 0, 1e-24, np.abs(pi))
    pj = np.where(np.asarray(pj) == 0, 1e-24, np.abs(pj))
    mx, my = O.amplitudes(ai, mti), O.amplitudes(aj, mtj)
    z = np.abs(np.asarray(zi) / np.asarray(zj))
    mu, s = combine(*station_estimate(O.b3(z), mx, my, O.b3(pi), O.b3(pj)))
    mu, s = np.asarray(mu, float), np.asarray(s, float)
    r = O.ratio_ln(O.b3(z), mu * mx, my, O.b3(pi), O.b3(pj))
    slack = 1e-12 / np.minimum(O.b3(pi), O.b3(pj)) ** 2
    lo = np.where(r < -600, -np.inf, r - slack).sum(0)
    hi = np.where(r < -600, r + 1., r + slack).sum(0)
    return lo, hi, mu, s


def joint(mts, ds, rel, minimum, weights, nloc, shared):
    """Bounds on the joint log-probability of every tuple and the used pairs' scales.
    rel: per event None or (labels, a, z, err); shared: records combined before marginalising."""
    n = mts[0].shape[1]
    lo, hi = np.zeros((nloc if shared else 1, n)), np.zeros((nloc if shared else 1, n))
    for mt, d in zip(mts, ds):
        if d['pol'] is None and d['prob'] is None and d['ratio'] is None:
            continue
        l, h = O.ln_forward_bounds(mt, d['pol'], d['prob'], d['ratio'], d['w'], None if shared else weights, not shared)
        lo, hi = lo + l.reshape(-1, n), hi + h.reshape(-1, n)
    scales = {}
    for i in range(len(mts)):
        for j in range(i):
            if rel is None or rel[i] is None or rel[j] is None:
                continue
            common = [u for u in rel[i][0] if u in rel[j][0]]
            if len(common) < minimum or not common:
                continue
            ki, kj = [rel[i][0].index(u) for u in common], [rel[j][0].index(u) for u in common]
            l, h, mu, s = pair_term(rel[i][2][ki], rel[j][2][kj], mts[i], mts[j], rel[i][1][ki], rel[j][1][kj], rel[i][3][ki], rel[j][3][kj])
            lo, hi = lo + l, hi + h
            scales[(i, j)] = (mu, s)
    if shared:
        if weights is not None:
            lw = np.log(np.asarray(weights, float)).reshape(-1, 1)
            lo, hi = lo + lw, hi + lw
        lo, hi = O.lse(lo, 0), O.lse(hi, 0)
    return lo.reshape(-1), hi.reshape(-1), scales


# ---- running the real task -----------------------------------------------------------------------------------------
def task_of(mts, ds, rel, minimum, weights, nloc, return_zero, relative, marginalise, reuse=False, combine_flag=True):
    from MTfit.inversion import MultipleEventsForwardTask
    c = lambda x: x.copy() if isinstance(x, np.ndarray) else x
    cols = [[] for _ in range(12)]
    for d in ds:
        ap, sp = (c(d['pol'][0]), c(d['pol'][1])) if d['pol'] else (False, False)
        ab, pn = (c(d['prob'][0]), (c(d['prob'][1]), c(d['prob'][2]))) if d['prob'] else (False, (False, False))
        a1, a2, z, e1, e2 = [c(x) for x in d['ratio']] if d['ratio'] else [False] * 5
        w = (c(d['w']['pol']), c(d['w']['prob'])) if isinstance(d['w'], dict) else c(d['w'])
        for k, x in enumerate((ap, sp, a1, a2, z, e1, e2, ab, pn, w)):
            cols[k].append(x)
    ra, rz, re, rs = [], [], [], []
    for r in rel or []:
        if r is None:
            r = (False, False, False, False)
        rs.append(list(r[0]) if r[0] else False)
        ra.append(c(r[1]))
        rz.append(c(r[2]))
        re.append(c(r[3]))
    return MultipleEventsForwardTask([m.copy() for m in mts], cols[0], cols[1], cols[2], cols[3], cols[4], cols[5], cols[6], cols[7], cols[8],
                                     ra, rz, re, rs, list(weights) if weights is not None else False, cols[9], minimum_number_intersections=minimum,
                                     return_zero=return_zero, reuse=reuse, relative=relative, location_sample_size=nloc,
                                     marginalise_relative=marginalise, combine=combine_flag, extension_data=[])


def verify(R, key, res, mts, want, return_zero, relative, nloc, shared, data):
    lo, hi, scales = want
    E, n = len(mts), mts[0].shape[1]
    if not isinstance(res, dict):
        return R.fail(key + ':result', 'no result: %r' % (res,), data)
    if not R.check(res['n'] == n, key + ':n', 'reported %r tried tuples, %d were' % (res['n'], n), data):
        return
    got = res['moment_tensors']
    ln = raw(res['ln_pdf'])
    empty = not isinstance(got, list) or any(np.asarray(g).size == 0 for g in got)
    if return_zero:
        if empty or any(not np.array_equal(np.asarray(g, float), m) for g, m in zip(got, mts)):
            return R.fail(key + ':tensors', 'returned tensors differ from the batch', data)
        if not np.isfinite(lo).any() and np.all(ln == -np.inf):
            return
        cols = list(range(n))
    else:
        cols = []
        if not empty:
            got = [np.asarray(g, float) for g in got]
            if len(set(g.shape[1] for g in got)) != 1:
                return R.fail(key + ':tensors', 'events have different numbers of tensors', data)
            k = 0
            for i in range(got[0].shape[1]):
                while k < n and not (hi[k] > -np.inf and all(np.array_equal(m[:, k], g[:, i]) for m, g in zip(mts, got))):
                    k += 1
                if k == n:
                    return R.fail(key + ':tensors', 'a returned tuple is not a candidate of non-zero probability (or is out of order)', data)
                cols.append(k)
                k += 1
        missing = [j for j in range(n) if lo[j] > -550 and j not in cols]
        R.check(not missing, key + ':lost', 'tuples of non-zero probability were removed: %r' % (missing,), data)
        if not cols:
            return
    if ln.shape != (1, len(cols)):
        return R.fail(key + ':shape', 'log-probabilities have shape %r for %d tuples' % (ln.shape, len(cols)), data)
    ok = O.within(ln[0], lo[cols], hi[cols])
    R.trace(ok.size)
    if not ok.all():
        j = int(np.argwhere(~ok)[0][0])
        return R.fail(key + ':value', 'log-probability %r, the sum of event and pair terms gives [%r, %r]' % (ln[0, j], lo[cols][j], hi[cols][j]),
                      dict(data, tuple=[m[:, cols[j]] for m in mts]))
    if not relative:
        return
    sf = res.get('scale_factor')
    if not R.check(not isinstance(sf, bool) and sf is not None and len(sf) == len(cols), key + ':scale-shape', 'scale factors for %r of %d tuples' % (sf if isinstance(sf, bool) else len(sf), len(cols)), data):
        return
    for q, k in enumerate(cols):
        mu, sg = np.asarray(sf[q]['mu'], float).reshape(-1, E, E), np.asarray(sf[q]['sigma'], float).reshape(-1, E, E)
        for i in range(E):
            for j in range(i + 1):
                if i == j:
                    wm, ws = np.ones(len(mu)), np.zeros(len(mu))
                elif (i, j) in scales:
                    wm, ws = scales[(i, j)][0][:, k], scales[(i, j)][1][:, k]
                else:
                    wm, ws = np.zeros(len(mu)), np.zeros(len(mu))
                sel = np.isfinite(wm) & np.isfinite(ws)
                good = (np.abs(mu[:, i, j] - wm) <= 1e-8 * (np.abs(wm) + 1e-300)) & (np.abs(sg[:, i, j] - ws) <= 1e-7 * (np.abs(ws) + 1e-300))
                if not R.check(good[sel].all(), key + ':scale', 'scale factor of events %d,%d is %r +- %r, expected %r +- %r' % (i, j, mu[:, i, j], sg[:, i, j], wm, ws), data):
                    return


# ---- inputs --------------------------------------------------------------------------------------------------------
KINDS = [('pol',), ('ratio',), ('prob', 'ratio'), ('pol', 'ratio'), ('prob',), ('pol', 'prob'), ('pol', 'prob', 'ratio')]


def tuples(E, skip=()):
    mt = sources()
    keep = [i for i in range(mt.shape[1]) if i not in skip]
    mt = mt[:, keep]
    n = mt.shape[1]
    return [np.ascontiguousarray(mt[:, [(i * (2 * e + 1) + e * e) % n for i in range(n)] + [e % n]]) for e in range(E)]


def relative_data(labels, nloc, e, err, phase='p'):
    if not labels:
        return None
    k = np.array([int(u[1:]) for u in labels], float)
    z = (1 + 0.3 * k + 0.17 * e * k) * (1.0 + 2 * e)
    er = {'loose': 0.2 + 0.07 * k, 'mixed': np.where(k % 2 == 0, 0.02, 0.5) + 0.01 * e, 'tight': 0.004 * k + 0.002 * e}[err]
    return (list(labels), coef(labels, nloc, phase), z, er)


def ordered_subsets(names, maxlen):
    return [p for r in range(1, maxlen + 1) for p in itertools.permutations(names, r)]


def one(R, key, mts, ds, rel, minimum, weights, nloc, rz, relative, marg, data, reuse=None):
    want = joint(mts, ds, rel if relative else None, minimum, weights, nloc, not marg)
    if reuse is None:
        t = task_of(mts, ds, rel, minimum, weights, nloc, rz, relative, marg)
    else:
        t = reuse
        t.mts = [m.copy() for m in mts]
    R.state()
    ok, res = R.call(key, t)
    if ok:
        verify(R, key, res, mts, want, rz, relative, nloc, not marg, data)


def overlap(R, tier):
    """Two events: every pair of ordered station subsets, every minimum, filtering on/off."""
    full = tier != 'quick'
    names = ['S1', 'S2', 'S3']
    subs = ordered_subsets(names, 3)
    subs += [('S4', 'S1', 'S2', 'S3'), ('S3', 'S1', 'S4', 'S2'), ()]
    if full:
        subs += [p for p in itertools.permutations(['S1', 'S2', 'S3', 'S4'])]
    mts = tuples(2)
    for ki, kinds in enumerate([(('pol',), ('ratio',)), (('prob', 'ratio'), ('pol',))]):
        for err in ('loose', 'tight') if not full else ('loose', 'mixed', 'tight'):
            ds = [observations(kinds[e], (2, 1, 2)[:len(kinds[e])], 1, 'soft' if err == 'loose' else 'mixed', 'zero', bool(e)) for e in range(2)]
            for s0 in subs:
                for s1 in subs:
                    rel = [relative_data(s0, 1, 0, err), relative_data(s1, 1, 1, err)]
                    for minimum in (1, 2, 3, 4):
                        if not full and (len(s0) + len(s1) + ki + minimum) % 2:
                            continue
                        for rz in (True, False):
                            one(R, 'overlap', mts, ds, rel, minimum, None, 1, rz, True, False,
                                dict(kinds=kinds, stations=[s0, s1], minimum=minimum, errors=err, return_zero=rz))


LISTS = [(), ('S1', 'S2'), ('S2', 'S1', 'S3'), ('S3', 'S4'), ('S4', 'S3', 'S2', 'S1'), ('S5', 'S6'), ('S1',)]


def many(R, tier):
    """Two to four events with every choice of station lists, relative data on and off, re-used tasks."""
    full = tier != 'quick'
    for E in (2, 3, 4):
        mts = tuples(E)
        choices = list(itertools.product(range(len(LISTS)), repeat=E))
        step = 1 if E < 4 else 13
        if not full:
            step = {2: 1, 3: 2, 4: 37}[E]
        for c in choices[::step]:
            for err in ('loose', 'tight') if not full else ('loose', 'mixed', 'tight'):
                sig = 'hard' if (sum(c) % 5 == 0) else 'soft'
                ds = []
                for e in range(E):
                    k = KINDS[(e * 2 + c[0] + E) % len(KINDS)]
                    ds.append(observations(k, (3, 2)[:len(k)] if e % 2 else (1, 4)[:len(k)], 1, sig, 'each' if e % 2 else 'zero', bool(e % 2)))
                rel = [relative_data(LISTS[i], 1, e, err) for e, i in enumerate(c)]
                for minimum in (1, 2, 3) if full else (1 + sum(c) % 3,):
                    for relative in (True, False):
                        for rz in (True, False):
                            data = dict(events=E, lists=[LISTS[i] for i in c], errors=err, minimum=minimum, relative=relative, return_zero=rz, uncertainty=sig)
                            one(R, 'many', mts, ds, rel, minimum, None, 1, rz, relative, False, data)
        # one task used for several batches, as the Markov chain does
        for marg in (False, True):
            for c in choices[::max(1, len(choices) // 12)]:
                ds = [observations(KINDS[(e + c[0]) % len(KINDS)], (2, 3)[:len(KINDS[(e + c[0]) % len(KINDS)])], 1, 'soft', 'zero') for e in range(E)]
                rel = [relative_data(LISTS[i], 1, e, 'loose') for e, i in enumerate(c)]
                t = task_of(mts, ds, rel, 2, None, 1, True, True, marg, reuse=True)
                for sel in ([0], [3], list(range(9)), [1, 2], [4]):
                    m = [np.ascontiguousarray(x[:, sel]) for x in mts]
                    one(R, 'reuse', m, ds, rel, 2, None, 1, True, True, marg, dict(events=E, lists=[LISTS[i] for i in c], batch=sel, marginalise=marg), reuse=t)
    # the un-joined mode
    ds = [observations(('pol',), (2,), 1, 'soft', 'zero') for e in range(2)]
    mts = tuples(2)
    for relative in (True, False):
        for rz in (True, False):
            R.state()
            rel = [relative_data(LISTS[4], 1, e, 'loose') for e in range(2)]
            t = task_of(mts, ds, rel, 2, None, 1, rz, relative, False, combine_flag=False)
            try:
                t()
            except ValueError as e:
                R.fail('relative-loop', 'joint inversion with combine=False (relative_loop) raises %s' % e, dict(relative=relative, return_zero=rz))


def location(R, tier):
    """Location records: shared by the events, or marginalised for each event."""
    full = tier != 'quick'
    for E in (2, 3):
        mts = tuples(E)
        for nloc in (1, 2, 3):
            ws = c01.weight_sets(nloc, tier)
            for w in ws:
                for sig in ('soft', 'mixed', 'hard'):
                    for k0 in range(len(KINDS)):
                        ds = []
                        for e in range(E):
                            k = KINDS[(k0 + e) % len(KINDS)]
                            ds.append(observations(k, (2, 3)[:len(k)], nloc, sig, 'each' if e else 'zero', bool(e)))
                        for relative, marg in ((True, False), (False, False), (False, True)):
                            lists = [(LISTS[1], LISTS[2], LISTS[4]), (LISTS[4], LISTS[5], LISTS[2]), (LISTS[2], LISTS[2], LISTS[1])]
                            for L in lists if relative else lists[:1]:
                                rel = [relative_data(L[e], nloc, e, 'loose' if sig == 'soft' else 'tight') for e in range(E)]
                                for rz in (True, False):
                                    one(R, 'location', mts, ds, rel, 2, w, nloc, rz, relative, marg,
                                        dict(events=E, locations=nloc, weights=w, uncertainty=sig, kinds=k0, relative=relative, marginalise=marg, lists=L[:E], return_zero=rz))


def amplitude_event(types, names, e):
    """Event dictionary of absolute and amplitude data; per type a list of stations."""
    d = {'UID': 'ev%d' % e}
    for k, nm in zip(types, names):
        if not nm:
            continue
        n = np.array([int(u[1:]) for u in nm], float)
        ph = 1 + sum(ord(x) for x in k) % 3
        d[k] = {'Stations': {'Name': list(nm), 'Azimuth': np.matrix([geometry(u, -1)[0] for u in nm]).T, 'TakeOffAngle': np.matrix([geometry(u, -1)[1] for u in nm]).T},
                'Measured': np.matrix((1 + 0.2 * n + 0.1 * e * n) * ph * (1 + e)).T, 'Error': np.matrix(0.3 + 0.05 * n + 0.02 * e).T}
    return d


def amplitude_oracle(d, recs=(-1,)):
    lab, a, z, er = [], [], [], []
    for k in sorted(x for x in d if 'mplitude' in x and 'Ratio' not in x):
        ph = 'p' if k.startswith('P') else 'sh' if k.startswith('SH') else 'sv'
        for u, m, e in zip(d[k]['Stations']['Name'], np.asarray(d[k]['Measured']).flatten(), np.asarray(d[k]['Error']).flatten()):
            lab.append((u, k))
            a.append([coefficients(*(geometry(u, r) + (ph,))) for r in recs])
            z.append(abs(m))
            er.append(e / abs(m))
    return (lab, np.array(a), np.array(z), np.array(er)) if lab else None


def types(R, tier):
    """Several amplitude types, through the function that builds the observation matrices."""
    from MTfit.inversion import relative_amplitude_ratio_matrix
    K = ('PAmplitude', 'SHAmplitude', 'SVRMSAmplitude')
    S = [(), ('S1', 'S2', 'S3'), ('S3', 'S1', 'S2'), ('S2', 'S4')]
    mts = tuples(2, skip=(2,))
    ds = [observations(('pol',), (2,), 1, 'soft', 'zero') for e in range(2)]
    per = list(itertools.product(range(4), repeat=3))
    per = [p for p in per if any(p)]
    step = 5 if tier == 'quick' else 1
    for a, b in list(itertools.product(per, per))[::step]:
        ev = [amplitude_event(K, [S[i] for i in c], e) for e, c in enumerate((a, b))]
        rel, real = [], []
        for d in ev:
            ok, m = R.call('matrix', relative_amplitude_ratio_matrix, {k: v for k, v in d.items()})
            if not ok:
                return
            real.append((m[3], m[0], m[1], m[2]))
            rel.append(amplitude_oracle(d))
        shared = len([u for u in rel[0][0] if u in rel[1][0]])
        names = len(set(u[0] for u in rel[0][0] if u in rel[1][0]))
        for minimum in (1, 2):
            if (shared >= minimum) != (names >= minimum):
                continue      # whether a station observed in two phases counts once or twice is not stated
            want = joint(mts, ds, rel, minimum, None, 1, True)
            t = task_of(mts, ds, real, minimum, None, 1, True, True, False)
            R.state()
            ok, res = R.call('types', t)
            if ok:
                verify(R, 'types', res, mts, want, True, True, 1, True, dict(types=[[(k, S[i]) for k, i in zip(K, c)] for c in (a, b)], minimum=minimum))


def scale(R, tier):
    """The relative amplitude term itself: per-station estimates, their combination, station order, vanishing errors."""
    from MTfit.probability.probability import relative_amplitude_ratio_ln_pdf
    full = tier != 'quick'
    mt = sources()
    names = ['S%d' % i for i in range(1, 8)]
    ca = coef(names, 1, 'p')
    ids = np.arange(1, 8, dtype=float)
    n = mt.shape[1]
    f = lambda key, zi, zj, i, j, st, pi, pj: R.call(key, relative_amplitude_ratio_ln_pdf, np.array(zi, float), np.array(zj, float),
                                                    np.ascontiguousarray(mt[:, [i]]), np.ascontiguousarray(mt[:, [j]]),
                                                    np.ascontiguousarray(ca[st]), np.ascontiguousarray(ca[st]), np.array(pi, float), np.array(pj, float))
    grid = (0., 1e-12, 1e-8, 1e-6, 1e-4, 1e-2, 0.1, 0.5, 0.9)
    lattice = [(a, b) for a in grid for b in grid]
    for i in range(n):
        for j in range(n):
            if i == j and i % 2:
                continue
            for true in (1e-3, 1., 30.):
                x = true * np.abs(O.amplitudes(ca, mt[:, [i]]))[:, 0, 0]
                y = np.abs(O.amplitudes(ca, mt[:, [j]]))[:, 0, 0]
                for li, (a, b) in enumerate(lattice):
                    if not full and (li + i + j) % 3:
                        continue
                    st = [(i + j + t) % 7 for t in range(4)]
                    for mismatch in (0., 0.3):
                        if mismatch and (a < 1e-4 or b < 1e-4):
                            continue
                        f0 = 1 + mismatch * np.cos(ids + i)
                        pi, pj = a * (1 + 0.1 * ids), b * (1 + 0.05 * ids)
                        pi, pj = np.minimum(pi, 0.95), np.minimum(pj, 0.95)
                        R.state()
                        data = dict(sources=(i, j), scale=true, errors=(a, b), stations=st, mismatch=mismatch)
                        singles = []
                        for s in st:
                            ok, r = f('scale', [x[s] * f0[s]], [y[s]], i, j, [s], [pi[s]], [pj[s]])
                            if not ok:
                                return
                            m, sd = float(r[1][0, 0]), float(r[2][0, 0])
                            amp = O.amplitudes(ca[[s]], mt)[0, 0]
                            wm, wsd = station_estimate(x[s] * f0[s] / y[s], amp[i], amp[j], pi[s] or 1e-24, pj[s] or 1e-24)
                            R.check(abs(m - wm) <= 1e-9 * abs(wm) and abs(sd - wsd) <= 1e-7 * wsd, 'scale:station', 'station estimate %r +- %r, expected %r +- %r' % (m, sd, float(wm), float(wsd)), data)
                            singles.append((m, sd))
                        if not all(np.isfinite(q).all() and q[1] > 0 for q in map(np.array, singles)):
                            R.fail('scale:undefined', 'no scale estimate: %r' % (singles,), data)
                            continue
                        m, sd = np.array(singles).T
                        wm, wsd = combine(np.asarray(m, LD), np.asarray(sd, LD))
                        res = []
                        for perm in (itertools.permutations(range(4)) if (full or li % 9 == 0) else [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]):
                            q = [st[k] for k in perm]
                            ok, r = f('scale', x[q] * f0[q], y[q], i, j, q, pi[q], pj[q])
                            if not ok:
                                return
                            res.append((float(r[1][0, 0]), float(r[2][0, 0]), float(r[0][0, 0])))
                        for r in res:
                            if not R.check(abs(r[0] - wm) <= 1e-9 * wm and abs(r[1] - wsd) <= 1e-9 * wsd, 'scale:combination',
                                           'scale %r +- %r, inverse-variance combination of the stations is %r +- %r' % (r[0], r[1], float(wm), float(wsd)), data):
                                break
                        l = np.array([r[2] for r in res])
                        if a >= 1e-4 and b >= 1e-4:
                            tol = 1e-9 + 1e-12 / min(a, b) ** 2
                            same = (np.abs(l - l[0]) <= tol * max(1., abs(l[0]))) | (l == l[0])
                            R.check(same.all(), 'scale:order', 'likelihood depends on the station order', dict(data, values=l))
                        if not mismatch:
                            # all stations agree on the true ratio
                            p = max(a, b)
                            R.check(abs(res[0][0] / true - 1) <= 8 * p * p + 1e-9 if p <= 0.1 else True, 'scale:limit', 'scale %r, the true amplitude ratio is %r' % (res[0][0], true), data)
                            R.check(res[0][1] <= 3 * max(1., true) * max(p, 1e-23), 'scale:sigma', 'the scale uncertainty does not vanish: %r' % res[0][1], data)


def moments(R, tier):
    """Bind the oracle: the closed-form moments against brute-force quadrature of the mixture."""
    from scipy.integrate import quad
    for z in (0.2, 1., 7.):
        for mx in (0.3, 1.):
            for my in (0.5, 2.):
                for px in (0.05, 0.4, 0.9):
                    for py in (0.05, 0.4, 0.8):
                        R.state()
                        sx, sy = px * mx, py * my
                        m1, s1 = my * z / mx, math.sqrt(sy * sy * z * z + sx * sx) / mx
                        A, B = z * sy * sy / mx ** 2, my * sx * sx / mx ** 3
                        C = math.sqrt(2 / math.pi) * sx * sx * sy * math.exp(-my * my / (2 * sy * sy)) / (mx ** 3 * s1 * s1)
                        g = lambda t, m, s: math.exp(-0.5 * ((t - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))
                        mom = [quad(lambda t: t ** k * (A * t + B) * g(t, m1, s1), m1 - 12 * s1, m1 + 12 * s1, limit=200, epsabs=0, epsrel=1e-11)[0] +
                               quad(lambda t: t ** k * C * g(t, 0, px), -12 * px, 12 * px, limit=200, epsabs=1e-14, epsrel=1e-11)[0] for k in range(3)]
                        mu, s = station_estimate(z, mx, my, px, py)
                        v = mom[2] / mom[0] - (mom[1] / mom[0]) ** 2
                        R.check(abs(float(mu) - mom[1] / mom[0]) < 1e-8 * abs(float(mu)) and abs(float(s) ** 2 - v) < 1e-7 * max(abs(v), float(mu) ** 2), 'oracle:moments',
                                'closed form %r %r quadrature %r %r' % (float(mu), float(s) ** 2, mom[1] / mom[0], v), dict(z=z, mx=mx, my=my, px=px, py=py))


def inversion(R, tier):
    """Whole joint inversions."""
    from MTfit.inversion import Inversion
    full = tier != 'quick'
    cwd = os.path.join(os.environ['MC_WORK'], 'joint')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    AB = [('PPolarity',), ('PPolarityProbability', 'P/SHRMSAmplitudeRatio'), ('P/SVAmplitudeRatio',)]
    AM = [[('S1', 'S2', 'S3'), ('S3', 'S2', 'S1', 'S4'), ('S2', 'S4')], [('S1', 'S2'), ('S3', 'S4'), ('S4', 'S1', 'S3')], [('S1', 'S2'), (), ('S2', 'S1')]]
    count = 0
    for E in (2, 3):
        for am in AM:
            for relative in (True, False):
                for minimum in (1, 2, 3):
                    for loc in (None, [1.7, 0.3], [0.2, 504.7, 3.]):
                        for dc in (False, True):
                            if not full and (count + minimum) % 2 and loc:
                                count += 1
                                continue
                            count += 1
                            R.state()
                            R.trans()
                            np.random.seed(4000 + count)
                            evs, refs = [], []
                            for q in (evs, refs):
                                for e in range(E):
                                    d = c01.event(AB[(e + minimum) % 3], [(0, 1, 2, 3), (2, 0, 3, 1)][e % 2], 2 if e else 0)
                                    d.update(amplitude_event(('PAmplitude', 'PRMSAmplitude'), [am[e], am[e][:2] if e != 1 else ()], e))
                                    d['UID'] = 'ev%d' % e
                                    q.append(d)
                            kw = dict(algorithm='iterate', parallel=False, output_format='pickle', phy_mem=1, dc=dc, convert=False, max_samples=60, number_samples=20,
                                      multiple_events=True, relative_amplitude=relative, minimum_number_intersections=minimum)
                            if loc:
                                if not relative:
                                    continue
                                names = ['S%d' % i for i in range(1, 10)]
                                p = [tuple(range(9)), tuple(range(9))[::-1], (3, 1, 4, 0, 5, 8, 2, 6, 7)]
                                c01.write_location('l.scatangle', names, p[:len(loc)], loc)
                                kw['location_pdf_file_path'] = [os.path.abspath('l.scatangle')] * E
                            desc = dict(events=E, amplitudes=am[:E], relative=relative, minimum=minimum, weights=loc, dc=dc)
                            inv = quiet(Inversion, evs, **kw)
                            ok, _ = R.call('inversion', quiet, inv.forward)
                            if not ok:
                                continue
                            ok, out = R.call('inversion', quiet, inv.algorithm.pdf_sample.output, False)
                            if not ok:
                                continue
                            out = out[0] if isinstance(out, tuple) else out
                            ds, rel = [], []
                            recs = list(range(len(loc))) if loc else [-1]
                            for d in refs:
                                used = [k for k in d if k in PHASE and 'Stations' in d[k] and ('Polarity' in k or 'Ratio' in k)]
                                ds.append(c01.oracle_of(d, used, len(loc) if loc else 0))
                                rel.append(amplitude_oracle(d, recs))
                            m = [np.asarray(out['moment_tensor_space_%d' % (e + 1)], float) for e in range(E)] if 'moment_tensor_space_1' in out else None
                            if not R.check(m is not None, 'inversion:events', 'no per-event tensors: %r' % sorted(out), desc):
                                continue
                            ln = raw(out['ln_pdf']).reshape(-1)
                            if relative:
                                shared = max([0] + [len(set(u[0] for u in rel[i][0]) & set(u[0] for u in rel[j][0])) for i in range(E) for j in range(i) if rel[i] and rel[j]])
                                # a station that has two amplitude types may count once or twice
                                amb = any(rel[i] and rel[j] and (len([u for u in rel[i][0] if u in rel[j][0]]) >= minimum) != (len(set(u[0] for u in rel[i][0] if u in rel[j][0])) >= minimum)
                                          for i in range(E) for j in range(i))
                                if amb:
                                    continue
                            lo, hi, scales = joint(m, ds, rel if relative else None, minimum, loc, len(recs), True)
                            good = O.within(ln, lo, hi, 1e-7)
                            R.trace(len(ln))
                            R.outcome('nonzero', int(len(ln)))
                            if not good.all():
                                j = int(np.argmin(good))
                                R.fail('inversion:value', 'reported %r, the sum of event and pair terms gives [%r, %r]' % (ln[j], lo[j], hi[j]), dict(desc, tuple=[x[:, j] for x in m]))
    R.sample(dict(runs=count))
