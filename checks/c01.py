"""C01 - the posterior of a source is the product of its independent data likelihoods."""
import itertools
import math
import os
import numpy as np
from mc import oracle as O
from checks.c11 import coefficients, geometry

ASSUMPTIONS = ['amplitude-ratio fractional errors are at least 1e-5 and the geometries are not exactly nodal for a hard polarity',
               'a single polarity probability may carry an absolute rounding error of 4e-16 (1+erf), a single density below exp(-600) may underflow',
               'location weights are positive']


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        for k in ('pol', 'prob', 'ratio', 'pol+ratio', 'prob+ratio', 'pol+prob', 'pol+prob+ratio'):
            out.append(dict(name='task-%s-%s' % (k, mode), mode=mode, fn='task', kw=dict(tier=tier, kinds=k.split('+')), cost=5 if '+' in k else 3))
        out.append(dict(name='batches-' + mode, mode=mode, fn='batches', kw=dict(tier=tier), cost=4))
        for alg in ('iterate', 'mcmc'):
            out.append(dict(name='inversion-%s-%s' % (alg, mode), mode=mode, fn='inversion', kw=dict(tier=tier, algorithm=alg, mode=mode), cost=20 if alg == 'mcmc' and mode == 'py' else 8))
    out.append(dict(name='generate', mode='c', fn='generate', kw=dict(tier=tier), cost=2))
    return out


def sources():
    r2 = math.sqrt(2)
    v = [[1 / r2, -1 / r2, 0, 0, 0, 0], [0.2, -0.5, 0.3, 0.6, -0.4, 0.3], [1, 1, 1, 0, 0, 0], [-.7, .1, .6, .2, .5, -.9],
         [0, 0, 0, 0.1, 1, 0.2], [1., 0.4, -2.4, 0.3, 0, 0.9], [-1, -1, -1.1, 0.01, 0.02, 0], [0.3, 0.3, -0.6, -0.2, 0.1, -0.5]]
    v = np.array(v, float)
    return (v / np.sqrt((v * v).sum(1))[:, None]).T


def coef(names, nloc, phase):
    return np.array([[coefficients(*(geometry(n, r) + (phase,))) for r in range(nloc)] for n in names])


def stations(n, o=0):
    return ['S%d' % (1 + (i + o) % 9) for i in range(n)]


KINDS = (['pol'], ['prob'], ['ratio'], ['pol', 'ratio'], ['prob', 'ratio'], ['pol', 'prob'], ['pol', 'prob', 'ratio'])
SIGS = ('soft', 'mixed', 'hard')
MIS = ('zero', 'scalar', 'each', 'half', 'one', 'some')


def observations(kinds, sizes, nloc, sig, mis, perm=False, shared=False):
    """Arrays handed to the task for the given configuration, and the oracle's view of the same."""
    d = {'pol': None, 'prob': None, 'ratio': None}
    ws = {}
    for k, n in zip(kinds, sizes):
        names = stations(n, len(k) % 3)
        idx = list(range(n))
        if perm:
            idx = idx[::-1]
        ids = np.array([int(names[i][1:]) for i in idx], float)
        nm = [names[i] for i in idx]
        if k == 'pol':
            y = np.array([1. if int(i) % 2 else -1. for i in ids])
            a = coef(nm, nloc, 'p') * y[:, None, None]
            s = {'soft': 0.05 + 0.1 * ids, 'mixed': np.where(ids % 2 == 0, 0., 0.2), 'hard': 0. * ids}[sig]
            d['pol'] = (a, s)
        elif k == 'prob':
            p = 0.9 - 0.08 * ids
            q = np.minimum(1 - p, 0.05 + 0.02 * ids)
            if sig == 'hard':
                p, q = np.where(ids % 3 == 0, 1., p), np.where(ids % 3 == 0, 0., q)
            d['prob'] = (coef(nm, nloc, 'p'), p, q)
        else:
            e = {'soft': (0.2 + 0.05 * ids, 0.9 - 0.05 * ids), 'mixed': (0.01 * ids, 0.3 + 0 * ids), 'hard': (1e-3 * ids, 1e-2 + 0 * ids)}[sig]
            d['ratio'] = (coef(nm, nloc, 'p'), coef(nm, nloc, 'sh' if n % 2 else 'sv'), 0.4 + 0.35 * ids, e[0], e[1])
        if k != 'ratio':
            w = {'zero': 0, 'scalar': 0.1, 'each': 0.02 * ids, 'half': 0.5 + 0 * ids, 'one': 1. + 0 * ids,
                 'some': np.where(np.arange(n) == n - 1, 0.3, 0.)[np.argsort(idx)]}[mis]
            ws[k] = w
    if len(ws) == 2 and shared:                      # one mispick probability for both kinds (matched by station index)
        d['w'] = ws['pol']
    elif len(ws) == 2:
        # each kind has its own mispick probabilities
        d['w'] = dict(pol=ws['pol'], prob={'zero': 0.15, 'scalar': 0, 'each': 0.25}.get(mis, ws['prob'] * 0.5))
    else:
        d['w'] = ws.popitem()[1] if ws else 0
    return d


def run(R, mt, d, weights, return_zero, marginalise, reuse=True, generate=0, dc=False):
    from MTfit.inversion import ForwardTask
    c = lambda x: x.copy() if isinstance(x, np.ndarray) else x
    ap, sp = (c(d['pol'][0]), c(d['pol'][1])) if d['pol'] else (False, False)
    ab, pn = (c(d['prob'][0]), (c(d['prob'][1]), c(d['prob'][2]))) if d['prob'] else (False, (False, False))
    a1, a2, z, e1, e2 = [c(x) for x in d['ratio']] if d['ratio'] else [False] * 5
    kw = dict(return_zero=return_zero, reuse=reuse, marginalise=marginalise)
    w = tuple(np.array(d['w'][k], float) if isinstance(d['w'][k], np.ndarray) else d['w'][k] for k in ('pol', 'prob')) if isinstance(d['w'], dict) else c(d['w'])
    if generate:
        kw.update(generate_samples=generate, cutoff=10 * generate, dc=dc)
    t = ForwardTask(mt, ap, sp, a1, a2, z, e1, e2, ab, pn, list(weights) if weights is not None else False, w, **kw)
    return t


def raw(ln):
    return np.asarray(getattr(ln, '_ln_pdf', ln), float)


def verify(R, key, res, mt, d, weights, return_zero, marginalise, data):
    """Compare a task result with the product of likelihoods."""
    n = mt.shape[1]
    if not isinstance(res, dict):
        return R.fail(key + ':result', 'no result: %r' % (res,), data)
    lo, hi = O.ln_forward_bounds(mt, d['pol'], d['prob'], d['ratio'], d['w'], weights, marginalise)
    if not R.check(res['n'] == n, key + ':n', 'reported %r tried candidates, %d were' % (res['n'], n), data):
        return
    nloc = 1 if marginalise else lo.shape[0]
    lo, hi = lo.reshape(nloc, n), hi.reshape(nloc, n)
    ln = raw(res['ln_pdf'])
    got_mt = np.asarray(res['moment_tensors'], float)
    if return_zero:
        if got_mt.shape != mt.shape or not np.array_equal(got_mt, mt):
            return R.fail(key + ':tensors', 'returned tensors differ from the batch', data)
        ln = ln.reshape(-1, n) if ln.size % n == 0 else ln
        if ln.shape != (nloc, n):
            # an all-zero result may be given marginalised
            if ln.shape == (1, n) and not np.isfinite(lo).any() and np.all(ln == -np.inf):
                return
            return R.fail(key + ':shape', 'log-probabilities have shape %r' % (ln.shape,), data)
        cols = list(range(n))
    else:
        # kept candidates: a subsequence of the batch, containing everything certainly non-zero
        m = 0 if got_mt.size == 0 else got_mt.shape[1]
        cols, k = [], 0
        for i in range(m):
            while k < n and not (np.array_equal(mt[:, k], got_mt[:, i]) and hi[:, k].max() > -np.inf):
                k += 1
            if k == n:
                return R.fail(key + ':tensors', 'a returned tensor is not a candidate of non-zero probability (or is out of order)', data)
            cols.append(k)
            k += 1
        missing = [j for j in range(n) if lo[:, j].max() > -600 and j not in cols]
        R.check(not missing or _same_columns(mt, missing, cols), key + ':lost', 'candidates of non-zero probability were removed: %r' % (missing,), data)
        if m == 0:
            return
        ln = ln.reshape(-1, m) if ln.size % m == 0 else ln
        if ln.shape != (nloc, m):
            return R.fail(key + ':shape', 'log-probabilities have shape %r for %d tensors' % (ln.shape, m), data)
    ok = O.within(ln, lo[:, cols], hi[:, cols])
    R.trace(ok.size)
    if not ok.all():
        j = np.argwhere(~ok)[0]
        R.fail(key + ':value', 'log-probability %r, the product of likelihoods gives %r' % (ln[tuple(j)], (lo[:, cols][tuple(j)], hi[:, cols][tuple(j)])),
               dict(data, candidate=mt[:, cols[j[1]]]))


def _same_columns(mt, missing, cols):
    """Duplicated candidates are matched greedily; only counts matter."""
    key = lambda j: mt[:, j].tobytes()
    from collections import Counter
    return not (Counter(key(j) for j in missing))


def weight_sets(nloc, tier):
    out = [None, [1.] * nloc]
    if nloc == 1:
        out += [[2.5], [0.3]]
    elif nloc == 2:
        out += [[1.5, 0.5], [0.2, 504.7], [1., 2.], [1e-3, 1.]]
    else:
        out += [[0.5, 1.5, 1.], [3., 1., 1e-2], [0.1, 0.2, 0.3]] + ([[2.0, 0.5, 0.5], [700., 1., 1e-6]] if tier != 'quick' else [])
    return out


def task(R, tier, kinds):
    mt = sources()
    full = tier != 'quick'
    if len(kinds) == 1:
        sizes = [(1,), (2,), (4,)] + ([(3,), (7,)] if full else [])
    elif len(kinds) == 2:
        sizes = [(1, 1), (1, 3), (3, 1), (2, 2)] + ([(4, 2), (2, 5)] if full else [])
    else:
        sizes = [(1, 1, 1), (1, 2, 3), (2, 3, 1), (3, 1, 2), (2, 2, 2)] + ([(1, 3, 2), (2, 1, 3), (3, 2, 1), (5, 2, 3)] if full else [])
    for size in sizes:
        for nloc in (1, 2, 3):
            for sig in SIGS:
                for mis in (MIS if kinds[0] != 'ratio' else ('zero',)):
                    # polarities and polarity probabilities together: mispick probabilities of their own, or one shared by both
                    both = kinds[:2] == ['pol', 'prob']
                    variants = [(False, False), (True, False)]
                    if both:
                        if not full and mis in ('half', 'one') and sig != 'hard':
                            continue
                        if mis in ('zero', 'scalar') or size[0] == size[1]:
                            variants.append((False, True))
                    for perm, shared in variants:
                        d = observations(kinds, size, nloc, sig, mis, perm, shared)
                        for w in weight_sets(nloc, tier):
                            t = None
                            for rz, marg in itertools.product((True, False), (True, False)):
                                R.state()
                                data = dict(kinds=kinds, stations=size, locations=nloc, uncertainty=sig, mispick=mis, reversed=perm, weights=w,
                                            return_zero=rz, marginalise=marg)
                                t = run(R, mt.copy(), d, w, rz, marg)
                                ok, res = R.call('task', t)
                                if ok:
                                    verify(R, 'task', res, mt, d, w, rz, marg, data)


def batches(R, tier):
    """Which other candidates share the batch, and re-using one task for several batches, do not matter."""
    mt = sources()
    n = mt.shape[1]
    sel = [[i] for i in range(n)] + [list(range(n)), list(range(n))[::-1], [0, 0, 1, 1, 0], [2, 2], [5, 3, 1], list(range(n)) * 3]
    sel += [list(c) for c in itertools.combinations(range(n), 2)]
    if tier != 'quick':
        sel += [list(c) for c in itertools.permutations(range(n), 3)][::3]
    for kinds in KINDS:
        for nloc in (1, 2):
            w = None if nloc == 1 else [1.6, 0.4]
            for sig in SIGS:
                d = observations(kinds, (2, 3, 1)[:len(kinds)], nloc, sig, 'zero' if sig == 'hard' else 'each')
                for rz, marg in itertools.product((True, False), (True, False)):
                    once = run(R, mt.copy(), d, w, rz, marg)
                    for s in sel:
                        R.state()
                        b = np.ascontiguousarray(mt[:, s])
                        data = dict(kinds=kinds, locations=nloc, uncertainty=sig, batch=s, return_zero=rz, marginalise=marg)
                        once.mt = b.copy()
                        ok, res = R.call('batches', once)
                        if ok:
                            verify(R, 'batches', res, b, d, w, rz, marg, data)
                    # tensors given as a matrix, not contiguous, or as single use
                    for form in (np.matrix(mt), np.asfortranarray(mt), mt[:, ::-1]):
                        t = run(R, form, d, w, rz, marg, reuse=False)
                        ok, res = R.call('batches', t)
                        if ok:
                            verify(R, 'form', res, np.asarray(form), d, w, rz, marg, dict(kinds=kinds, form=type(form).__name__, return_zero=rz, marginalise=marg))


def generate(R, tier):
    """Samples drawn inside the likelihood evaluation carry the likelihood of the returned tensor."""
    for kinds in KINDS:
        for nloc in (1, 2, 3):
            for sig in SIGS:
                for w in weight_sets(nloc, tier):
                    for dc in (False, True):
                        for num in (1, 7, 40):
                            R.state()
                            d = observations(kinds, (2, 1, 3)[:len(kinds)], nloc, sig, 'each')
                            t = run(R, False, d, w, False, True, generate=num, dc=dc)
                            data = dict(kinds=kinds, locations=nloc, uncertainty=sig, weights=w, dc=dc, samples=num)
                            ok, res = R.call('generate', t)
                            if not ok:
                                continue
                            m = np.asarray(res['moment_tensors'], float)
                            R.check(res['n'] >= (m.shape[1] if m.size else 0), 'generate:n', 'fewer tries than samples', data)
                            if not m.size:
                                continue
                            ln = raw(res['ln_pdf']).reshape(-1)
                            lo, hi = O.ln_forward_bounds(m, d['pol'], d['prob'], d['ratio'], d['w'], w, True)
                            if not R.check(ln.shape == lo.shape, 'generate:shape', '%r values for %r tensors' % (ln.shape, lo.shape), data):
                                continue
                            R.check(O.within(ln, lo, hi).all(), 'generate:value', 'value differs from the product of likelihoods',
                                    dict(data, got=ln, want=hi))


# ---- whole inversions ----------------------------------------------------------------------------------------------
def event(types, order, ipp):
    """A data dictionary; returns it with the oracle's record of every observation."""
    from checks.c11 import block, PHASE
    d = {'UID': 'ev'}
    for j, k in enumerate(types):
        names = [stations(4, j)[i] for i in order]
        kind = 'ratio' if 'Ratio' in k else 'prob' if 'Prob' in k else 'pol'
        w = ipp[0 if kind == 'pol' else 1] if isinstance(ipp, tuple) else ipp
        b = block(kind, k, j % 3, names, w if kind != 'ratio' else 0, 'matrix')
        if kind == 'ratio':
            b['Error'] = b['Error'] * 3
        elif kind == 'pol':
            b['Error'] = b['Error'] * 4 + 0.05
        d[k] = b
    return d


def oracle_of(data, used, nrec):
    """Oracle arrays for the used data types at the location records 0..nrec-1 (-1: the data's own angles)."""
    from checks.c11 import PHASE
    recs = list(range(nrec)) if nrec else [-1]
    out = {'pol': None, 'prob': None, 'ratio': None}
    rows = {'pol': [], 'prob': [], 'ratio': []}
    for k in used:
        b = data[k]
        kind = 'ratio' if 'Ratio' in k else 'prob' if 'Prob' in k else 'pol'
        ph = PHASE[k].split('/')
        ipp = np.asarray(b.get('IncorrectPolarityProbability', 0)).flatten()
        for i, nm in enumerate(b['Stations']['Name']):
            m, e = np.asarray(b['Measured'])[i], np.asarray(b['Error'])[i]
            cs = [np.array([coefficients(*(geometry(nm, r) + (p,))) for r in recs]) for p in ph]
            w = ipp[i] if len(ipp) > 1 else ipp[0]
            if kind == 'pol':
                rows[kind].append((cs[0] * m[0], e[0], w))
            elif kind == 'prob':
                rows[kind].append((cs[0], m[0], m[1], w))
            else:
                rows[kind].append((cs[0], cs[1], abs(m[0] / m[1]), e[0] / abs(m[0]), e[1] / abs(m[1])))
    w = {}
    for kind, r in rows.items():
        if r:
            cols = [np.array(x, float) for x in zip(*r)]
            if kind != 'ratio':
                w[kind] = cols.pop()
            out[kind] = tuple(cols)
    out['w'] = w if len(w) == 2 else w.popitem()[1] if w else 0.
    return out


def write_location(path, names, orders, weights):
    with open(path, 'w') as f:
        for r, (o, w) in enumerate(zip(orders, weights)):
            f.write('%r\n' % w)
            for i in o:
                g = geometry(names[i], r)
                f.write('%s\t%r\t%r\n' % (names[i], g[0], g[1]))
            f.write('\n')


def quiet(fn, *a, **k):
    import contextlib
    import io
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        return fn(*a, **k)


def inversion(R, tier, algorithm, mode):
    from MTfit.inversion import Inversion
    full = tier != 'quick'
    pols = [(), ('PPolarity',), ('PPolarity', 'SHPolarity'), ('PPolarityProbability',), ('PPolarityProbability', 'SVPolarityProbability'),
            ('SHPolarity', 'PPolarityProbability')]
    rats = [(), ('P/SHRMSAmplitudeRatio',), ('P/SVAmplitudeRatio', 'SH/SVQAmplitudeRatio')]
    if algorithm == 'mcmc':
        pols, rats = pols[:2] + pols[3:4] + pols[5:], rats[:2]
    orders = [(0, 1, 2, 3), (2, 0, 3, 1)]
    locs = [None, [2.], [1., 1.], [1.7, 0.3], [0.2, 504.7, 3.]]
    if not full:
        locs = [None, [1.7, 0.3], [0.2, 504.7, 3.]] if algorithm == 'iterate' else [None, [1.7, 0.3], [3., 0.5]]
    cwd = os.path.join(os.environ['MC_WORK'], 'inv-' + algorithm)
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    count = 0
    for pol in pols:
        for rat in rats:
            types = pol + rat
            if not types:
                continue
            options = [None]
            for r in range(1, len(types)):
                options += [list(c) for c in itertools.combinations(types, r)]
            for opt in options:
                for oi, order in enumerate(orders):
                    for ipp in (((0, 2), (2, 0), (1, 2), (2, 2)) if pol == pols[-1] else (0, 2) if pol else (0,)):
                        for li, loc in enumerate(locs):
                            if not full and opt is not None and (li + oi + len(opt)) % 2:
                                continue
                            if not full and algorithm == 'mcmc' and (ipp and li == 2 or mode == 'py' and (opt or oi or bool(pol) != bool(ipp))):
                                continue
                            for dc in (False, True):
                                if dc and (li + oi) % 3:
                                    continue
                                count += 1
                                R.state()
                                R.trans()
                                np.random.seed(1000 + count)
                                data = event(types, order, ipp)
                                ref = event(types, order, ipp)
                                names = ['S%d' % i for i in range(1, 10)]
                                kw = dict(algorithm=algorithm, parallel=False, output_format='pickle', phy_mem=1, dc=dc, convert=False, max_samples=60)
                                if loc:
                                    p = [tuple(range(9)), tuple(range(9))[::-1], (3, 1, 4, 0, 5, 8, 2, 6, 7)]
                                    write_location('l.scatangle', names, p[:len(loc)], loc)
                                    kw['location_pdf_file_path'] = [os.path.abspath('l.scatangle')]
                                if opt:
                                    kw['inversion_options'] = opt
                                if algorithm == 'iterate':
                                    kw['number_samples'] = 20
                                else:
                                    kw.update(learning_length=10, chain_length=25, max_samples=40)
                                desc = dict(types=types, options=opt, order=order, mispick=ipp, weights=loc, dc=dc, algorithm=algorithm)
                                used = opt or list(types)
                                o = oracle_of(ref, used, len(loc) if loc else 0)
                                got = observe(R, Inversion, data, kw, algorithm, desc)
                                if got is None:
                                    continue
                                m, ln = got
                                if not R.check(m.ndim == 2 and m.shape[0] == 6 and m.shape[1] == ln.shape[0], 'inversion:shape', 'shapes %r %r' % (m.shape, ln.shape), desc):
                                    continue
                                R.check(np.allclose((m * m).sum(0), 1., atol=1e-9), 'inversion:unit', 'candidates are not unit tensors', desc)
                                lo, hi = O.ln_forward_bounds(m, o['pol'], o['prob'], o['ratio'], o['w'], loc, True)
                                good = O.within(ln, lo, hi, 1e-7)
                                R.trace(len(ln))
                                R.outcome('nonzero', int(len(ln)))
                                if not good.all():
                                    j = int(np.argmin(good))
                                    R.fail('inversion:value', 'reported %r, the product of likelihoods gives [%r, %r]' % (ln[j], lo[j], hi[j]), dict(desc, candidate=m[:, j]))
    R.sample(dict(runs=count))


def observe(R, Inversion, data, kw, algorithm, desc):
    """Run an inversion and return the (tensors, log-probabilities) it reports."""
    if algorithm == 'iterate':
        inv = quiet(Inversion, data, **kw)
        ok, _ = R.call('inversion', quiet, inv.forward)
        if not ok:
            return None
        ok, out = R.call('inversion', quiet, inv.algorithm.pdf_sample.output, False)
        if not ok:
            return None
        out = out[0] if isinstance(out, tuple) else out
        if 'ln_pdf' not in out:
            return np.zeros((6, 0)), np.zeros(0)
        return np.asarray(out['moment_tensor_space'], float), raw(out['ln_pdf']).reshape(-1)
    # Markov chain: the result that is handed to the output
    seen = []
    inv = quiet(Inversion, data, **kw)

    def keep(event, fid=None, output_data=False, *a, **k):
        seen.append(output_data)
    inv.output = keep
    ok, _ = R.call('inversion', quiet, inv.forward)
    if not ok:
        return None
    if not R.check(len(seen) == 1 and isinstance(seen[0], dict), 'inversion:no-output', 'the chain gave %r outputs' % len(seen), desc):
        return None
    s = seen[0]
    m = np.asarray(s['moment_tensor_space'], float)
    return m, raw(s['ln_pdf']).reshape(-1)
