"""C19 - result container (MTData) and focal-sphere projections are consistent with the samples."""
import itertools
import math
import numpy as np
from checks import geo as G
from checks.geo import PI, flat

ASSUMPTIONS = ['samples are indexed by column (data[:, index]) with integers, slices, index lists and boolean masks',
               'a container of one sample need not keep its probability when it is indexed again',
               'at exactly the horizon a vector is shown at its own position; with full_sphere the radius law holds everywhere (a straight-up vector may be missing)',
               'the projection_axis option is not used']
DEG = 180 / PI
BASIC = ['T', 'E', 'gamma', 'u', 'tau', 'strike', 'strike2', 'N1', 'kappa', 'explosion']
GROUP = {'T': ['T', 'N', 'P', 'E'], 'E': ['T', 'N', 'P', 'E'], 'gamma': ['gamma', 'delta'], 'u': ['u', 'v'], 'tau': ['tau', 'k'], 'strike': ['strike', 'dip', 'rake'],
         'strike2': ['strike2', 'dip2', 'rake2'], 'N1': ['N1', 'N2'], 'kappa': ['kappa', 'h', 'sigma'], 'explosion': ['explosion', 'area_displacement']}
ONE = ['strike1', 'dip1', 'rake1']


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        for q in range(4):
            out.append(dict(name='container-%s-%d' % (mode, q), mode=mode, fn='container', kw=dict(tier=tier, part=q), cost=9))
    out.append(dict(name='forms', mode='c', fn='forms', kw=dict(tier=tier), cost=4))
    out.append(dict(name='stats', mode='c', fn='stats', kw=dict(tier=tier, seed=seed), cost=6))
    out.append(dict(name='chains', mode='c', fn='chains', kw=dict(tier=tier), cost=5))
    out.append(dict(name='projection', mode='c', fn='projection', kw=dict(tier=tier), cost=4))
    return out


def cls():
    from MTfit.plot import MTData
    return MTData


VTI = [3., 1., .8, 0, 0, 0, 3., .8, 0, 0, 0, 2.2, 0, 0, 0, .7, 0, 0, .7, 0, 1.]


def samples(n):
    S = G.orientations(small=True)
    i = (np.arange(n) * 37 + 11) % S.shape[1]
    g = np.linspace(-.5, .5, 9)[np.arange(n) * 4 % 9]
    d = np.linspace(-1.2, 1.3, 11)[np.arange(n) * 3 % 11]
    return G.tape6(g, d, S[0][i], np.cos(S[1][i] * .98 + .01), S[2][i] * .49)


_ref = {}


def standalone(M, c=False):
    """Every derived parameter of the columns of M, each column converted by the stand-alone functions."""
    import MTfit.convert as C
    out = {}
    for j in range(M.shape[1]):
        key = (M[:, j].tobytes(), repr(c))
        if key not in _ref:
            x = np.ascontiguousarray(M[:, j:j + 1])
            T, N, P, E = C.MT6_TNPE(x)
            r = {'T': T, 'N': N, 'P': P, 'E': E}
            r['gamma'], r['delta'] = C.E_GD(np.array(E))
            r['tau'], r['k'] = C.E_tk(np.array(E))
            r['u'], r['v'] = C.E_uv(np.array(E))
            r['strike'], r['dip'], r['rake'] = [np.asarray(q) * DEG for q in C.TNP_SDR(np.matrix(T), np.matrix(N), np.matrix(P))]
            r['strike2'], r['dip2'], r['rake2'] = [np.asarray(q) * DEG for q in C.SDR_SDR(*[np.ascontiguousarray(np.asarray(r[q]).flatten() / DEG) for q in ('strike', 'dip', 'rake')])]
            for q in ('strike', 'dip', 'rake'):
                r[q + '1'] = r[q]
            r['N1'], r['N2'] = C.TP_FP(np.matrix(T), np.matrix(P))
            _g, _d, r['kappa'], r['h'], r['sigma'] = C.MT6_Tape(x)
            try:
                _phi, r['explosion'], r['area_displacement'] = C.MT6_biaxes(x, c)
            except Exception:
                r['explosion'] = r['area_displacement'] = [np.nan]
            _ref[key] = dict((k, np.asarray(v, float).flatten()) for k, v in r.items())
        for k, v in _ref[key].items():
            out.setdefault(k, []).append(v)
    return dict((k, np.array(v).T) for k, v in out.items())


def compare(R, obj, M, key, names, c, how):
    ref = standalone(M, c)
    for q in names:
        ok, v = R.call('%s:%s' % (key, q), getattr, obj, q)
        if not ok:
            continue
        want = ref[q]
        if np.isnan(want).all():
            continue
        try:
            v = np.asarray(v, float)
        except Exception:
            v = np.array([np.nan])
        if not R.check(v.size == want.size, '%s:%s:size' % (key, q), '%s has %d values for %d samples' % (q, v.size, M.shape[1]), {'path': how}):
            continue
        v = v.reshape(want.shape)
        with np.errstate(invalid='ignore'):
            if q in ('kappa', 'strike', 'strike1', 'strike2'):
                period = 2 * PI if q == 'kappa' else 360.
                dd = np.mod(np.abs(v - want), period)
                err = np.minimum(dd, period - dd)
            else:
                err = np.abs(v - want)
        if not (err < 1e-6).all() and q in ('kappa', 'h', 'sigma'):
            # either plane of a borderline rake: the triple must rebuild the tensor
            try:
                t = G.tape6(*[np.asarray(getattr(obj, a), float).flatten() for a in ('gamma', 'delta', 'kappa', 'h', 'sigma')])
                err = np.abs(t - M / np.sqrt((M * M).sum(0))).max(0)
            except Exception:
                pass
        R.check(bool((err < 1e-6).all()), '%s:%s' % (key, q), '%s does not agree with the stand-alone conversion of the samples' % q,
                lambda: {'path': how, 'got': v.tolist(), 'expected': want.tolist(), 'samples': M.tolist()})


def verify(R, obj, M, p, key, how, c=False, marks=None):
    """The container holds exactly these samples, probabilities and stored parameters."""
    got = np.asarray(obj.MTs, float)
    R.check(got.shape == M.shape and np.array_equal(got, M), key + ':samples', 'the samples are not the selected ones', lambda: {'path': how, 'got': got.tolist(), 'expected': M.tolist()})
    if got.shape != M.shape:
        return False
    R.check(len(obj) == M.shape[1] and tuple(obj.shape) == M.shape, key + ':len', 'length or shape differs from the samples', {'path': how})
    if p is not None:
        q = np.asarray(obj.probability, float).flatten()
        R.check(np.array_equal(q, p), key + ':probability', 'the probabilities are not those of the samples', lambda: {'path': how, 'got': q.tolist(), 'expected': list(map(float, p))})
    stored = [k for k in obj.__dict__ if any(k in v for v in GROUP.values()) or k in ONE]
    stored = [k for k in stored if not (marks and k in marks)]
    compare(R, obj, M, key + ':stored', stored, c, how)
    for k, v in (marks or {}).items():
        ok, x = R.call(key + ':given', getattr, obj, k)
        if ok:
            x = np.asarray(x, float)
            R.check(x.size == np.size(v) and np.array_equal(x.reshape(np.shape(v)), v), key + ':given', 'a supplied parameter (%s) is not kept with its sample' % k, lambda: {'path': how, 'got': x.tolist(), 'expected': np.asarray(v).tolist()})
    return True


def index_forms(n):
    out = [('slice(None)', slice(None)), ('::-1', slice(None, None, -1)), ('int 0', 0), ('int -1', -1)]
    if n > 1:
        mask = np.arange(n) % 2 == 1
        out += [('1:', slice(1, None)), ('::2', slice(None, None, 2)), ('mask', mask), ('list', [n - 1, 0]), ('array', np.array([1, 0, 1])), ('numpy int', np.int64(n - 1))]
    if n > 3:
        out += [('1:3', slice(1, 3)), ('all mask', np.ones(n, bool)), ('one mask', np.arange(n) == 2)]
    return out


def pick(v, i):
    v = np.asarray(v)
    r = v[..., i]
    return r if r.ndim == v.ndim else r[..., None]


def explore(R, make, M, p, c, marks, depth, name, part=None):
    """All operation sequences (derive / index / select / assign) to the depth."""
    ops = [('get ' + a, a) for a in BASIC]
    if marks:
        ops = [o for o in ops if not any(x in marks for x in GROUP[o[1]])]

    def walk(seq, M, p, marks, left, top):
        # replay the history on a fresh object (a state is a history)
        def build():
            obj = make()
            for f in seq:
                obj = f(obj)
            return obj
        todo = []
        for nm, a in ops:
            todo.append((nm, (lambda a: lambda o: (getattr(o, a), o)[1])(a), M, p, marks))
        for nm, i in index_forms(M.shape[1]):
            q = None
            if p is not None and len(p) > 1:
                q = np.atleast_1d(np.asarray(p)[i])
            todo.append(('[:, %s]' % nm, (lambda i: lambda o: o[:, i])(i), pick(M, i), q, dict((k, pick(v, i)) for k, v in (marks or {}).items())))
        if p is not None and len(p) > 1:
            sel = np.where(np.asarray(p) == max(p))[0]
            todo.append(('max', lambda o: o.get_max_probability(), M[:, sel], np.asarray(p)[sel], dict((k, pick(v, sel)) for k, v in (marks or {}).items())))
            todo.append(('max single', lambda o: o.get_max_probability(single=True), M[:, sel[:1]], None, dict((k, pick(v, sel[:1])) for k, v in (marks or {}).items())))
            todo.append(('mean', lambda o: (o.mean, o)[1], M, p, marks))
            todo.append(('mean orientation', lambda o: (o.mean_orientation, o)[1], M, p, marks) if M.shape[1] > 1 else ('mean', lambda o: (o.mean, o)[1], M, p, marks))
        elif p is None and not marks:
            new = samples(9)[:, -1]
            for j in (0, M.shape[1] - 1):
                M2 = M.copy()
                M2[:, j] = new

                def assign(o, j=j):
                    o[:, j] = new
                    return o
                todo.append(('set %d' % j, assign, M2, p, marks))
            if M.shape[1] > 2:
                M3 = M.copy()
                M3[:, 1:3] = samples(8)[:, -2:]

                def assign2(o):
                    o[:, 1:3] = samples(8)[:, -2:]
                    return o
                todo.append(('set 1:3', assign2, M3, p, marks))
        for k, (nm, f, M2, p2, marks2) in enumerate(todo):
            if top and part is not None and k % 4 != part:
                continue
            how = top_names[len(top_names) - len(top_names):] + path + [nm]
            ok, obj = R.call(name + ':' + nm.split(' ')[0], lambda: f(build()))
            R.state()
            if not ok or obj is None:
                continue
            if not verify(R, obj, M2, p2, name + ':' + nm.split(' ')[0], how, c, marks2):
                continue
            if left > 1:
                path.append(nm)
                walk(seq + [f], M2, p2, marks2, left - 1, False)
                path.pop()
            else:
                # leaf: everything that can still be derived
                names = [x for a in BASIC for x in GROUP[a]] + ONE
                names = [x for x in names if not (marks2 and any(x.rstrip('12') == y.rstrip('12') or x in GROUP.get(y, []) for y in marks2))]
                if k % 3 == 0:
                    compare(R, obj, M2, name + ':derived', names if not marks2 else [], c, how)
                mean_check(R, obj, M2, p2, name, how)
        R.outcome('sequence-end', name)
    path, top_names = [], []
    walk([], M, p, marks, depth, True)


def mean_check(R, obj, M, p, key, how):
    if p is not None and len(p) > 1:
        want = (M * p).sum(1) / np.sum(p)
    elif p is None or M.shape[1] == 1:
        want = M.mean(1)
    else:
        return
    with np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ok, v = R.call(key + ':mean', lambda: obj.mean)
    if ok:
        v = np.asarray(v, float).flatten()
        R.check(v.size == 6 and np.abs(v - want).max() < 1e-9, key + ':mean', 'the mean is not the probability-weighted mean of the samples', lambda: {'path': how, 'got': v.tolist(), 'expected': want.tolist()})


def container(R, tier, part):
    D = cls()
    probs = np.array([.2, .5, .1, .5, .3])
    M = samples(5)
    d = 2 if tier == 'quick' else 3
    explore(R, lambda: D(M.copy(), probs.copy()), M, probs, False, None, d, 'weighted', part)
    explore(R, lambda: D(M.copy()), M, None, False, None, d, 'plain', part)
    explore(R, lambda: D(M.copy(), probs.copy(), c=list(VTI)), M, probs, list(VTI), None, 2, 'stiffness', part)
    # supplied parameters (whole groups) stay with their samples; none is derived again from the others
    marks = dict((a, 1000. * (b + 1) + np.arange(5)) for b, a in enumerate(('gamma', 'delta', 'strike', 'dip', 'rake', 'strike2', 'dip2', 'rake2', 'kappa', 'h', 'sigma')))
    explore(R, lambda: D(M.copy(), probs.copy(), **dict((k, v.copy()) for k, v in marks.items())), M, probs, False, marks, 2, 'given', part)
    out = {'moment_tensor_space': M.copy(), 'probability': probs.copy(), 'ln_pdf': np.log(probs), 'g': 1. * np.arange(5), 'd': 10. + np.arange(5), 'k': 20. + np.arange(5),
           's': 30. + np.arange(5), 'h': 40. + np.arange(5), 'S1': 50. + np.arange(5), 'D1': 60. + np.arange(5), 'R1': 70. + np.arange(5), 'S2': 80. + np.arange(5), 'D2': 90. + np.arange(5),
           'R2': 100. + np.arange(5), 'u': 110. + np.arange(5), 'v': 120. + np.arange(5), 'total_number_samples': 100, 'dkl': 1.}
    names = {'g': 'gamma', 'd': 'delta', 'k': 'kappa', 's': 'sigma', 'h': 'h', 'S1': 'strike', 'D1': 'dip', 'R1': 'rake', 'S2': 'strike2', 'D2': 'dip2', 'R2': 'rake2', 'u': 'u', 'v': 'v'}
    marks = dict((names[k], out[k]) for k in names)
    explore(R, lambda: D(dict((k, np.copy(v) if isinstance(v, np.ndarray) else v) for k, v in out.items())), M, probs, False, marks, 2, 'dict', part)
    for n in (1, 2, 3, 6):
        Mn = samples(n)
        pn = np.array([.3, .3, .1, .3, .2, .25])[:n]
        explore(R, lambda: D(Mn.copy(), pn.copy()), Mn, pn, False, None, 2 if n < 4 or tier != 'quick' else 1, 'weighted%d' % n, part)
        explore(R, lambda: D(Mn.copy()), Mn, None, False, None, 2 if n < 4 or tier != 'quick' else 1, 'plain%d' % n, part)
    R.sample({'depth': d, 'samples': [1, 2, 3, 5, 6]})


def forms(R, tier):
    """Every input form of the same samples gives the same container."""
    D = cls()
    for n in (1, 2, 3, 4, 6, 7, 9):
        M = samples(n)
        p = np.linspace(.1, .9, n)
        m3 = G.m33(M)
        made = [('6xn array', lambda: D(M.copy(), p.copy())), ('6xn list', lambda: D(M.tolist(), p.tolist())), ('matrix', lambda: D(np.matrix(M), p.copy())),
                ('3x3 stack', lambda: D(m3.copy(), p.copy())), ('3x3 list', lambda: D(m3.tolist(), list(p)))]
        if n != 6:
            made.append(('nx6 array', lambda: D(np.ascontiguousarray(M.T), p.copy())))
        if n == 1:
            made += [('flat', lambda: D(M[:, 0].copy(), p.copy())), ('single 3x3', lambda: D(m3[0].copy(), p.copy())), ('single 3x3 matrix', lambda: D(np.matrix(m3[0]), p.copy()))]
        made += [('dict', lambda: D({'moment_tensor_space': M.copy(), 'probability': p.copy(), 'ln_pdf': np.log(p)})), ('old dict', lambda: D({'MTSpace': M.copy(), 'Probability': p.copy()})),
                 ('dict row probability', lambda: D({'moment_tensor_space': M.copy(), 'probability': p.copy()[None], 'ln_pdf': np.log(p)[None]})), ('dict 3x3', lambda: D({'moment_tensor_space': m3.copy(), 'probability': p.copy()}))]
        for name, f in made:
            R.state()
            ok, o = R.call('forms:' + name, f)
            if not ok:
                continue
            ok, got = R.call('forms:' + name, lambda: np.asarray(o.MTs, float))
            if not ok:
                continue
            R.check(got.shape == (6, n) and np.abs(got - M).max() < 1e-12, 'forms:' + name, 'the samples of the container are not those given (%d samples)' % n, lambda: {'got': got.tolist(), 'expected': M.tolist()})
            q = np.asarray(o.probability, float).flatten()
            R.check(np.array_equal(q, p), 'forms:probability', 'the probabilities are not those given', {'form': name, 'n': n, 'got': q.tolist()})
            R.check(len(o) == n, 'forms:len', 'wrong number of samples', {'form': name, 'n': n})
            if got.shape == (6, n):
                R.check(np.abs(np.array([o.xx, o.yy, o.zz, o.xy, o.xz, o.yz], float).reshape(6, -1) - M).max() < 1e-12, 'forms:components', 'named components are not those of the tensor', {'form': name})
                compare(R, o, got, 'forms:' + name, [x for a in BASIC for x in GROUP[a]] + ONE, False, [name, n])
    for bad_p in ([.1, .2], [.1, .2, .3, .4]):
        try:
            D(samples(3), bad_p)
            R.check(False, 'forms:mismatch', 'a probability list of another length was accepted', {'p': bad_p})
        except ValueError:
            R.check(True, 'forms:mismatch', '', None)
    R.sample({'forms': len(made)})


def stats(R, tier, seed):
    """Mean and maximum over all small probability assignments (ties, zeros, tiny and huge values)."""
    D = cls()
    vals = [0., .25, 1., 3e-300, 2e5]
    n = 4 if tier == 'quick' else 5
    M = samples(n)
    for p in itertools.product(vals, repeat=n):
        p = np.array(p)
        if not p.sum():
            continue
        R.state()
        ok, o = R.call('stats', lambda: D(M.copy(), p.copy()))
        if not ok:
            continue
        order = int(np.sum(p * 7)) % 2
        want = (M * p).sum(1) / p.sum()
        # the two statistics in either order
        for step in ((0, 1) if order else (1, 0)):
            if step:
                mean_check(R, o, M, p, 'stats', p.tolist())
            else:
                sel = np.where(p == p.max())[0]
                ok, m = R.call('stats:max', lambda: o.max_probability)
                if ok:
                    verify(R, m, M[:, sel], p[sel], 'stats:max', p.tolist())
                ok, m = R.call('stats:max', lambda: o.get_max_probability())
                if ok:
                    verify(R, m, M[:, sel], p[sel], 'stats:max', p.tolist())
                ok, m = R.call('stats:max single', lambda: o.get_max_probability(single=True))
                if ok:
                    verify(R, m, M[:, sel[:1]], None, 'stats:max single', p.tolist())
        ok, v = R.call('stats:covariance', lambda: o.get_mean())
        if ok:
            R.check(np.abs(np.asarray(v[0], float).flatten() - want).max() < 1e-9, 'stats:get_mean', 'get_mean returns another mean', {'p': p.tolist()})
    # unnormalised probabilities: scaling does not matter; another assignment on the same object replaces the statistics
    for f in (1e-200, 1e-3, 1., 1e6, 1e150):
        p = np.array([.1, .4, .4, .1, .2][:n]) * f
        ok, o = R.call('stats:scale', lambda: D(M.copy(), p))
        if ok:
            mean_check(R, o, M, p, 'stats:scale', f)
    ok, o = R.call('stats:none', lambda: D(M.copy()))
    if ok:
        try:
            o.get_max_probability()
            R.check(False, 'stats:max:none', 'a maximum was returned without probabilities', None)
        except ValueError:
            R.check(True, 'stats:max:none', '', None)
    R.sample({'assignments': len(vals) ** n})


def chains(R, tier):
    """All chains over a small alphabet of states: unique samples with their counts."""
    D = cls()
    A = samples(4)
    A[:, 3] = A[:, 0]
    A[0, 3] = np.nextafter(A[0, 3], 9)
    length = 5 if tier == 'quick' else 7
    for L in range(1, length + 1):
        for w in itertools.product(range(4 if L < length else 3), repeat=L):
            R.state()
            M = A[:, list(w)]
            pre = ['', 'gamma', 'strike2'][sum(w) % 3]
            p = np.linspace(.1, 1, L) if sum(w) % 2 and L > 1 else None

            def run():
                o = D(M.copy(), p) if p is not None else D(M.copy())
                if pre:
                    getattr(o, pre)
                return o, o.get_unique_McMC()
            ok, r = R.call('unique', run)
            if not ok:
                continue
            o, u = r
            got = np.asarray(u.MTs, float)
            cnt = np.asarray(u.probability, float).flatten()
            want = {}
            for j in range(L):
                want[M[:, j].tobytes()] = want.get(M[:, j].tobytes(), 0) + 1
            have = {}
            for j in range(got.shape[1]):
                if j < len(cnt):
                    have.setdefault(np.ascontiguousarray(got[:, j]).tobytes(), []).append(cnt[j])
            R.check(len(cnt) == got.shape[1], 'unique:counts', 'number of counts differs from the number of unique samples', {'chain': w})
            R.check(set(have) == set(want) and all(len(v) == 1 for v in have.values()) and len(have) == got.shape[1], 'unique:samples', 'not each distinct tensor exactly once', {'chain': w, 'got': got.tolist()})
            R.check(all(v == [want.get(k)] for k, v in have.items()), 'unique:number', 'a count is not the number of occurrences', {'chain': w, 'counts': cnt.tolist()})
            R.check(cnt.sum() == L, 'unique:total', 'the counts do not add up to the chain length', {'chain': w, 'counts': cnt.tolist()})
            R.check(np.array_equal(np.asarray(o.MTs), M) and len(o) == L, 'unique:pure', 'the chain itself was changed', {'chain': w})
            stored = [k for k in u.__dict__ if any(k in v for v in GROUP.values())]
            compare(R, u, got, 'unique:stored', stored, False, list(w))
            R.outcome('distinct', len(want))
            if sum(w) % 11 == 0:
                mean_check(R, u, got, cnt, 'unique', list(w))
    R.sample({'alphabet': 4, 'length': length})


def projection(R, tier):
    from MTfit.plot.spherical_projection import equal_area, equal_angle
    k = 1 if tier == 'quick' else 5
    ts = np.concatenate([np.linspace(0, 180, 37 * k), [1e-7, 1e-3, 89.9999, 90.0001, 179.999, 179.9999999]]) * PI / 180
    az = np.concatenate([np.linspace(0, 360, 25 * k), [1e-9, 359.999]]) * PI / 180
    t, a = [x.flatten() for x in np.meshgrid(ts, az)]
    v = np.array([np.sin(t) * np.cos(a), np.sin(t) * np.sin(a), np.cos(t)])
    ring = np.array([np.cos(az), np.sin(az), 0 * az])
    special = np.array([[0, 0, 1.], [0, 0, -1], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [1, 0, -0.], [.6, 0, .8], [.6, 0, -.8], [0, -.6, -.8]]).T
    v = np.concatenate([v, ring, special], 1)
    for name, fn, rad in (('equal_area', equal_area, lambda t: 2 * np.sin(t / 2)), ('equal_angle', equal_angle, lambda t: np.tan(t / 2))):
        for lower, full, back in itertools.product((True, False), repeat=3):
            if full and back:
                continue
            kw = {}
            if not lower:
                kw['lower'] = False
            if full:
                kw['full_sphere'] = True
            if back:
                kw['back_project'] = True
            tag = name + ''.join(':' + q for q in kw)
            keep = v.copy()
            ins = [v[q].copy() for q in range(3)]
            with np.errstate(all='ignore'):
                ok, r = R.call(tag, lambda: fn(*ins, **kw))
            R.check(all(np.array_equal(x, y) for x, y in zip(ins, keep)), tag + ':pure', 'the coordinates were changed', None)
            if not ok:
                continue
            X, Y = [np.asarray(x, float) for x in r]
            if not R.check(X.shape == Y.shape == v[0].shape, tag + ':shape', '%r' % (X.shape,), None):
                continue
            R.state(v.shape[1])
            s = 1 if lower else -1
            z = s * v[2]
            ang = np.arctan2(np.hypot(v[0], v[1]), z)             # angle from the projection's own axis
            azi = np.arctan2(v[1], v[0])
            shown = np.isfinite(X) & np.isfinite(Y)
            own = (z >= 0) | full
            with np.errstate(all='ignore'):
                wx, wy = rad(ang) * np.cos(azi), rad(ang) * np.sin(azi)
                if back:
                    ax, ay = -rad(PI - ang) * np.cos(azi), -rad(PI - ang) * np.sin(azi)
                    wx, wy = np.where(own, wx, ax), np.where(own, wy, ay)
            must = own if not back else np.ones(len(z), bool)
            if full:
                must = z > -1 + 1e-9
            scale = np.maximum(1., np.hypot(np.nan_to_num(wx), np.nan_to_num(wy)) ** 3) if full else 1.
            good = (np.abs(X - wx) < 1e-7 * scale) & (np.abs(Y - wy) < 1e-7 * scale)
            for cond, key, what in ((must & ~shown, ':missing', 'a vector of the shown hemisphere is missing'), (~must & ~full & shown, ':extra', 'a vector of the other hemisphere is shown'),
                                    (must & shown & ~good, ':position', 'a vector is shown at the wrong azimuth or radius')):
                R.traces += len(cond)
                for i in np.where(cond)[0][:2]:
                    R.fail(tag + key, what, {'vector': v[:, i].tolist(), 'got': [float(X[i]), float(Y[i])], 'expected': [float(wx[i]), float(wy[i])], 'options': kw})
            # single values, plain floats, integers and two-dimensional arrays agree
            for i in range(0, v.shape[1], 41):
                with np.errstate(all='ignore'):
                    for form, x in (('float', [float(q) for q in v[:, i]]), ('array', [np.array(q) for q in v[:, i]])):
                        ok, r = R.call(tag + ':single', lambda: fn(*x, **kw))
                        if ok:
                            x1, y1 = flat(*r)
                            R.check(len(x1) == len(y1) == 1 and np.allclose([x1[0], y1[0]], [X[i], Y[i]], equal_nan=True, atol=1e-12), tag + ':single', 'a single vector (%s) is shown elsewhere than in an array' % form, {'vector': v[:, i].tolist(), 'got': [x1.tolist(), y1.tolist()], 'array': [X[i], Y[i]]})
            with np.errstate(all='ignore'):
                m = v.shape[1] // 4 * 4
                ok, r = R.call(tag + ':grid', lambda: fn(*[v[q][:m].reshape(4, -1).copy() for q in range(3)], **kw))
            if ok:
                R.check(np.shape(r[0]) == (4, m // 4) and np.allclose(flat(r[0])[0], X[:m], equal_nan=True) and np.allclose(flat(r[1])[0], Y[:m], equal_nan=True), tag + ':grid', 'a two-dimensional array is projected differently', None)
    R.sample({'vectors': v.shape[1], 'options': 'lower/upper x hidden/back-projected/full sphere'})
