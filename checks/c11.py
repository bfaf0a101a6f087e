"""C11 - station coefficients reproduce P/SH/SV radiation and stay aligned with the data."""
import itertools
import math
import numpy as np

ASSUMPTIONS = ['observations are given as (n, 1) or (n, 2) matrices as documented; stations have distinct names within a data type',
               'rows of an observation matrix may come in any order: what is compared is the pairing of coefficients and measurements']
S2 = math.sqrt(2)


def shards(tier, seed):
    n = 2 if tier == 'quick' else 6
    out = [dict(name='angles-%d' % i, mode='c', fn='angles', kw=dict(tier=tier, part=i, of=n), cost=3) for i in range(n)]
    out += [dict(name='forms', mode='c', fn='forms', kw=dict(tier=tier), cost=1),
            dict(name='matrices-single', mode='c', fn='matrices', kw=dict(tier=tier, multi=1), cost=6),
            dict(name='matrices-pair', mode='c', fn='matrices', kw=dict(tier=tier, multi=2), cost=8),
            dict(name='matrices-triple', mode='c', fn='matrices', kw=dict(tier=tier, multi=3), cost=8),
            dict(name='task', mode='py', fn='matrices', kw=dict(tier='quick', multi=2), cost=5)]
    return out


# ---- the model: far-field radiation g.M.g, phi.M.g, theta.M.g ------------------------------------------------------
def basis(az, toa):
    st, ct, sp, cp = math.sin(toa), math.cos(toa), math.sin(az), math.cos(az)
    g = np.array([st * cp, st * sp, ct])
    return g, {'p': g, 'sv': np.array([ct * cp, ct * sp, -st]), 'sh': np.array([-sp, cp, 0.])}


def coefficients(az, toa, phase):
    """Six-vector c with c . (M11, M22, M33, r2 M12, r2 M13, r2 M23) = e.M.g  (degrees)."""
    g, e = basis(math.radians(az), math.radians(toa))
    e = e[phase]
    return np.array([e[0] * g[0], e[1] * g[1], e[2] * g[2], (e[0] * g[1] + e[1] * g[0]) / S2,
                     (e[0] * g[2] + e[2] * g[0]) / S2, (e[1] * g[2] + e[2] * g[1]) / S2])


def tensors():
    out = [np.eye(6)[i] for i in range(6)]
    out.append(np.array([1, 1, 1, 0, 0, 0.]) / math.sqrt(3))
    out.append(np.array([0.3, -1.2, 0.7, 0.25, -2.1, 0.9]))
    out.append(np.array([-1e-3, 5e2, 3., -7., 0.5, 11.]))
    return out


def m33(m):
    return np.array([[m[0], m[3] / S2, m[4] / S2], [m[3] / S2, m[1], m[5] / S2], [m[4] / S2, m[5] / S2, m[2]]])


def angles(R, tier, part, of):
    from MTfit.inversion import station_angles
    step = 7.5 if tier == 'quick' else 2.5
    az = [-1080.25, -359.9, -180., -90., -1e-7, 1e-7, 719.3, 3600.5] + list(np.arange(0, 361, step))
    toa = sorted(set([0., 1e-6, 45., 89.999999, 90., 90.000001, 135., 179.999999, 180.] + list(np.arange(0, 181, step))))
    az = az[part::of]
    Ts = tensors()
    M = [m33(t) for t in Ts]
    grid = [(a, t) for a in az for t in toa]
    A, T = np.array([g[0] for g in grid]), np.array([g[1] for g in grid])
    for phase in ('p', 'sh', 'sv'):
        ok, c = R.call('station_angles', station_angles, {'Azimuth': A, 'TakeOffAngle': T}, phase.upper())
        if not ok:
            continue
        c = np.asarray(c)
        if not R.check(c.shape == (len(grid), 6), 'shape', 'shape %r' % (c.shape,), {'phase': phase}):
            continue
        for i, (a, t) in enumerate(grid):
            R.state()
            g, e = basis(math.radians(a), math.radians(t))
            for k in range(len(Ts)):
                want = float(e[phase].dot(M[k]).dot(g))
                got = float(c[i].dot(Ts[k]))
                R.trans()
                R.check(abs(got - want) <= 2e-12 * max(1., np.abs(Ts[k]).max()), 'radiation:' + phase, 'coefficients give %r, radiation amplitude is %r' % (got, want),
                        {'azimuth': a, 'takeoff': t, 'tensor': Ts[k]})
        # rotation of source and station together about the vertical
        for d in ((37.,) if tier == 'quick' else (37., 120., -64.5)):
            ok, cr = R.call('station_angles', station_angles, {'Azimuth': A + d, 'TakeOffAngle': T}, phase)
            if not ok:
                continue
            cr = np.asarray(cr)
            cd, sd = math.cos(math.radians(d)), math.sin(math.radians(d))
            Q = np.array([[cd, -sd, 0], [sd, cd, 0], [0, 0, 1.]])
            for k in range(len(Ts)):
                r = Q.dot(M[k]).dot(Q.T)
                rv = np.array([r[0, 0], r[1, 1], r[2, 2], S2 * r[0, 1], S2 * r[0, 2], S2 * r[1, 2]])
                bad = np.abs(cr.dot(rv) - c.dot(Ts[k])) > 5e-12 * max(1., np.abs(Ts[k]).max())
                R.trace(len(grid))
                if bad.any():
                    R.fail('rotation:' + phase, 'amplitude changed when source and stations rotate together', {'grid': grid[int(np.argmax(bad))], 'by': d})


def forms(R, tier):
    """Every accepted way of giving the angles and phase."""
    from MTfit.inversion import station_angles
    sets = [[(0., 0.)], [(33., 71.)], [(33., 71.), (250., 120.)], [(10., 5.), (100., 95.), (190., 175.)],
            [(12. * i, 9. * i) for i in range(7)]]
    for st in sets:
        az, toa = [s[0] for s in st], [s[1] for s in st]
        kinds = {'array': np.array, 'matrix-column': lambda v: np.matrix(v).T, 'matrix-row': np.matrix, 'list': list}
        for ka, kt in itertools.product(sorted(kinds), sorted(kinds)):
            for phase in ('P', 'SH', 'SV', 'p', 'sh', 'sv', 'PQ', 'SHQ', 'SVQ', 'P/SH', 'P/SV', 'SH/SV', 'SH/P', 'SV/P', 'SV/SH', 'p/sh', 'P/SHQ'):
                for rad in (False, True):
                    R.state()
                    f = math.pi / 180 if rad else 1.
                    a, t = kinds[ka]([x * f for x in az]), kinds[kt]([x * f for x in toa])
                    a0, t0 = np.array(a).copy(), np.array(t).copy()
                    stations = {'Name': ['S%d' % i for i in range(len(st))], 'Azimuth': a, 'TakeOffAngle': t}
                    ok, c = R.call('station_angles', station_angles, stations, phase, rad)
                    if not ok:
                        continue
                    parts = phase.lower().rstrip('q').split('/')
                    got = c if len(parts) == 2 else (c,)
                    if not R.check(len(got) == len(parts), 'forms', 'returned %d blocks' % len(got), {'phase': phase}):
                        continue
                    for ph, x in zip(parts, got):
                        want = np.array([coefficients(s[0], s[1], ph) for s in st])
                        x = np.asarray(x)
                        R.check(x.shape == want.shape and np.allclose(x, want, rtol=0, atol=1e-12), 'forms', 'wrong coefficients for %s' % phase,
                                {'stations': st, 'phase': phase, 'radians': rad, 'azimuth as': ka, 'takeoff as': kt})
                    R.check(np.array_equal(np.array(stations['Azimuth']), a0) and np.array_equal(np.array(stations['TakeOffAngle']), t0), 'forms:input',
                            'input angles modified', {'phase': phase})


# ---- observation matrices ------------------------------------------------------------------------------------------
KEYS = {'pol': ['PPolarity', 'SHPolarity', 'SVPolarity', 'PPolarity2'],
        'prob': ['PPolarityProbability', 'SHPolarityProb', 'SVPolarityProbability'],
        'ratio': ['P/SHRMSAmplitudeRatio', 'P/SVAmplitudeRatio', 'SH/SVQAmplitudeRatio', 'P/SHQRMSAmplitudeRatio', 'SV/PRMSAmplitude_Ratio'],
        'rel': ['PAmplitude', 'SHRMSAmplitude', 'SVQAmplitude', 'PQRMSAmplitude']}
PHASE = {'PPolarity': 'p', 'SHPolarity': 'sh', 'SVPolarity': 'sv', 'PPolarity2': 'p', 'PPolarityProbability': 'p', 'SHPolarityProb': 'sh',
         'SVPolarityProbability': 'sv', 'P/SHRMSAmplitudeRatio': 'p/sh', 'P/SVAmplitudeRatio': 'p/sv', 'SH/SVQAmplitudeRatio': 'sh/sv',
         'P/SHQRMSAmplitudeRatio': 'p/sh', 'SV/PRMSAmplitude_Ratio': 'sv/p', 'PAmplitude': 'p', 'SHRMSAmplitude': 'sh', 'SVQAmplitude': 'sv',
         'PQRMSAmplitude': 'p'}
NAMES = ['S3', 'S1', 'S2', 'S4']
EXTRA = 'S0'


def geometry(name, rec):
    """Angles of a station in location record rec (-1: the data's own angles)."""
    i = int(name[1:])
    return 17. + 71.3 * i + 3.1 * rec + 0.37 * i * rec, 21. + 31.7 * i - 2.3 * rec + 0.11 * i * rec


def orders(n, tier):
    return list(itertools.permutations(range(n)))


def block(kind, key, j, names, ipp, form):
    """One data type: values are functions of (type index, station), so that every pairing error shows."""
    ids = [int(x[1:]) for x in names]
    col = {'array': lambda v: np.array(v), 'matrix': lambda v: np.matrix(v).T}[form]
    st = {'Name': list(names), 'Azimuth': col([geometry(x, -1)[0] for x in names]), 'TakeOffAngle': col([geometry(x, -1)[1] for x in names])}
    sgn = [1 if (i + j) % 2 else -1 for i in ids]
    if kind == 'pol':
        d = {'Measured': np.matrix(sgn).T, 'Error': np.matrix([0.01 * i + 0.1 * j + 0.001 for i in ids]).T}
    elif kind == 'prob':
        d = {'Measured': np.matrix([[0.1 * i + 0.05 * j, 0.7 - 0.13 * i - 0.02 * j] for i in ids]), 'Error': np.matrix([0.1] * len(ids)).T}
    elif kind == 'ratio':
        d = {'Measured': np.matrix([[s * (1. + i + 0.1 * j), 2.3 + 0.2 * i - 0.1 * j] for i, s in zip(ids, sgn)]),
             'Error': np.matrix([[0.01 * i + 0.1 * j + 0.02, 0.03 * i + 0.2 * j + 0.05] for i in ids])}
    else:
        d = {'Measured': np.matrix([s * (1.5 + i + 0.1 * j) for i, s in zip(ids, sgn)]).T, 'Error': np.matrix([0.02 * i + 0.1 * j + 0.03 for i in ids]).T}
    d['Stations'] = st
    if ipp == 2:
        d['IncorrectPolarityProbability'] = np.matrix([0.02 * i + 0.1 * j + 0.01 for i in ids]).T
    elif ipp == 1:
        d['IncorrectPolarityProbability'] = np.matrix([[0.05 + 0.03 * j]])
    return d


def expected(kind, data, records, ipp):
    """Multiset of rows: (coefficients over records [, second coefficients], observation, uncertainty, ...)."""
    out = []
    for key in data:
        d = data[key]
        ph = PHASE[key].split('/')
        for k, name in enumerate(d['Stations']['Name']):
            recs = range(len(records)) if records else [-1]
            cs = [np.concatenate([coefficients(*(geometry(name, r) + (p,))) for r in recs]) for p in ph]
            m = np.asarray(d['Measured'])[k]
            e = np.asarray(d['Error'])[k]
            if 'IncorrectPolarityProbability' in d:
                w = np.asarray(d['IncorrectPolarityProbability']).flatten()
                w = w[k] if len(w) > 1 or len(d['Stations']['Name']) == 1 else w[0]
            else:
                w = 0.
            if kind == 'pol':
                out.append(np.concatenate([cs[0] * m[0], [e[0], w]]))
            elif kind == 'prob':
                out.append(np.concatenate([cs[0], [m[0], m[1], w]]))
            elif kind == 'ratio':
                out.append(np.concatenate([cs[0], cs[1], [abs(m[0] / m[1]), e[0] / abs(m[0]), e[1] / abs(m[1])]]))
            else:
                out.append(np.concatenate([cs[0], [abs(m[0]), e[0] / abs(m[0]), int(name[1:])]]))
    return out


def spread(x, n):
    x = np.asarray(x, float).flatten()
    return np.ones(n) * x[0] if len(x) == 1 else x


def rows_of(kind, r):
    """Rows of the returned matrices in the layout of `expected`."""
    def flat(a):
        a = np.asarray(a, float)
        return a.reshape(a.shape[0], -1)
    if kind == 'pol':
        a, e, w = r
        a = flat(a)
        cols = [a, np.asarray(e, float).flatten(), spread(w, len(a))]
    elif kind == 'prob':
        a, (p, n), w = r
        a = flat(a)
        cols = [a, np.asarray(p, float).flatten(), np.asarray(n, float).flatten(), spread(w, len(a))]
    elif kind == 'ratio':
        a = flat(r[0])
        cols = [a, flat(r[1])] + [np.asarray(x, float).flatten() for x in r[2:]]
    else:
        a = flat(r[0])
        cols = [a, np.asarray(r[1], float).flatten(), np.asarray(r[2], float).flatten(), np.array([int((x if isinstance(x, str) else x[0])[1:]) for x in r[3]], float)]
    if any(len(c) != len(a) for c in cols):
        return None
    return np.column_stack(cols)


def same_rows(got, want):
    want = list(want)
    if got is None or len(got) != len(want):
        return False
    for g in got:
        for i, w in enumerate(want):
            if len(g) == len(w) and np.allclose(g, w, rtol=1e-11, atol=1e-11):
                del want[i]
                break
        else:
            return False
    return True


def matrices(R, tier, multi):
    from MTfit import inversion
    fns = {'pol': inversion.polarity_matrix, 'prob': inversion.polarity_probability_matrix, 'ratio': inversion.amplitude_ratio_matrix,
           'rel': inversion.relative_amplitude_ratio_matrix}
    full = tier != 'quick'
    for kind in ('pol', 'prob', 'ratio', 'rel'):
        for keys in itertools.combinations(KEYS[kind], multi):
            if multi == 1:
                sizes = [(1,), (2,), (3,)] + ([(4,)] if full else [])
            elif multi == 2:
                sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (1, 3)] if full else [])
            else:
                sizes = [(1, 2, 1), (2, 1, 2), (2, 2, 2)] + ([(3, 1, 2)] if full else [])
            for size in sizes:
                for offs in (((0,) * multi,) if multi == 1 else ((0,) * multi, tuple(range(multi)))):
                    one(R, kind, fns, keys, size, offs, full, multi)


def location_patterns(need, full, few):
    """Location records: every record lists the needed stations plus optionally one more, each in its own order."""
    base = sorted(need)
    out = [None]
    for extra in (0, 1):
        names = base + ([EXTRA] if extra else [])
        perms = list(itertools.permutations(names))
        if len(perms) > 24:
            perms = perms[::5] if not full else perms[::2]
        if few and not full:
            perms = perms[:2] + perms[-2:]
        for p in perms:
            out.append([p])
        # two and three records in different orders
        sel = perms if len(perms) <= 6 else perms[::max(1, len(perms) // 6)]
        for p in sel:
            for q in sel:
                out.append([p, q])
        out.append([sel[0], sel[-1], sel[len(sel) // 2]])
        # a record may list further stations
        out.append([sel[0], tuple(sel[-1]) + ('S9',)])
        out.append([tuple(sel[-1]) + ('S9',), sel[0]])
    return out


def one(R, kind, fns, keys, size, offs, full, multi):
    few = multi > 1
    ords = [orders(n, None) for n in size]
    combos = list(itertools.product(*ords))
    if few:
        combos = combos[:3] + combos[-3:] if len(combos) > 6 else combos
    elif not full and len(combos) > 6:
        combos = combos[::5]
    ipps = list(itertools.product((0, 1, 2), repeat=multi)) if kind in ('pol', 'prob') else [(0,) * multi]
    if multi == 3 and len(ipps) > 1:
        ipps = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 2, 2), (1, 0, 2)]
    for ci, co in enumerate(combos):
        names = [[NAMES[(o + k) % len(NAMES)] for k in c] for o, c in zip(offs, co)]
        need = set(x for n in names for x in n)
        locs = location_patterns(need, full, few)
        for ii, ipp in enumerate(ipps):
            for li, loc in enumerate(locs):
                if few and not full and ii and li % 3 != ii % 3:
                    continue
                if few and not full and ci and li % 4 != ci % 4:
                    continue
                form = 'matrix' if (li + ci) % 2 else 'array'
                # each data type of the event is built twice: the other kinds must not leak into this one
                data = dict((k, block(kind, k, j, n, w, form)) for j, (k, n, w) in enumerate(zip(keys, names, ipp)))
                full_event = dict(data)
                if (li + ii) % 2:
                    for other in KEYS:
                        if other != kind:
                            full_event[KEYS[other][0]] = block(other, KEYS[other][0], 5, names[0][::-1], 0, 'array')
                    full_event['UID'] = 'X'
                records = None
                if loc:
                    records = []
                    for r, order in enumerate(loc):
                        g = [geometry(x, r) for x in order]
                        col = (lambda v: np.matrix(v).T) if (r + li) % 2 else np.array
                        records.append({'Name': list(order), 'Azimuth': col([x[0] for x in g]), 'TakeOffAngle': col([x[1] for x in g])})
                before = [list(r['Name']) for r in records] if records else None
                R.state()
                desc = {'types': keys, 'stations': names, 'mispick given': ipp, 'location records': loc}
                ok, r = R.call(kind, fns[kind], full_event, records if records else False)
                if not ok:
                    continue
                got = rows_of(kind, r)
                want = expected(kind, data, records, ipp)
                R.check(same_rows(got, want), 'pairing:' + kind, 'coefficients and observations are not paired as in the data',
                        dict(desc, got=got, want=want))
                if records:
                    R.check([list(q['Name']) for q in records] == before and
                            all(abs(float(np.asarray(q['Azimuth']).flatten()[k]) - geometry(nm, i)[0]) < 1e-12 for i, q in enumerate(records) for k, nm in enumerate(q['Name'])),
                            'records:modified', 'the location records were modified', desc)
    # no data of this kind: every output is empty
    ok, r = R.call(kind, fns[kind], {'UID': 'X'}, False)
    if ok:
        R.check(isinstance(r[0], bool) and not r[0], 'empty:' + kind, 'no data gave %r' % (r,), None)
