"""C17 - CSV/hyp parsing, pickled inversion files and binary result files preserve their data."""
import itertools
import os
import pickle
import numpy as np

ASSUMPTIONS = ['CSV: one section per data type and event, each with its own header line; fields hold no commas',
               'hyp: phase lines with numeric NonLinLoc columns, an END_NLLOC line per event; events without picks may or may not be listed',
               'binary files: off-diagonal components may change by rounding (division and multiplication by sqrt 2)']
COLS = ['Name', 'Azimuth', 'TakeOffAngle', 'Measured', 'Error']
TYPES = [('PPolarity', 1, 1), ('P/SHRMSAmplitudeRatio', 2, 2), ('SHPolarity', 1, 1), ('PPolarityProb', 2, 1), ('PAmplitude', 1, 1), ('P/SVQAmplitudeRatio', 2, 2), ('SVPolarityProbability', 2, 2), ('P/SHRMSQAmplitudeRatio', 1, 2)]
CONV = ['g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2']


def shards(tier, seed):
    out = []
    for q in range(3):
        out.append(dict(name='headers-%d' % q, mode='c', fn='headers', kw=dict(tier=tier, part=q), cost=6))
    out += [dict(name='layouts', mode='c', fn='layouts', kw=dict(tier=tier), cost=6), dict(name='frontend', mode='c', fn='frontend', kw=dict(tier=tier), cost=5),
            dict(name='hyp', mode='c', fn='hyp', kw=dict(tier=tier), cost=5), dict(name='binary', mode='c', fn='binary', kw=dict(tier=tier), cost=5),
            dict(name='records', mode='c', fn='records', kw=dict(tier=tier), cost=5),
            dict(name='scale', mode='c', fn='scale', kw=dict(tier=tier), cost=5),
            dict(name='sampled-c', mode='c', fn='sampled', kw=dict(tier=tier), cost=5), dict(name='sampled-py', mode='py', fn='sampled', kw=dict(tier=tier), cost=5)]
    return out


class Values:
    """Distinct numbers, so that any exchanged cell shows."""

    def __init__(self):
        self.n = 0

    def name(self):
        self.n += 1
        return ['S%03d', 'ST%d', 'X_%dA', 'st-%d'][self.n % 4] % self.n

    def number(self):
        self.n += 1
        n = self.n
        return [str(n), '%d.5' % n, '-%d.25' % n, '%de-3' % n, '0.%04d' % n, '+%d' % n][n % 6]

    def angle(self, top):
        self.n += 1
        return ['%.3f', '%.1f', '%d'][self.n % 3] % (self.n * 7.3 % top)


def section(V, kind, n, order):
    """(csv lines, expected record)"""
    name, nm, ne = kind
    lines, rec = [name + ',,,,', ','.join(COLS[c] for c in order)], {'Name': [], 'Azimuth': [], 'TakeOffAngle': [], 'Measured': [], 'Error': []}
    for _ in range(n):
        cell = {'Name': V.name(), 'Azimuth': V.angle(360), 'TakeOffAngle': V.angle(180), 'Measured': ' '.join(V.number() for _ in range(nm)), 'Error': ' '.join(V.number() for _ in range(ne))}
        lines.append(','.join(cell[COLS[c]] for c in order))
        for k in rec:
            rec[k].append(cell[k] if k == 'Name' else [float(x) for x in cell[k].split()])
    return lines, rec


def event(V, uid, kinds, ns, orders, uidform=0):
    lines, rec = [], {}
    if uid is not None:
        lines.append(['UID=%s,,,,', 'UID=%s', 'UID:%s,,,,', 'UID= %s ,,,,'][uidform % 4] % uid)
    for k, n, o in zip(kinds, ns, orders):
        l, r = section(V, k, n, o)
        lines += l
        rec[k[0]] = r
    return lines, (uid, rec)


def same(R, got, want, key, text):
    """got: parsed list; want: list of (uid, {type: record})."""
    data = lambda: {'file': text[:3000]}
    if not R.check(isinstance(got, list) and len(got) == len(want), key + ':events', 'the number of events differs from the file', data):
        return
    for i, (g, (uid, rec)) in enumerate(zip(got, want)):
        R.check(set(g) - {'UID', 'hyp_file'} == set(rec), key + ':types', 'the data types of event %d differ from the file' % (i + 1), data)
        if uid is not False:
            R.check(str(g.get('UID')) == (str(i + 1) if uid is None else uid), key + ':uid', 'UID of event %d is %r' % (i + 1, g.get('UID')), data)
        for t in rec:
            if t not in g:
                continue
            r = rec[t]
            try:
                R.check(list(g[t]['Stations']['Name']) == r['Name'], key + ':names', '%s of event %d: station names differ' % (t, i + 1), data)
                for f, v in (('Azimuth', g[t]['Stations']['Azimuth']), ('TakeOffAngle', g[t]['Stations']['TakeOffAngle']), ('Measured', g[t]['Measured']), ('Error', g[t]['Error'])):
                    v, w = np.asarray(v, float), np.asarray(r[f], float)
                    R.check(v.shape == w.shape and np.allclose(v, w, rtol=1e-12, atol=0), key + ':' + f, '%s of %s in event %d differs from the file' % (f, t, i + 1),
                            lambda: dict(data(), got=v.tolist(), expected=w.tolist()))
            except (KeyError, TypeError, ValueError) as e:
                R.check(False, key + ':structure', '%s of event %d: %r' % (t, i + 1, e), data)


def write(text, name='in.csv', newline='\n'):
    with open(name, 'w', newline=newline) as f:
        f.write(text)
    return name


def parse(R, text, want, key, newline='\n', inv=False):
    from MTfit.utilities.file_io import parse_csv, csv2inv
    R.state()
    fn = write(text, newline=newline)
    ok, got = R.call(key, parse_csv, fn)
    if ok:
        same(R, got, want, key, text)
    if inv:
        if os.path.exists('in.inv'):
            os.remove('in.inv')
        ok, _ = R.call(key + ':inv', csv2inv, fn)
        if ok and R.check(os.path.exists('in.inv'), key + ':inv:missing', 'no inversion file was written', {'file': text[:2000]}):
            with open('in.inv', 'rb') as f:
                same(R, pickle.load(f), want, key + ':inv', text)


BLANK = ',,,,'


def headers(R, tier, part):
    """Every column order for every pair of consecutive sections (second section in the same or in the next event)."""
    P = list(itertools.permutations(range(5)))
    step = 2 if tier == 'quick' else 1
    count = 0
    for i, a in enumerate(P):
        if i % 3 != part:
            continue
        for j in range(i % step, len(P), step):
            b = P[j]
            for split in (False, True):
                V = Values()
                ka, kb = TYPES[(i + j) % 8], TYPES[(i + j + 1 + i % 7) % 8]
                if split:
                    l1, w1 = event(V, None, [ka], [2], [a])
                    l2, w2 = event(V, None, [kb], [1 + j % 3], [b])
                    parse(R, '\n'.join(l1 + [BLANK] + l2) + '\n', [w1, w2], 'header')
                else:
                    l, w = event(V, 'E', [ka, kb], [2, 1 + j % 3], [a, b])
                    parse(R, '\n'.join(l) + '\n', [w], 'header', inv=(count % 16 == 0))
                count += 1
    R.sample({'column orders': len(P), 'pairs': count})


def compositions(tier):
    """Number of types of each event."""
    for n in (1, 2, 3):
        yield from itertools.product((1, 2, 3, 4), repeat=n)
    if tier == 'quick':
        yield from [(1, 2, 3, 4), (4, 1, 1, 2), (2, 2, 2, 2), (1, 1, 1, 1, 1), (3, 1, 4, 1, 2), (4, 4, 4, 4, 4)]
    else:
        for n in (4, 5):
            yield from itertools.product((1, 2, 3, 4), repeat=n)


def layouts(R, tier):
    P = list(itertools.permutations(range(5)))
    c = 0
    for comp in compositions(tier):
        for rep in range(3 if tier == 'quick' else 4):
            c += 1
            V, lines, want = Values(), [], []
            ends = []
            for e, nt in enumerate(comp):
                uid = [None, 'ev%d' % e, '2010.%d' % e][(c + e) % 3]
                kinds = [TYPES[(c * 3 + e + q) % 8] for q in range(nt)]
                ns = [1 + (c * 5 + e * 3 + q * 7) % (20 if rep == 2 else 4) for q in range(nt)]
                l, w = event(V, uid, kinds, ns, [P[(c * 17 + e * 29 + q * 41) % 120] for q in range(nt)], c + e)
                ends.append(l)
                want.append(w)
            sep = [[BLANK], [BLANK, BLANK], [','], [',' * 6]][c % 4]
            for e, l in enumerate(ends):
                lines += (sep if e else []) + l
            if c % 5 == 1:
                lines += [BLANK]
            if c % 5 == 2:
                lines = [BLANK] + lines + [BLANK, BLANK]
            text = '\n'.join(lines) + ('' if c % 3 == 0 else '\n')
            parse(R, text, want, 'layout', newline='\r\n' if c % 7 == 3 else '\n', inv=(c % 4 == 0))
            R.outcome('events', len(comp))
    # every presence/absence of UIDs, repeated identical events, numbers of stations
    for n in range(1, 6):
        for uids in itertools.product((None, 'A', 'B7'), repeat=n):
            if n > 3 and tier == 'quick' and hash_(uids) % 5:
                continue
            for equal in (False, True):
                V, lines, want = Values(), [], []
                for e, u in enumerate(uids):
                    if equal:
                        V = Values()
                    l, w = event(V, u, [TYPES[0]], [1], [range(5)])
                    lines += ([BLANK] if e else []) + l
                    want.append(w)
                parse(R, '\n'.join(lines) + '\n', want, 'uid' + (':equal' if equal else ''))
    for n in range(1, 21):
        for k in TYPES[:4]:
            V = Values()
            l, w = event(V, 'N', [k], [n], [P[(n * 31) % 120]])
            parse(R, '\n'.join(l) + '\n', [w], 'stations', inv=True)
    # separators the documentation calls blank lines: lines of commas, empty lines
    for sep in ([','], [BLANK], [''], [BLANK, ''], ['', ''], ['', BLANK]):
        for tail in ([], [BLANK], [''], ['', '']):
            for u in (None, 'Q'):
                V = Values()
                l1, w1 = event(V, u, [TYPES[0], TYPES[1]], [2, 2], [P[3], P[77]])
                l2, w2 = event(V, None, [TYPES[1]], [3], [P[50]])
                parse(R, '\n'.join(l1 + sep + l2 + tail) + '\n', [w1, w2], 'separator' + (':empty' if '' in sep + tail else ''))
    R.sample({'files': c})


def hash_(x):
    return sum((i + 1) * (len(str(v)) + ord(str(v)[0])) for i, v in enumerate(x))


def frontend(R, tier):
    """The inversion front end loads the same data from the csv, inversion and hyp files."""
    from MTfit.inversion import Inversion
    from MTfit.utilities.file_io import csv2inv
    P = list(itertools.permutations(range(5)))
    for c, comp in enumerate([(1,), (2,), (1, 2), (3, 1), (2, 1, 2), (1, 1, 1, 1, 1)]):
        V, lines, want = Values(), [], []
        for e, nt in enumerate(comp):
            l, w = event(V, [None, 'F%d' % e][(c + e) % 2], [TYPES[[0, 1, 2, 4][(e + q) % 4]] for q in range(nt)], [2 + q for q in range(nt)], [P[(c * 11 + e * 7 + q) % 120] for q in range(nt)])
            lines += ([BLANK] if e else []) + l
            want.append(w)
        text = '\n'.join(lines) + '\n'
        fn = write(text)
        csv2inv(fn)
        for name in ('in.csv', 'in.inv'):
            R.state()
            ok, inv = R.call('frontend', lambda: Inversion(data_file=name, parallel=False, inversion_options=['PPolarity'], phy_mem=1))
            if ok:
                data = inv.data if isinstance(inv.data, list) else [inv.data]
                same(R, data, want, 'frontend:' + name[-3:], text)
    for ev in ([1], [2, 1], [3, 2, 1]):
        text, want = hyp_file(ev, 0)
        write(text, 'in.hyp')
        ok, inv = R.call('frontend', lambda: Inversion(data_file='in.hyp', parallel=False, inversion_options=['PPolarity'], phy_mem=1))
        if ok:
            data = inv.data if isinstance(inv.data, list) else [inv.data]
            same(R, data, [(False, w) for w in want], 'frontend:hyp', text)


HEAD = '''NLLOC "./loc/x.2010.grid0" "LOCATED" "Location completed."
SIGNATURE "   obs:./obs.nll   NLLoc:v5.00 (14Sep2010)   run:14Jan2013 16h04m02"
COMMENT "x"
GRID  201 201 101  -10 -10 -2  0.1 0.1 0.1 PROB_DENSITY
SEARCH OCTREE nInitial 5120 nEvaluated 16021 smallestNodeSide 0.007
HYPOCENTER  x 7.25 y 1.5 z 5.9  OT 0.83  ix -1 iy -1 iz -1
GEOGRAPHIC  OT 2010 07 16  19 04 %02d.8338  Lat 65.11 Long -16.33 Depth 5.93
QUALITY  Pmax 1.2e+03 MFmin 0.31 MFmax 4.8 RMS 0.02 Nphs 18 Gap 90 Dist 3.1 Mamp -9.9e+01 0 Mdur -9.9e+01 0
VPVSRATIO  VpVsRatio 1.79  Npair 8  Diff 1
STATISTICS  ExpectX 7.26 Y 1.51 Z 5.92  CovXX 0.004 XY 0.001 XZ 0 YY 0.004 YZ 0 ZZ 0.02 EllAz1  145 Dip1 1 Len1 0.13 Az2  55 Dip2 2 Len2 0.14 Len3  2.9e-01
STAT_GEOG  ExpectLat 65.1 Long -16.3 Depth 5.9
TRANSFORM  LAMBERT RefEllipsoid WGS-84  LatOrig 65 LongOrig -16 FirstStdParal 60  SecondStdParal 70 RotCW 0
QML_OriginQuality  assocPhCt 18 usedPhCt 18
FOCALMECH  65.1 -16.3 5.9 Mech 0 0 0 mf 0 nObs 0
PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per  >   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr
'''
TAIL = 'END_PHASE\nEND_NLLOC\n\n'
SYM = {'U': 1, 'D': -1, '+': 1, '-': -1, 'C': 1, '?': 0, '.': 0, 'u': 1, 'd': -1, 'c': 1, 'P': 1, 'N': -1, 'p': 1, 'n': -1}
# (phase, symbol)
ALPHA = [('P', s) for s in SYM if s not in 'PNpn'] + [('S', '?'), ('S', 'P'), ('S', 'N'), ('SH', 'p'), ('SV', 'n')]


def phase_line(V, phase, sym, w, extra=False):
    name, err, az, dip = V.name(), float('%.3e' % (.001 * V.n)), float(V.angle(360)), float(V.angle(180))
    line = '%-6s ?    ?    %s %-6s %s 20100716 1904   01.%04d GAU  %.2e -1.00e+00 %.2e -1.00e+00 >    1.2%03d    0.0%02d    1.2%03d    %d.5    -%d.25    0.75    %d.1    %d.2 %6.1f %6.1f  9     0.0' % (
        name, '?ie'[V.n % 3], phase, sym, V.n, err, 7. * V.n, V.n, V.n, V.n, V.n, V.n, V.n, V.n, az, dip)
    if extra:
        line += '  ' + '0.1 ' * (V.n % 3)
    rec = w.setdefault(phase + 'Polarity', {'Name': [], 'Azimuth': [], 'TakeOffAngle': [], 'Measured': [], 'Error': []}) if SYM[sym] else None
    if rec is not None:
        for k, v in (('Name', name), ('Azimuth', [float('%6.1f' % az)]), ('TakeOffAngle', [float('%6.1f' % dip)]), ('Measured', [SYM[sym]]), ('Error', [3 * err])):
            rec[k].append(v)
    return line + '\n'


def hyp_event(V, picks, i=0, extra=False):
    w = {}
    text = HEAD % (i % 60)
    for p, s in picks:
        text += phase_line(V, p, s, w, extra)
    return text + TAIL, w


def hyp_file(counts, c, picks=None):
    V, text, want = Values(), '', []
    for i, n in enumerate(counts):
        t, w = hyp_event(V, picks[i] if picks else [ALPHA[(c + 3 * q) % 10] if q else ('P', 'U') for q in range(n)], i)
        text += t
        want.append(w)
    return text, want


def hyp(R, tier):
    from MTfit.utilities.file_io import parse_hyp, hyp_output_dicts
    depth = 2 if tier == 'quick' else 3

    def run(text, want, key, rewrite=False):
        rewrite = rewrite and not any('SPolarity' in w for w in want)
        R.state()
        fn = write(text, 'in.hyp')
        ok, got = R.call(key, parse_hyp, fn)
        if not ok:
            return
        if not all(want):
            # events without picks may be listed or not
            if len(got) != len(want):
                want = [w for w in want if w]
            got_types = [set(g) - {'UID', 'hyp_file'} for g in got]
            if len(got) != len(want):
                got = [g for g, t in zip(got, got_types) if t]
        same(R, got, [(False, w) for w in want], key, text)
        if rewrite and len(got) == 1:
            # written back with a result (mechanism and polarity fits) it still holds the picks
            out = {'moment_tensor_space': np.matrix([[1., 2.], [2., 1.], [1., 2.], [2., 1.], [1., 2.], [2., 1.]]), 'dkl': 1.2, 'ln_pdf': np.matrix([0, 0.7]), 'probability': np.matrix([[1., 2.]]), 'total_number_samples': 400}
            ok, r = R.call(key + ':rewrite', lambda: hyp_output_dicts(got[0], False, out))
            if ok:
                write(r[0], 'out.hyp')
                ok, again = R.call(key + ':rewrite', parse_hyp, 'out.hyp')
                if ok:
                    same(R, again, [(False, w) for w in want], key + ':rewrite', r[0])
    n = 0
    for k in range(0, depth + 1):
        for picks in itertools.product(ALPHA, repeat=k):
            V = Values()
            t, w = hyp_event(V, picks, n, extra=n % 4 == 3)
            run(t, [w], 'hyp', rewrite=bool(w) and n % 3 == 0)
            n += 1
    # longer events over a smaller alphabet, several events per file
    small = [('P', 'U'), ('P', '-'), ('P', '?'), ('S', 'P'), ('S', 'N')]
    for k in range(3, 5 if tier == 'quick' else 7):
        for picks in itertools.product(small, repeat=k):
            V = Values()
            t, w = hyp_event(V, picks, n)
            run(t, [w], 'hyp:long', rewrite=bool(w) and n % 7 == 0)
            n += 1
    some = [[], [small[0]], [small[3], small[1]], [small[2]], [small[0], small[4], small[1], small[2], small[0]]]
    for k in (2, 3) if tier == 'quick' else (2, 3, 4):
        for evs in itertools.product(some, repeat=k):
            text, want = hyp_file([0] * k, 0, evs)
            run(text, want, 'hyp:events')
            n += 1
    # last event without END_NLLOC or blank line
    for evs in itertools.product(some[1:], repeat=2):
        text, want = hyp_file([0] * 2, 0, evs)
        run(text.replace('\n\n', '\n'), want, 'hyp:dense')
        run('\n' + text.rstrip('\n'), want, 'hyp:tail')
    R.sample({'files': n, 'alphabet': len(ALPHA)})


def record(n, conv, seed=0, p2=True, kind='plain', total=None, lnpdf='matrix'):
    """A result dictionary with n samples; all cells distinct."""
    i = np.arange(n, dtype=float)
    M = np.array([[(-1) ** (r + q) * (1 + r * 1000 + q + seed * 7919) / 1e4 for q in range(n)] for r in range(6)]).reshape(6, n)
    p = (1 + i + seed) / 997
    ln = np.log(p) - 3 - seed
    if kind == 'special' and n:
        p[::2] = [0., 5e-324, 1e300, np.inf][seed % 4]
        ln[::2] = [-np.inf, -745., 690., 1e308][seed % 4]
        M[:, -1] = [0., -0., 1e-310, 1e300, -1., 1.]
    o = {'moment_tensor_space': np.matrix(M), 'probability': np.matrix(p) if p2 else p.copy(), 'ln_pdf': np.matrix(ln), 'total_number_samples': n + 10 + 1000003 * seed if total is None else total}
    if lnpdf == '1d':
        o['ln_pdf'] = ln.copy()
    if lnpdf == 'array':
        o['ln_pdf'] = ln[None].copy()
    if conv:
        for q, k in enumerate(CONV):
            o[k] = (q + 1) * 100 + i + seed / 16.
    if (seed + n) % 3:
        o['ln_bayesian_evidence'] = -12.5 + seed
    if (seed + n) % 2:
        o['dkl'] = .25 * seed + .125
    return o


def same_record(R, got, want, key, info, end=''):
    M, N = np.asarray(got['moment_tensor_space'], float), np.asarray(want['moment_tensor_space' + end], float)
    with np.errstate(over='ignore'):
        R.check(M.shape == N.shape and np.allclose(M, N, rtol=1e-15, atol=5e-324), key + ':tensors', 'the tensors read back differ', lambda: dict(info, got=M.tolist(), expected=N.tolist()))
    for k in ('probability', 'ln_pdf'):
        a = np.asarray(got[k], float).flatten()
        b = want[k]
        b = np.asarray(getattr(b, '_ln_pdf', b), float).flatten()
        R.check(np.array_equal(a, b), key + ':' + k, '%s read back differs' % k, lambda: dict(info, got=a.tolist(), expected=b.tolist()))
    R.check(int(got['total_number_samples']) == int(want['total_number_samples']), key + ':count', 'the sample count read back differs', lambda: dict(info, got=int(got['total_number_samples']), expected=int(want['total_number_samples'])))
    conv = all(k + end in want for k in CONV)
    for k in CONV:
        if conv:
            ok = k in got and np.array_equal(np.asarray(got[k], float).flatten(), np.asarray(want[k + end], float).flatten())
            R.check(ok, key + ':converted', 'converted parameter %s read back differs' % k, lambda: dict(info, got=np.asarray(got.get(k, np.nan), float).tolist(), expected=np.asarray(want[k + end], float).tolist()))
        else:
            R.check(k not in got, key + ':converted', 'converted parameter %s appears from nowhere' % k, info)


STATIONS = {'UID': 'B', 'PPolarity': {'Stations': {'Name': ['S1', 'S2'], 'Azimuth': np.matrix([[10.], [120.]]), 'TakeOffAngle': np.matrix([[30.], [50.]])}, 'Measured': np.matrix([[1], [-1]]), 'Error': np.matrix([[.05], [.1]])}}


def to_binary(out, multiple=0):
    """Binary moment tensor bytes of a result through the output routines."""
    import copy
    from MTfit.utilities.file_io import hyp_output_dicts, hyp_output
    ev = [copy.deepcopy(STATIONS) for _ in range(multiple)] if multiple else copy.deepcopy(STATIONS)
    r = hyp_output_dicts(ev, ['PPolarity'], copy.deepcopy(out), multiple_events=bool(multiple))
    for f in ('b.hyp', 'b.mt', 'b.sf'):
        if os.path.exists(f):
            os.remove(f)
    hyp_output(list(r), 'b.hyp')
    with open('b.mt', 'rb') as f:
        return f.read()


def quiet(f, *args):
    """The output routines print tracebacks of ignored problems in the text file."""
    import contextlib
    import io
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        return f(*args)


def read(R, blob, key):
    from MTfit.utilities.file_io import read_binary_output
    with open('r.mt', 'wb') as f:
        f.write(blob)
    return R.call(key, read_binary_output, 'r.mt')


def binary(R, tier):
    top = 12 if tier == 'quick' else 64
    for n in list(range(1, top)) + [100, 257] + ([2000] if tier != 'quick' else []):
        for conv, p2, ln, kind in itertools.product((False, True), (False, True), ('matrix', '1d', 'array'), ('plain', 'special')):
            for seed in (0, 1, 3) if n < 6 else (n % 4,):
                o = record(n, conv, seed, p2, kind, lnpdf=ln)
                R.state()
                info = {'n': n, 'converted': conv, 'kind': kind, 'probability 2-D': p2, 'ln_pdf': ln}
                ok, b = R.call('binary', quiet, to_binary, o)
                if ok:
                    ok, r = read(R, b, 'binary')
                    if ok and R.check(len(r) == 1, 'binary:records', '%d records read, 1 written' % len(r), info):
                        same_record(R, r[0], o, 'binary', info)
    for total in (0, 1, 255, 256, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 53 + 1, 2 ** 63):
        o = record(2, True, 1, total=total)
        ok, b = R.call('binary', quiet, to_binary, o)
        if ok:
            ok, r = read(R, b, 'binary')
            if ok and len(r) == 1:
                same_record(R, r[0], o, 'binary:total', {'total': total})
    # a partly converted result is stored as an unconverted one, with everything else intact
    for miss in CONV:
        o = record(3, True, 2)
        del o[miss]
        ok, b = R.call('binary:partial', quiet, to_binary, o)
        if ok:
            ok, r = read(R, b, 'binary:partial')
            if ok and len(r) == 1:
                same_record(R, r[0], o, 'binary:partial', {'missing': miss})
    # joint inversions: one record per event
    for ne in (2, 3):
        for n in (1, 2, 5):
            for conv in (False, True):
                rs = [record(n, conv, s) for s in range(ne)]
                o = {'probability': rs[0]['probability'], 'ln_pdf': rs[0]['ln_pdf'], 'total_number_samples': 77}
                for e in range(ne):
                    o['moment_tensor_space_%d' % (e + 1)] = rs[e]['moment_tensor_space']
                    for k in CONV if conv else ():
                        o['%s_%d' % (k, e + 1)] = rs[e][k]
                ok, b = R.call('joint', quiet, to_binary, o, ne)
                if ok:
                    ok, r = read(R, b, 'joint')
                    if ok and R.check(len(r) == ne, 'joint:records', '%d records read for %d events' % (len(r), ne), {'n': n}):
                        for e in range(ne):
                            same_record(R, r[e], o, 'joint', {'events': ne, 'event': e + 1, 'n': n}, '_%d' % (e + 1))
    R.sample({'sizes': top})


def records(R, tier):
    """All sequences of records over a small alphabet of record shapes."""
    alpha = [(0, False), (0, True), (1, False), (1, True), (3, False), (2, True)]
    blobs = {}
    from MTfit.utilities.file_io import _convert_mt_space_to_struct, read_binary_output
    for a in alpha:
        for pos in range(4):
            o = record(a[0], a[1], pos)
            ok, b = R.call('records:write', _convert_mt_space_to_struct, o) if not a[0] else R.call('records:write', quiet, to_binary, o)
            if ok:
                blobs[a, pos] = (o, b[0] if isinstance(b, tuple) else b)
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for w in itertools.product(alpha, repeat=k):
            if any((a, i) not in blobs for i, a in enumerate(w)):
                continue
            R.state()
            ok, r = read(R, b''.join(blobs[a, i][1] for i, a in enumerate(w)), 'records')
            if ok and R.check(len(r) == k, 'records:number', '%d records read, %d written' % (len(r), k), {'records': w}):
                for i, a in enumerate(w):
                    same_record(R, r[i], blobs[a, i][0], 'records', {'records': w, 'position': i})
            R.outcome('records', k)
            # the same records in the first file format (neither version nor Dkl), written by earlier releases
            old = b''.join(old_record(blobs[a, i][1]) for i, a in enumerate(w))
            with open('o.mt', 'wb') as f:
                f.write(old)
            ok, r = R.call('records:version 1', read_binary_output, 'o.mt', version=1)
            if ok and R.check(len(r) == k, 'records:version 1:number', '%d records read, %d written' % (len(r), k), {'records': w}):
                for i, a in enumerate(w):
                    same_record(R, r[i], blobs[a, i][0], 'records:version 1', {'records': w, 'position': i})
    R.sample({'alphabet': len(alpha)})


def old_record(b):
    return b[8:33] + b[41:]


def scale(R, tier):
    """Joint results of relative amplitudes also carry scale factors for each sample and pair of events."""
    from MTfit.utilities.file_io import read_sf_output
    blobs = {}
    for ne, n, loc, conv, seed in itertools.product((2, 3, 4), (1, 2, 3, 5), (0, 1, 3), (False, True), (0, 1)):
        if tier == 'quick' and conv and (n > 2 or seed):
            continue
        rs = [record(n, conv, s + seed) for s in range(ne)]
        o = {'probability': rs[0]['probability'], 'ln_pdf': rs[0]['ln_pdf'], 'total_number_samples': 77 + seed}
        for e in range(ne):
            o['moment_tensor_space_%d' % (e + 1)] = rs[e]['moment_tensor_space']
            for k in CONV if conv else ():
                o['%s_%d' % (k, e + 1)] = rs[e][k]
        o['scale_factors'], want = [], []
        for i in range(n):
            cell = lambda q: np.array([[1 + ((i * 7 + q) * ne + a) * ne + b + seed / 8. for b in range(ne)] for a in range(ne)])
            if loc == 0:
                sf = {'mu': cell(0), 'sigma': cell(3) / 64}
                want.append((sf['mu'], sf['sigma']))
            else:
                m, g = np.array([cell(q) for q in range(loc)]), np.array([cell(q + 3) / 64 for q in range(loc)])
                sf = {'mu': m, 'sigma': g, 'ln_p': np.array([-700. * seed - .5 * ((q + i) % loc) for q in range(loc)])}
                w = np.exp(sf['ln_p'] - sf['ln_p'].max())
                w /= w.sum()
                mean = sum(a * b for a, b in zip(w, m))
                want.append((mean, np.sqrt(sum(a * (d * d + (b - mean) ** 2) for a, b, d in zip(w, m, g)))))
            o['scale_factors'].append(sf)
        info = {'events': ne, 'samples': n, 'location samples': loc, 'converted': conv}
        R.state()
        ok, b = R.call('scale:write', quiet, to_binary, o, ne)
        if not ok:
            continue
        ok, r = read(R, b, 'scale')
        if ok and R.check(len(r) == ne, 'scale:records', '%d records read for %d events' % (len(r), ne), info):
            for e in range(ne):
                same_record(R, r[e], o, 'scale', info, '_%d' % (e + 1))
        if not R.check(os.path.exists('b.sf') and os.path.getsize('b.sf') > 0, 'scale:missing', 'no scale factors were written', info):
            continue
        with open('b.sf', 'rb') as f:
            blob = f.read()
        ok, r = R.call('scale:read', read_sf_output, 'b.sf')
        # (one copy of the scale factors for each event record, or one for all)
        if ok and R.check(len(r) in (1, ne), 'scale:sf-records', '%d scale factor records for %d events' % (len(r), ne), info):
            for x in r:
                same_sf(R, x, o, want, 'scale', info)
            blobs.setdefault((ne, n), []).append((o, want, blob, len(r)))
    # several records in a file
    for w in itertools.permutations(sorted(blobs), 2 if tier == 'quick' else 3):
        parts = [blobs[k][(i + len(w)) % len(blobs[k])] for i, k in enumerate(w)]
        with open('c.sf', 'wb') as f:
            f.write(b''.join(x[2] for x in parts))
        R.state()
        ok, r = R.call('scale:concatenated', read_sf_output, 'c.sf')
        if ok and R.check(len(r) == sum(x[3] for x in parts), 'scale:concatenated', '%d scale factor records read' % len(r), {'records': w}):
            r = iter(r)
            for o, want, _, k in parts:
                for _ in range(k):
                    same_sf(R, next(r), o, want, 'scale:concatenated', {'records': w})
    R.sample({'shapes': len(blobs)})


def same_sf(R, got, o, want, key, info):
    mu, sigma = np.asarray(got['scale_factors'], float), np.asarray(got['sigma'], float)
    ne = len(want[0][0])
    pairs = [(a, b) for a in range(ne) for b in range(a + 1, ne)]
    for a, q, what in ((mu, 0, 'mu'), (sigma, 1, 'sigma')):
        b = np.array([[w[q][p] for w in want] for p in pairs])
        R.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0), key + ':sf:' + what, 'scale factor %s read back differs' % what, lambda: dict(info, got=a.tolist(), expected=b.tolist()))
    for k in ('probability', 'ln_pdf'):
        a, b = np.asarray(got[k], float).flatten(), np.asarray(o[k], float).flatten()
        R.check(np.array_equal(a, b), key + ':sf:' + k, '%s in the scale factor file differs' % k, lambda: dict(info, got=a.tolist(), expected=b.tolist()))
    R.check(int(got['total_number_samples']) == o['total_number_samples'], key + ':sf:count', 'the sample count in the scale factor file differs', info)


def sampled(R, tier):
    """Results of the sampling algorithms, with and without conversion."""
    from MTfit.algorithms.monte_carlo import IterationSample
    from MTfit.probability import LnPDF
    rng = np.random.RandomState(3)
    for ne in (1, 2):
        for n in (1, 2, 3, 7):
            for conv in (False, True):
                for zero in (False, True):
                    M = rng.randn(6 * ne, n).reshape(ne, 6, n)
                    M = M / np.sqrt((M * M).sum(1))[:, None]
                    ln = np.log(rng.rand(1, n))
                    if zero and n > 1:
                        ln[0, 0] = -np.inf
                    R.state()

                    def run():
                        alg = IterationSample(number_events=ne, max_samples=10, number_samples=n)
                        alg.initialise()
                        mts = np.matrix(M[0]) if ne == 1 else [np.matrix(m) for m in M]
                        alg.iterate({'moment_tensors': mts, 'ln_pdf': LnPDF(np.matrix(ln)), 'n': n})
                        out = alg.output(convert=conv)
                        return out[0] if isinstance(out, tuple) else out
                    ok, o = R.call('sampled', quiet, run)
                    if not ok:
                        continue
                    info = {'events': ne, 'samples': n, 'converted': conv, 'zero': zero}
                    ok, b = R.call('sampled:write', quiet, to_binary, o, ne if ne > 1 else 0)
                    if not ok:
                        continue
                    ok, r = read(R, b, 'sampled:read')
                    if ok and R.check(len(r) == ne, 'sampled:records', '%d records' % len(r), info):
                        for e in range(ne):
                            end = '_%d' % (e + 1) if ne > 1 else ''
                            if conv:
                                R.check(all(k + end in o for k in CONV), 'sampled:converted', 'the result was not converted', info)
                            same_record(R, r[e], o, 'sampled', info, end)
    R.sample({'events': 2})
