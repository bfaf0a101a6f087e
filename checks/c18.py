"""C18 - reading, binning and writing location-uncertainty (angle scatter) samples."""
import itertools
import os
import numpy as np

ASSUMPTIONS = ['well-formed files: every block has its probability line and at least one station line, blocks separated by one or more empty lines',
               'two samples can only be merged if they list the same stations (in any order)',
               'azimuths are compared by their plain difference (no wrap at 360 degrees is demanded or forbidden at the lattice points used)']

NAMES = ['S01', 'S2', 'BB3', 'Q']


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out.append(dict(name='parse-' + mode, mode=mode, fn='parse', kw=dict(tier=tier), cost=3))
        out.append(dict(name='seq1-' + mode, mode=mode, fn='seq1', kw=dict(tier=tier), cost=6))
        out.append(dict(name='seq2-' + mode, mode=mode, fn='seq2', kw=dict(tier=tier), cost=6))
        out.append(dict(name='order-' + mode, mode=mode, fn='order', kw=dict(tier=tier), cost=6))
        out.append(dict(name='roundtrip-' + mode, mode=mode, fn='roundtrip', kw=dict(tier=tier), cost=3))
        out.append(dict(name='subsample-' + mode, mode=mode, fn='subsample', kw=dict(tier=tier, seed=seed), cost=2))
    return out


def wd():
    return os.environ['MC_WORK']


def text(blocks, eol='\n', sep='\t', end='\n\n', gap=1):
    """blocks: [(weight text, [(name, az text, toa text)])]; end is '' (no newline at the end), '\n' or '\n\n' (blank line)."""
    out = []
    for w, sts in blocks:
        out.append(eol.join([w] + [sep.join(s) for s in sts]))
    return (eol * (gap + 1)).join(out) + end.replace('\n', eol)


def write(t, name='a.scatangle'):
    p = os.path.join(wd(), name)
    with open(p, 'w', newline='') as f:
        f.write(t)
    return p


def plain(rec):
    """{name: (az, toa)} in the record's own order, as a tuple."""
    az = np.asarray(rec['Azimuth'], float).flatten().tolist()
    toa = np.asarray(rec['TakeOffAngle'], float).flatten().tolist()
    names = list(rec['Name'])
    if not len(names) == len(az) == len(toa):
        return None
    return tuple(zip([str(u) for u in names], az, toa))


def model(blocks):
    return [tuple((n, float(a), float(t)) for n, a, t in sts) for w, sts in blocks], [float(w) for w, sts in blocks]


def result(res):
    recs, w = res
    return [plain(r) for r in recs], [float(x) for x in np.asarray(w, float).flatten()]


def _parse(*a, **k):
    from MTfit.extensions.scatangle import parse_scatangle
    return parse_scatangle(*a, **k)


# ---- reader ----------------------------------------------------------------------------------------------------------
def parse(R, tier):
    """Every block shape x separator x line ending x file ending, read with the default options and with bin size 0."""
    ws = ['504.7', '1', '1e-12', '3E5', '0.1', '12', '7.25e-3']
    az = ['0', '359.99', '231.1', '12', '-5.5', '90.0', '1e2', '45']
    toa = ['0', '180', '154.7', '90', '12.25', '1e1', '89.999', '90.0']
    nmax = 3 if tier == 'quick' else 4
    perms = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1), (2, 1, 0)]}
    layouts = list(itertools.product(('\n', '\r\n'), ('\t', ' ', '    '), ('', '\n', '\n\n', '\n\n\n'), (1, 2)))
    k = 0
    for nb in range(1, nmax + 1):
        for sizes in itertools.product((1, 2, 3), repeat=nb):
            for pm in itertools.product(*[perms[s] for s in sizes]):
                blocks = []
                for b, (s, p) in enumerate(zip(sizes, pm)):
                    sts = []
                    for i in p:
                        k += 1
                        sts.append((NAMES[i], az[(k * 3 + b) % len(az)], toa[(k * 5 + b) % len(toa)]))
                    blocks.append((ws[(k + b) % len(ws)], sts))
                exp = model(blocks)
                lay = layouts if nb <= 2 else [layouts[(k + q) % len(layouts)] for q in (0, 5, 11, 17)]
                for eol, sep, end, gap in lay:
                    if len(lay) > 4 and nb == 2 and tier == 'quick' and gap == 2 and sep == '    ':
                        continue
                    f = write(text(blocks, eol, sep, end, gap))
                    R.state()
                    for opts in ({}, {'bin_size': 0}):
                        ok, got = R.call('parse', _parse, f, **opts)
                        if ok:
                            got = result(got)
                            R.check(got == exp, 'parse:' + ('crlf' if eol == '\r\n' else 'lf'), 'records read differ from the file',
                                    {'file': open(f, newline='').read(), 'got': got, 'expected': exp})
                    R.outcome('shape', (sizes, eol, sep, end, gap))
    # number of blank lines before the first block and leading/trailing spaces on lines
    for lead in ('\n', '\n\n', '\r\n'):
        blocks = [('2.5', [('S01', '10', '20'), ('S2', '30', '40')]), ('0.5', [('S01', '11', '21')])]
        f = write(lead + text(blocks, '\r\n' if '\r' in lead else '\n'))
        ok, got = R.call('parse', _parse, f)
        R.state()
        if ok:
            R.check(result(got) == model(blocks), 'parse:leading-blank', 'records read differ from the file', {'got': result(got)})
    # large files
    for nb, ns in ((200, 30), (200, 1), (1, 30), (73, 11)):
        blocks = []
        for b in range(nb):
            blocks.append(('%r' % (1.0 / (b + 1)), [('ST%02d' % ((i * 7 + b) % ns), '%r' % ((b * 37.5 + i * 11.3) % 360), '%r' % ((b * 0.7 + i * 5.1) % 180)) for i in range(ns)]))
        for eol in ('\n', '\r\n'):
            f = write(text(blocks, eol, '\t', ''))
            ok, got = R.call('parse', _parse, f)
            R.state()
            if ok:
                R.check(result(got) == model(blocks), 'parse:large', '%d blocks of %d stations read wrongly' % (nb, ns), None)
    R.sample({'blocks': blocks[:1], 'layouts': len(layouts)})


# ---- binning ---------------------------------------------------------------------------------------------------------
def close(a, b, bin_size):
    """Mergeable (every station angle differs by less than half the bin size)."""
    da, db = dict((n, (x, y)) for n, x, y in a), dict((n, (x, y)) for n, x, y in b)
    if set(da) != set(db):
        return False
    return all(abs(da[n][0] - db[n][0]) < bin_size / 2. and abs(da[n][1] - db[n][1]) < bin_size / 2. for n in da)


def check_bin(R, recs, weights, bin_size, got, key, exact):
    """got (kept records, weights) against the binning relation. exact: weights are distinct powers of two (decodable)."""
    krec, kw = got
    data = {'records': recs, 'weights': weights, 'bin_size': bin_size, 'kept': krec, 'kept_weights': kw}
    if not R.check(len(krec) == len(kw), key + ':aligned', 'as many weights as records', data):
        return
    tot = sum(weights)
    R.check(abs(sum(kw) - tot) <= 1e-12 * tot and all(w > 0 for w in kw), key + ':mass', 'total weight %r became %r' % (tot, sum(kw)), data)
    if not bin_size:
        R.check(krec == recs and kw == weights, key + ':zero-bin', 'a zero bin size changed the samples', data)
        return
    # file order: the kept records are a subsequence of the originals
    it = iter(recs)
    R.check(all(any(k == r for r in it) for k in krec), key + ':original', 'kept records are not original records in file order', data)
    for i in range(len(krec)):
        for j in range(i):
            if krec[i] is not None and krec[j] is not None and close(krec[i], krec[j], bin_size):
                R.check(False, key + ':one-per-bin', 'two kept records are in the same bin', data)
    if exact:
        seen = 0
        for k, w in zip(krec, kw):
            m = int(w)
            members = [b for b in range(len(recs)) if m >> b & 1]
            bad = [b for b in members if not close(k, recs[b], bin_size)] if k is not None else members
            R.check(float(m) == w and not seen & m and not bad, key + ':merge', 'a sample outside the bin of its retained sample was merged', dict(data, members=members))
            R.check(any(recs[b] == k for b in members), key + ':retained', 'the retained record is not one of the merged samples', data)
            seen |= m
        R.check(seen == 2 ** len(recs) - 1, key + ':mass', 'a sample disappeared', data)
    R.outcome('kept', (len(recs), len(krec)))


def run_bin(R, recs, weights, bin_sizes, key, exact, py=True):
    blocks = [('%r' % w, [(n, '%r' % a, '%r' % t) for n, a, t in r]) for w, r in zip(weights, recs)]
    f = write(text(blocks))
    for bs in bin_sizes:
        for opts in ([{}, {'_use_c': False}] if py else [{}]):
            R.state()
            ok, got = R.call(key, _parse, f, 0, bs, **opts)
            if ok:
                check_bin(R, recs, weights, bs, result(got), key, exact)


def seq1(R, tier):
    """One station: every sequence of up to four (five) samples over an alphabet of angle pairs, every bin size."""
    az = [10.0, 10.25, 10.5, 11.0]
    alpha = [(a, 30.0) for a in az] + [(10.0, 30.25), (10.25, 30.5), (10.0, 29.0)]
    alpha = alpha if tier == 'quick' else alpha + [(350.0, 30.0), (10.0, 150.0)]
    nmax = 4
    for n in range(1, nmax + 1):
        for c in itertools.product(range(len(alpha)), repeat=n):
            if n == 4 and tier == 'quick' and (c[0] > 2 or max(c) > 5):
                continue
            recs = [(('S01',) + alpha[i],) for i in c]
            sizes = (0, 1.0) if n == 4 and tier == 'quick' else (0, 0.5, 1.0, 2)
            run_bin(R, recs, [float(2 ** b) for b in range(n)], sizes, 'bin1', True, py=n < 4 or tier != 'quick')
    # exact half-bin differences, integer bin sizes, huge and tiny bins
    for d in (0.25, 0.5, 1.0, 2.0, 90.0):
        for ch in (0, 1):
            for eps in (-1, 0, 1):
                x = d / 2 * (1 + eps * 2.0 ** -40)
                recs = [(('S01', 8.0, 8.0),), (('S01', 8.0 + x, 8.0) if ch == 0 else ('S01', 8.0, 8.0 + x),)]
                for w in ([1., 2.],):
                    run_bin(R, recs, w, (d, d * 2, d / 2, 1e9, 1e-9), 'bin1:edge', True)
    R.sample({'alphabet': alpha})


def seq2(R, tier):
    """Two and three stations: the merge test must look at every station and both angles."""
    for ns in (2, 3):
        coords = 2 * ns
        # base sample, and every subset of coordinates moved inside / outside the bin
        base = [float(10 + 7 * i) for i in range(coords)]

        def rec(v):
            return tuple((NAMES[i], v[2 * i], v[2 * i + 1]) for i in range(ns))
        if ns == 2 or tier != 'quick':
            moves = list(itertools.product((0., 0.25, 0.75), repeat=coords)) if ns == 2 else list(itertools.product((0., 0.75), repeat=coords)) + [tuple(0.25 * (i == j) for j in range(coords)) for i in range(coords)]
        else:
            moves = [tuple(0.75 * (i == j) for j in range(coords)) for i in range(coords)] + [tuple(-0.75 * (i == j) for j in range(coords)) for i in range(coords)] + \
                    [tuple(0.25 for j in range(coords)), tuple(0. for j in range(coords))]
        for m in moves:
            for s in (1, -1):
                recs = [rec(base), rec([b + s * d for b, d in zip(base, m)])]
                run_bin(R, recs, [1., 2.], (0, 1.0), 'bin2', True)
        single = [tuple(v * (i == j) for j in range(coords)) for i in range(coords) for v in (0.25, 0.75)] + [tuple(0. for j in range(coords))]
        for n in (3, 4) if tier != 'quick' or ns == 2 else (3,):
            al = single if n == 3 or tier != 'quick' else single[:3] + single[-3:]
            if n == 4 and tier != 'quick' and ns == 3:
                al = single[:2] + single[4:6] + single[-3:]
            for c in itertools.product(range(len(al)), repeat=n):
                recs = [rec([b + d for b, d in zip(base, al[i])]) for i in c]
                run_bin(R, recs, [float(2 ** b) for b in range(n)], (1.0,), 'bin2:seq', True, py=tier != 'quick' or n == 3)
    # arbitrary weights: mass only
    ws = [0.1, 1e-9, 3.7, 1e6, 1.0]
    for p in itertools.permutations(ws):
        recs = [(('S01', 10.0 + 0.3 * (i // 2), 20.0),) for i in range(5)]
        run_bin(R, recs, list(p), (0, 0.5, 1.0, 10.0), 'bin2:weights', False)
    R.sample({'moves': len(moves)})


def order(R, tier):
    """Station order and station set differ between samples."""
    perms = list(itertools.permutations(range(3)))
    base = {'S01': (10., 20.), 'S2': (10.3, 100.), 'BB3': (200., 20.2)}
    near = dict((k, (a + .25, b - .25)) for k, (a, b) in base.items())
    far = dict(base, S2=(10.3, 101.))
    swap = {'S01': base['S2'], 'S2': base['S01'], 'BB3': base['BB3']}
    kinds = [base, near, far, swap]
    names = ['S01', 'S2', 'BB3']

    def rec(d, p):
        return tuple((names[i],) + d[names[i]] for i in p)
    for (a, b) in itertools.product(range(4), repeat=2):
        for p, q in itertools.product(perms, repeat=2):
            run_bin(R, [rec(kinds[a], p), rec(kinds[b], q)], [1., 2.], (0, 1.0, 300.0), 'order', True)
    for c in itertools.product(range(4), repeat=3):
        for p, q in itertools.product(perms[::2] if tier == 'quick' else perms, repeat=2):
            run_bin(R, [rec(kinds[c[0]], perms[0]), rec(kinds[c[1]], p), rec(kinds[c[2]], q)], [1., 2., 4.], (1.0,), 'order:three', True)
    # differing station sets
    subs = [s for n in (1, 2, 3) for s in itertools.combinations(range(3), n)]
    for s, t in itertools.product(subs, repeat=2):
        for kind in (base, near, far):
            for tp in itertools.permutations(t):
                run_bin(R, [rec(base, s), rec(kind, tp)], [1., 2.], (0, 1.0, 1000.0), 'sets', True)
    for s, t, u in itertools.product(subs, repeat=3):
        run_bin(R, [rec(base, s), rec(near, t), rec(base, u)], [1., 2., 4.], (1.0,), 'sets:three', True)
    # the same name-to-value table under different positions of equal angles
    eq = {'S01': (10., 20.), 'S2': (10., 20.), 'BB3': (10., 20.)}
    eq2 = dict(eq, BB3=(12., 20.))
    for p, q in itertools.product(perms, repeat=2):
        run_bin(R, [rec(eq, p), rec(eq2, q)], [1., 2.], (0, 1.0, 5.0), 'order:equal', True)
    R.sample({'permutations': perms, 'subsets': subs})


# ---- writer ----------------------------------------------------------------------------------------------------------
def roundtrip(R, tier):
    """Binning command: the written file read back is the binned result, for every small file; zero bin keeps the file."""
    from MTfit.extensions.scatangle import bin_scatangle, bin_scatangle_files
    angs = [(10.1, 20.123456789012345), (10.3, 20.2), (359.99999999999994, 0.), (1. / 3., 180.), (-20., 1e-7)]
    ws = [504.7, 1e-12, 3e20, 0.1 + 0.2, 1.]
    n = 0
    for nb in (1, 2, 3):
        for c in itertools.product(range(len(angs)), repeat=nb):
            for ns in ((1, 2) if nb < 3 else (1,)):
                recs = [tuple((NAMES[(j + (i if ns > 1 else 0)) % ns],) + angs[(k + j) % len(angs)] for j in range(ns)) for i, k in enumerate(c)]
                blocks = [('%r' % ws[(i + k) % 5], [(a, '%r' % b, '%r' % d) for a, b, d in r]) for (i, k), r in zip(enumerate(c), recs)]
                eol = '\n' if n % 2 else '\r\n'
                n += 1
                f = write(text(blocks, eol, '\t', '' if n % 3 else '\n\n'), 'rt.scatangle')
                before = open(f, 'rb').read()
                for bs in (0, 1.0, 0.5) if nb < 3 or tier != 'quick' else (1.0,):
                    R.state()
                    ok, direct = R.call('roundtrip', _parse, f, 0, bs)
                    ok2, files = R.call('roundtrip', bin_scatangle, f, 0, bs)
                    if not (ok and ok2):
                        continue
                    exp = result(direct)
                    if not bs:
                        R.check(exp == model(blocks), 'roundtrip:zero', 'a zero bin size changed the samples', {'got': exp})
                    R.check(files[0] == f and files[1] != f and os.path.exists(files[1]), 'roundtrip:file', 'no new file written', {'files': files})
                    R.check(open(f, 'rb').read() == before, 'roundtrip:source', 'the source file changed', None)
                    ok, back = R.call('roundtrip', _parse, files[1])
                    if ok:
                        R.check(result(back) == exp, 'roundtrip:records', 'records written and read again differ', {'got': result(back), 'expected': exp, 'file': open(files[1]).read()})
                    # binning its own output again must not change it
                    ok, again = R.call('roundtrip', _parse, files[1], 0, bs)
                    if ok:
                        R.check(result(again) == exp, 'roundtrip:idempotent', 'binning a binned file changes it', {'got': result(again), 'expected': exp})
                    os.remove(files[1])
    # several files: names returned in the order of the inputs, each bearing its own content
    for order_ in itertools.permutations(range(3)):
        fs = []
        for i in range(3):
            fs.append(write(text([('%d' % (i + 1), [('S01', '%d' % (10 * i), '20')]), ('2', [('S01', '%d' % (10 * i + 5), '20')])]), 'm%d.scatangle' % i))
        arg = [fs[i] for i in order_]
        for size in (0, 1.0, 20.0):
            R.state()
            ok, new = R.call('files', bin_scatangle_files, list(arg), 0, size, parallel=False)
            if ok:
                R.check(len(new) == 3, 'files:count', 'one output per input', {'new': new})
                for i, nf in zip(order_, new):
                    exp = result(_parse(fs[i], 0, size))
                    R.check(result(_parse(nf)) == exp, 'files:content', 'output %s does not carry the samples of %s' % (nf, fs[i]), {'got': result(_parse(nf)), 'expected': exp})
                    os.remove(nf)
    for arg in (fs[0], [fs[0]]):
        ok, new = R.call('files', bin_scatangle_files, arg, 0, 1.0)
        if ok:
            R.check(result(_parse(new[0])) == result(_parse(fs[0], 0, 1.0)), 'files:content', 'single file', {'new': new})
    # a large file through the binning
    for ns in (1, 30):
        nb = 200
        blocks = [('%r' % float(1 + b % 7), [('ST%02d' % ((i + b) % ns), '%r' % (5. * ((i + b) % ns) + 0.25 * (b % 5)), '%r' % (3. * ((i + b) % ns) + 0.25 * (b % 3))) for i in range(ns)]) for b in range(nb)]
        recs, w = model(blocks)
        f = write(text(blocks), 'large.scatangle')
        for bs in (0, 0.5, 0.75, 1.0, 1e9):
            R.state()
            ok, got = R.call('large', _parse, f, 0, bs)
            if ok:
                check_bin(R, recs, w, bs, result(got), 'large', False)
                if bs == 1e9:
                    R.check(len(got[0]) == 1, 'large:all', 'a bin of any size merges everything', None)
    R.sample({'angles': angs, 'weights': ws})


def subsample(R, tier, seed):
    """Every (number requested, number available): distinct original records with their own weights, then binned."""
    for n in range(1, 7 if tier == 'quick' else 9):
        blocks = [('%d' % 2 ** b, [('S01', '%d' % (10 * b), '20'), ('S2', '30', '%d' % (5 * b))]) for b in range(n)]
        recs, w = model(blocks)
        f = write(text(blocks), 'sub.scatangle')
        for k in range(0, n + 3):
            for s in range(6 if tier == 'quick' else 40):
                for bs in (0, 1.0, 12.0):
                    np.random.seed(seed * 1000 + s)
                    R.state()
                    ok, got = R.call('subsample', _parse, f, k, bs)
                    if not ok:
                        continue
                    r, ww = result(got)
                    exp = n if k == 0 or k >= n else k
                    data = {'n': n, 'k': k, 'bin_size': bs, 'got': (r, ww)}
                    if bs < 10:
                        R.check(len(r) == len(ww) == exp and len(set(r)) == exp, 'subsample:count', '%d of %d samples requested, %d distinct returned' % (k, n, len(set(r))), data)
                        R.check(all(x in recs and w[recs.index(x)] == y for x, y in zip(r, ww)), 'subsample:record', 'a sub-sample is not an original record with its own weight', data)
                        if exp == n:
                            R.check((r, ww) == (recs, w), 'subsample:all', 'the full set is not returned in file order', data)
                    else:
                        m = [int(x) for x in ww]
                        R.check(len(r) == len(ww) and bin(sum(m)).count('1') == exp, 'subsample:mass', 'binning a sub-sample loses weight', data)
                        for x, y in zip(r, m):
                            R.check(x in recs and y >> recs.index(x) & 1 and all(close(x, recs[b], bs) for b in range(n) if y >> b & 1), 'subsample:bin', 'bad bin', data)
    R.sample({'n': n})
