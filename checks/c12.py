"""C12 - Tape parameters and six-vectors are mutually inverse descriptions of a source."""
import itertools
import math
import numpy as np
from checks import geo as G
from checks.geo import PI, flat

ASSUMPTIONS = ['tensors are compared to 1e-6, parameters to 1e-6 (longitude to 1e-6/cos(latitude) because it is undefined for isotropic sources)',
               'the closed ends of the ranges are allowed 1e-9 of rounding; strike must be strictly below 2 pi',
               'strike, dip cosine and slip are compared where they are unique (no repeated eigenvalues, slip inside (-pi/2,pi/2), dip inside (0,pi/2)); elsewhere the tensor rebuilt from them is compared',
               'MT33_MT6 normalises, so 3x3 matrices of unit tensors are used']
TOL = 1e-6
RNG = 1e-9
GAM = [-PI / 6, -.5, -.2, -1e-5, 0., .1, .35, PI / 6]
DEL = [-PI / 2, -1.5, -.9, -.25, 0., 1e-5, .3, 1.1, PI / 2 - 1e-4, PI / 2]
KAP = [0., .4, PI / 2, 2.2, PI, 4., 5.5, 2 * PI - 1e-9]
HHH = [0., 1e-6, .2, .5, .85, 1.]
SIG = [-PI / 2, -1.2, -.3, 0., .5, 1.3, PI / 2]


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        for q in range(2):
            out.append(dict(name='tape-%s-%d' % (mode, q), mode=mode, fn='tape', kw=dict(tier=tier, part=q), cost=8))
        out.append(dict(name='tensors-' + mode, mode=mode, fn='tensors', kw=dict(tier=tier), cost=6))
        out.append(dict(name='dc-' + mode, mode=mode, fn='dc', kw=dict(tier=tier), cost=6))
        out.append(dict(name='shapes-' + mode, mode=mode, fn='shapes', kw=dict(tier=tier), cost=3))
        out.append(dict(name='paths-' + mode, mode=mode, fn='paths', kw=dict(tier=tier), cost=6))
    return out


def mod():
    import MTfit.convert as C
    return C


def bad(R, ok, key, what, src, **data):
    ok = np.broadcast_to(np.asarray(ok), (src.shape[1],))
    R.traces += ok.size
    for i in np.where(~ok)[0][:2]:
        R.fail(key, what, dict(source=src[:, i].tolist(), **dict((k, np.asarray(v, float)[..., i].tolist()) for k, v in data.items())))


def ranges(R, key, src, g, d, k, h, s):
    got = np.array([g, d, k, h, s])
    bad(R, np.isfinite(got).all(0), key + ':finite', 'parameters are not finite', src, got=got)
    with np.errstate(invalid='ignore'):
        for name, x, lo, hi in (('longitude', g, -PI / 6, PI / 6), ('latitude', d, -PI / 2, PI / 2), ('h', h, 0, 1), ('slip', s, -PI / 2, PI / 2)):
            bad(R, ~np.isfinite(x) | ((x >= lo - RNG) & (x <= hi + RNG)), key + ':range:' + name, '%s is out of its range' % name, src, got=got)
        bad(R, ~np.isfinite(k) | ((k >= 0) & (k < 2 * PI)), key + ':range:strike', 'strike is outside [0, 2 pi)', src, got=got)


def to_tape(R, M, src, ref=None, key='MT6_Tape', all_at_once=True):
    """Tensors (6, n) -> parameters, all obligations; ref = the parameters they were made from."""
    C = mod()
    keep = M.copy()
    outs = []
    ok, r = R.call('MT6_Tape', C.MT6_Tape, M)
    if ok:
        outs.append(('MT6_Tape', flat(*r)))
        R.check(G.is_real(*r), key + ':real', 'complex parameters', None)
    R.check(np.array_equal(keep, M), key + ':pure', 'the input tensor was changed', None)
    ok, r = R.call('output_convert', C.output_convert, M)
    if ok:
        outs.append(('output_convert', flat(*[r[q] for q in 'gdkhs'])))
    n = M.shape[1]
    for name, o in outs:
        kk = key + ':' + name
        if not R.check(all(len(x) == n for x in o), kk + ':shape', 'one parameter set per tensor expected', {'got': [len(x) for x in o]}):
            continue
        ranges(R, kk, src, *o)
        g, d, k, h, s = o
        fin = np.isfinite(np.array(o)).all(0)
        got = np.array(o)
        with np.errstate(invalid='ignore'):
            back = G.tape6(*o)
            bad(R, ~fin | (np.abs(back - M).max(0) < TOL), kk + ':tensor', 'the parameters describe another tensor', src, got=got, tensor=M)
        ok, b = R.call('Tape_MT6', C.Tape_MT6, *[np.ascontiguousarray(np.where(fin, x, 0.)) for x in o])
        if ok:
            b = np.asarray(b, float)
            if R.check(b.shape == (6, n), kk + ':back:shape', '%r' % (b.shape,), None):
                bad(R, ~fin | (np.abs(b - M).max(0) < TOL), kk + ':back', 'converting the tensor to parameters and back gives another tensor', src, got=got, tensor=M, back=b)
        if ref is not None:
            g0, d0, k0, h0, s0 = ref
            cd = np.cos(d0)
            bad(R, np.abs(g - g0) * cd < TOL, kk + ':longitude', 'longitude is not that of the source', src, got=got)
            bad(R, np.abs(d - d0) < TOL, kk + ':latitude', 'latitude is not that of the source', src, got=got)
            gen = (np.abs(g0) < PI / 6 - 1e-3) & (cd > 1e-2) & (np.abs(s0) < PI / 2 - 1e-3) & (h0 < 1 - 1e-3) & (h0 > 1e-3)
            bad(R, ~gen | ((G.angdist(k, k0) < TOL) & (np.abs(h - h0) < TOL) & (np.abs(s - s0) < TOL)), kk + ':orientation', 'strike, dip or slip is not that of the source', src, got=got)
            # vertical planes have two descriptions: the angles or their mirror image
            ver = (np.abs(g0) < PI / 6 - 1e-3) & (cd > 1e-2) & (np.abs(s0) < PI / 2 - 1e-3) & (h0 == 0)
            mirror = (G.angdist(k, k0 + PI) < TOL) & (np.abs(s + s0) < TOL)
            bad(R, ~ver | ((((G.angdist(k, k0) < TOL) & (np.abs(s - s0) < TOL)) | mirror) & (np.abs(h) < TOL)), kk + ':vertical', 'strike, dip or slip is not that of the source', src, got=got)


def lattice(tier, part=None, of=2):
    g, d = (GAM, DEL)
    pairs = list(itertools.product(g, d))
    if part is not None:
        pairs = pairs[part::of]
    o = list(itertools.product(KAP, HHH, SIG))
    if tier == 'quick':
        pick = [i for i in range(len(o)) if i % 3 == 0]
        out = []
        for j, p in enumerate(pairs):
            out += [p + o[i + (j % 3)] for i in pick if i + j % 3 < len(o)]
    else:
        out = [p + x for p in pairs for x in o]
    return np.ascontiguousarray(np.array(out).T)


def tape(R, tier, part):
    C = mod()
    src = lattice(tier, part)
    n = src.shape[1]
    R.state(n)
    ref = G.tape6(*src)
    args = [np.ascontiguousarray(x) for x in src]
    keep = [x.copy() for x in args]
    ok, M = R.call('Tape_MT6', C.Tape_MT6, *args)
    R.check(all(np.array_equal(x, y) for x, y in zip(keep, args)), 'Tape_MT6:pure', 'the parameters were changed', None)
    if not ok:
        return
    M = np.asarray(M, float)
    if not R.check(M.shape == (6, n), 'Tape_MT6:shape', '%r' % (M.shape,), None):
        return
    bad(R, np.abs((M * M).sum(0) - 1) < 1e-9, 'Tape_MT6:norm', 'the tensor is not of unit norm', src, tensor=M)
    bad(R, np.abs(M - ref).max(0) < TOL, 'Tape_MT6:tensor', 'the tensor is not the one of the parameters', src, tensor=M, expected=ref)
    to_tape(R, M, src, src)
    # the same through single values: every 23rd source
    for i in range(0, n, 23):
        one = src[:, i]
        for nm, p in (('float', [float(x) for x in one]), ('array', [np.array([x]) for x in one]), ('matrix', [np.float64(x) for x in one])):
            ok, r = R.call('Tape_MT6', C.Tape_MT6, *p)
            if ok:
                x = np.asarray(r, float).flatten()
                R.check(len(x) == 6 and np.abs(x - ref[:, i]).max() < TOL, 'Tape_MT6:single', 'a single source (%s) gives another tensor' % nm, {'source': one.tolist(), 'got': x.tolist()})
        ok, r = R.call('Tape_MT33', C.Tape_MT33, *[float(x) for x in one])
        if ok:
            x = np.asarray(r, float)
            R.check(x.shape == (3, 3) and np.abs(x - G.m33(ref[:, i])).max() < TOL and np.abs(x - x.T).max() < 1e-12, 'Tape_MT33', 'the 3x3 tensor is not the one of the parameters', {'source': one.tolist(), 'got': x.tolist()})
    ok, r = R.call('Tape_TNPE', C.Tape_TNPE, *args)
    if ok:
        T, N, P, E = [np.asarray(x, float) for x in r]
        if R.check(T.shape == N.shape == P.shape == (3, n) and E.shape == (3, n), 'Tape_TNPE:shape', '%r %r' % (T.shape, E.shape), None):
            m = sum(E[q] * np.einsum('in,jn->ijn', v, v) for q, v in enumerate((T, N, P)))
            bad(R, np.abs(G.m6(np.moveaxis(m, 2, 0)) - ref).max(0) < TOL, 'Tape_TNPE:tensor', 'axes and eigenvalues do not rebuild the tensor', src, T=T, N=N, P=P, E=E)
            bad(R, (E[0] >= E[1] - 1e-12) & (E[1] >= E[2] - 1e-12), 'Tape_TNPE:order', 'eigenvalues are not ordered', src, E=E)
    ok, r = R.call('GD_E', C.GD_E, src[0], src[1])
    if ok:
        E = np.asarray(r, float)
        if R.check(E.shape == (3, n), 'GD_E:shape', '%r' % (E.shape,), None):
            bad(R, np.abs(E - G.lune(src[0], src[1])).max(0) < 1e-9, 'GD_E', 'eigenvalues are not those of the lune point', src, E=E)
    R.outcome('nodal-switch', 'yes')
    R.sample({'first': src[:, 0].tolist(), 'count': n})


def tensors(R, tier):
    """Tensors not made from parameters: all integer tensors, axis-aligned eigenvalue patterns, both signs."""
    M = G.integer_tensors(1 if tier == 'quick' else 2)
    R.state(M.shape[1])
    e, _ = np.linalg.eigh(G.m33(M))
    g, d = G.source_type(e.T)
    to_tape(R, M, M, None, key='tensor')
    C = mod()
    ok, r = R.call('MT6_Tape', C.MT6_Tape, M)
    if ok:
        o = flat(*r)
        with np.errstate(invalid='ignore'):
            bad(R, np.abs(o[1] - d) < TOL, 'tensor:latitude', 'latitude is not that of the eigenvalues', M, got=np.array(o[:2]))
            bad(R, np.abs(o[0] - g) * np.cos(d) < TOL, 'tensor:longitude', 'longitude is not that of the eigenvalues', M, got=np.array(o[:2]))
        # scale: any positive multiple has the same parameters
        ok, r2 = R.call('MT6_Tape', C.MT6_Tape, 7.5 * M)
        if ok:
            p = flat(*r2)
            bad(R, np.abs(p[1] - o[1]) < TOL, 'tensor:scale', 'the source type depends on the size of the tensor', M, got=np.array(p), unit=np.array(o))
    # perturbations towards the degenerate patterns
    base = np.array([[1., 1, 1, 0, 0, 0], [1, -1, 0, 0, 0, 0], [2, -1, -1, 0, 0, 0], [1, 1, -2, 0, 0, 0], [0, 0, 1, 0, 0, 0], [-1, -1, -1, 0, 0, 0], [0, 0, 0, 1, 0, 0]]).T
    out = []
    for j, eps in itertools.product(range(6), (1e-3, 1e-7, 1e-8, 1e-10, 1e-13, 1e-16)):
        for sg in (1, -1):
            b = base.copy()
            b[j] += sg * eps
            out.append(b)
    M = np.concatenate(out, 1)
    M = M / np.sqrt((M * M).sum(0))
    R.state(M.shape[1])
    to_tape(R, M, M, None, key='near')
    R.sample({'integer_tensors': 'entries up to %d' % (1 if tier == 'quick' else 2), 'near': M.shape[1]})


def dc(R, tier):
    """Double-couples of the orientation lattice: source type exactly double-couple and the orientation recovered."""
    C = mod()
    src = G.orientations()
    if tier == 'quick':
        src = src[:, ::2]
    M = G.dc6(*src)
    R.state(M.shape[1])
    to_tape(R, M, src, None, key='dc')
    for name, f in (('MT6_Tape', lambda: C.MT6_Tape(M)[:2]), ('output_convert', lambda: [C.output_convert(M)[q] for q in 'gd'])):
        ok, r = R.call(name, f)
        if ok:
            g, d = flat(*r)
            bad(R, (np.abs(g) < 1e-9) & (np.abs(d) < 1e-9), 'dc:%s:zero' % name, 'a double-couple has a non-zero longitude or latitude', src, got=np.array([g, d]))
    z = np.zeros(src.shape[1])
    h = np.cos(src[1])
    for lim in (1,):
        keep = np.abs(src[2]) <= PI / 2
        ok, r = R.call('Tape_MT6', C.Tape_MT6, *[np.ascontiguousarray(x[keep]) for x in (z, z, src[0], h, src[2])])
        if ok:
            bad(R, np.abs(np.asarray(r, float) - M[:, keep]).max(0) < TOL, 'dc:Tape_MT6', 'zero longitude and latitude do not give the double-couple', src[:, keep], got=np.asarray(r, float))
    R.sample({'double_couples': src.shape[1]})


def shapes(R, tier):
    """Six-vector <-> 3x3 for every accepted shape, and the parameter conversion of one tensor in every shape."""
    C = mod()
    M = np.concatenate([G.integer_tensors(1)[:, ::3], G.tape6(*lattice('quick', 0)[:, ::97])], axis=1)
    for i in range(M.shape[1]):
        R.state()
        m = M[:, i]
        m3 = G.m33(m)
        for name, x in (('flat', m.copy()), ('column', m[:, None].copy()), ('matrix column', np.matrix(m[:, None])), ('matrix row', np.matrix(m))):
            ok, r = R.call('MT6_MT33', C.MT6_MT33, x)
            if ok:
                r = np.asarray(r, float)
                R.check(r.shape == (3, 3) and np.abs(r - m3).max() < 1e-9, 'MT6_MT33', 'wrong 3x3 form (%s)' % name, {'tensor': m.tolist(), 'got': r.tolist()})
        for name, x in (('array', m3.copy()), ('matrix', np.matrix(m3))):
            ok, r = R.call('MT33_MT6', C.MT33_MT6, x)
            if ok:
                r = np.asarray(r, float).flatten()
                R.check(len(r) == 6 and np.abs(r - m).max() < 1e-9, 'MT33_MT6', 'wrong six-vector (%s)' % name, {'tensor': m.tolist(), 'got': r.tolist()})
                ok, q = R.call('MT6_MT33', C.MT6_MT33, C.MT33_MT6(x))
                if ok:
                    R.check(np.abs(np.asarray(q, float) - m3).max() < 1e-9, 'MT33>MT6>MT33', 'the round trip changes the tensor', {'tensor': m.tolist()})
        res = []
        for name, x in (('flat', m.copy()), ('column', m[:, None].copy()), ('matrix column', np.matrix(m[:, None]))):
            ok, r = R.call('MT6_Tape', C.MT6_Tape, x)
            if ok:
                r = flat(*r)
                if R.check(all(len(q) == 1 for q in r), 'MT6_Tape:single:shape', 'one tensor (%s) gives %r values' % (name, [len(q) for q in r]), None):
                    r = np.array(r)
                    R.check(np.abs(G.tape6(*r)[:, 0] - m).max() < TOL, 'MT6_Tape:single', 'one tensor (%s): the parameters describe another tensor' % name, {'tensor': m.tolist(), 'got': r.flatten().tolist()})
    R.sample({'tensors': M.shape[1]})


def paths(R, tier):
    """All conversion paths to a bounded depth; each state must be the tensor it started from."""
    C = mod()
    depth = 5 if tier == 'quick' else 7
    src = lattice('quick', 0)[:, ::(61 if tier == 'quick' else 29)]
    n = src.shape[1]
    a = lambda *r: tuple(np.ascontiguousarray(np.asarray(x, float).flatten()) for x in r)
    each = lambda f, xs, stack: stack([f(x) for x in xs])
    edges = {
        'Tape': [('Tape_MT6', 'MT6', lambda x: np.asarray(C.Tape_MT6(*x), float)),
                 ('Tape_MT33', 'MT33', lambda x: [np.asarray(C.Tape_MT33(*[float(q[i]) for q in x]), float) for i in range(n)]),
                 ('Tape_TNPE', 'TNPE', lambda x: tuple(np.asarray(q, float) for q in C.Tape_TNPE(*x)))],
        'MT6': [('MT6_Tape', 'Tape', lambda x: a(*C.MT6_Tape(x))),
                ('output_convert', 'Tape', lambda x: a(*[C.output_convert(x)[q] for q in 'gdkhs'])),
                ('MT6_MT33', 'MT33', lambda x: [np.asarray(C.MT6_MT33(x[:, i:i + 1]), float) for i in range(n)]),
                ('MT6_TNPE', 'TNPE', lambda x: tuple(np.asarray(q, float) for q in C.MT6_TNPE(x)))],
        'MT33': [('MT33_MT6', 'MT6', lambda x: np.concatenate([np.asarray(C.MT33_MT6(q), float).reshape(6, 1) for q in x], 1))],
        'TNPE': [('E_GD+TNP_SDR', 'Tape', None)],
    }

    def tnpe(x):
        g, d = flat(*C.E_GD(x[3]))
        k, dip, s = flat(*C.TNP_SDR(np.matrix(x[0]), np.matrix(x[1]), np.matrix(x[2])))
        sw = np.abs(s) > PI / 2
        if sw.any():
            k2, d2, s2 = flat(*C.SDR_SDR(np.ascontiguousarray(k[sw]), np.ascontiguousarray(dip[sw]), np.ascontiguousarray(s[sw])))
            k[sw], dip[sw], s[sw] = k2, d2, s2
        return a(g, d, k, np.cos(dip), s)
    edges['TNPE'] = [('E_GD+TNP_SDR', 'Tape', tnpe)]
    tens = {'Tape': lambda x: G.tape6(*x), 'MT6': lambda x: x, 'MT33': lambda x: G.m6(np.array(x)),
            'TNPE': lambda x: G.m6(np.moveaxis(sum(x[3][q] * np.einsum('in,jn->ijn', x[q], x[q]) for q in range(3)), 2, 0))}
    ref = G.tape6(*src)
    frontier = [(('Tape',), 'Tape', a(*src))]
    seen = 0
    for step in range(depth):
        new = []
        for path, typ, x in frontier:
            for name, to, f in edges[typ]:
                key = '>'.join(path[-1:] + (name,))
                ok, y = R.call(key, f, x)
                if not ok:
                    continue
                R.state(n)
                seen += 1
                err = np.nan_to_num(np.abs(tens[to](y) - ref).max(0), nan=9.)
                bad(R, err < TOL, 'paths:' + key, 'the tensor changed along %s' % '>'.join(path + (name,)), src)
                if np.all(err < TOL):
                    new.append((path + (name,), to, y))
        frontier = new
    R.sample({'depth': depth, 'conversions': seen, 'sources': n})
