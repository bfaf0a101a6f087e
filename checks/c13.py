"""C13 - strike/dip/rake, principal axes and normal/slip describe one and the same source."""
import itertools
import math
import numpy as np
from checks import geo as G
from checks.geo import PI, flat

ASSUMPTIONS = ['converting axes or a normal/slip pair to angles may return either nodal plane (the pair of orderings must return both)',
               'for horizontal planes strike and rake are only defined together: the normal and slip vectors are compared instead of the angles; likewise the two descriptions of a vertical plane',
               'angles are compared to 1e-6, vectors and tensors to 1e-7']
TOL = 1e-7
ATOL = 1e-6


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out.append(dict(name='angles-' + mode, mode=mode, fn='angles', kw=dict(tier=tier), cost=6))
        out.append(dict(name='scalar-' + mode, mode=mode, fn='scalar', kw=dict(tier=tier), cost=5))
        out.append(dict(name='paths-' + mode, mode=mode, fn='paths', kw=dict(tier=tier), cost=8))
        out.append(dict(name='output-' + mode, mode=mode, fn='output', kw=dict(tier=tier), cost=4))
        out.append(dict(name='close-' + mode, mode=mode, fn='close', kw=dict(tier=tier), cost=4))
    return out


def mod():
    import MTfit.convert as C
    return C


def mat(v):
    return np.matrix(np.array(v, float))


def in_range(s, d, r, slack=0.):
    return np.isfinite(s) & np.isfinite(d) & np.isfinite(r) & (s >= 0) & (s < 2 * PI) & (d >= 0) & (d <= PI / 2 + slack) & (r >= -PI - slack) & (r <= PI + slack)


def bad(R, ok, key, what, src, **data):
    """Vector check: ok is boolean per source."""
    ok = np.broadcast_to(np.asarray(ok), (src.shape[1],))
    R.traces += ok.size
    for i in np.where(~ok)[0][:2]:
        R.fail(key, what, dict(source_deg=(src[:, i] * 180 / PI).tolist(), **dict((k, np.asarray(v, float)[..., i].tolist() if np.ndim(v) else v) for k, v in data.items())))


def check_angles(R, key, src, out, allow, slack=0.):
    """out = (s, d, r) must be in range and one of the allowed planes of each source; generic planes angle by angle."""
    s, d, r = flat(*out)
    n = src.shape[1]
    if not R.check(len(s) == len(d) == len(r) == n, key + ':shape', 'one triple per source expected', {'got': [len(s), len(d), len(r)]}):
        return
    if not R.check(G.is_real(*out), key + ':real', 'complex angles', None):
        return
    bad(R, in_range(s, d, r, slack), key + ':range', 'angles outside strike [0,2pi), dip [0,pi/2], rake [-pi,pi]', src, got=np.array([s, d, r]))
    S, D, U = src
    cand = []
    if 'same' in allow:
        cand.append((S, D, U))
    if 'aux' in allow:
        cand.append(aux(S, D, U))
    dist = np.array([G.same_plane(s, d, r, *c) for c in cand])
    bad(R, dist.min(0) < TOL, key + ':plane', 'the angles are not a nodal plane of the source (or the wrong one)', src, got=np.array([s, d, r]))
    which = dist.argmin(0)
    cs = np.array([[c[q] for c in cand] for q in range(3)])
    for q, x in enumerate((s, d, r)):
        ref = np.take_along_axis(cs[q], which[None], 0)[0]
        dd = np.take_along_axis(cs[1], which[None], 0)[0]
        generic = (dd > 1e-3) & (dd < PI / 2 - 1e-3)
        bad(R, ~generic | (G.angdist(x, ref) < ATOL), key + ':angle', 'angle %s differs from the source' % 'SDR'[q], src, got=np.array([s, d, r]))


def aux(S, D, U):
    """Angles of the auxiliary plane by the standard construction."""
    n, u = G.normal(S, D), G.slip(S, D, U)
    N, V = u.copy(), n.copy()
    flip = N[2] > 0
    N[:, flip] *= -1
    V[:, flip] *= -1
    dip = np.arctan2(np.hypot(N[0], N[1]), -N[2])
    strike = np.where(np.hypot(N[0], N[1]) > 1e-12, np.arctan2(-N[0], N[1]), 0.)
    e = np.array([np.cos(strike), np.sin(strike), 0 * strike])
    f = np.array([np.sin(strike) * np.cos(dip), -np.cos(strike) * np.cos(dip), -np.sin(dip)])
    return np.mod(strike, 2 * PI), dip, np.arctan2((V * f).sum(0), (V * e).sum(0))


def unit_perp(a, b):
    return (np.abs((a * a).sum(0) - 1) < TOL) & (np.abs((b * b).sum(0) - 1) < TOL) & (np.abs((a * b).sum(0)) < TOL)


def dc_of(n, u):
    M = np.einsum('i...,j...->...ij', n, u)
    return G.m6((M + np.swapaxes(M, -1, -2)) / G.R2)


def dc_tnp(t, p):
    return G.m6((np.einsum('i...,j...->...ij', t, t) - np.einsum('i...,j...->...ij', p, p)) / G.R2)


def examine(R, src, tag=''):
    """Every conversion of one batch of sources (3, n)."""
    C = mod()
    S, D, U = [np.ascontiguousarray(x) for x in src]
    n = len(S)
    ref = G.dc6(S, D, U)
    R.state(n)
    a = lambda x: np.array(x, float)
    ok, r = R.call('SDR_TNP', C.SDR_TNP, S, D, U)
    if ok:
        t, nn, p = [a(x) for x in r]
        if R.check(t.shape == nn.shape == p.shape == (3, n), 'SDR_TNP:shape', '%r' % (t.shape,), None):
            bad(R, unit_perp(t, p) & unit_perp(t, nn) & unit_perp(p, nn), tag + 'SDR_TNP:orthonormal', 'axes are not orthonormal', src, T=t, N=nn, P=p)
            bad(R, np.abs(dc_tnp(t, p) - ref).max(0) < TOL, tag + 'SDR_TNP:tensor', 'the axes are not those of the source', src, T=t, P=p)
            for sg in ((1, 1), (-1, 1), (1, -1)):
                T_, P_ = mat(sg[0] * t), mat(sg[1] * p)
                keep = T_.copy(), P_.copy()
                ok, o = R.call('TNP_SDR', C.TNP_SDR, T_, mat(nn), P_)
                if ok:
                    check_angles(R, tag + 'TNP_SDR', src, o, ('same', 'aux'))
                    R.check(np.array_equal(keep[0], T_) and np.array_equal(keep[1], P_), tag + 'TNP_SDR:pure', 'the input axes were changed', None)
                ok, o = R.call('TP_FP', C.TP_FP, T_, P_)
                if ok:
                    n1, n2 = a(o[0]), a(o[1])
                    bad(R, unit_perp(n1, n2), tag + 'TP_FP:orthonormal', 'normal and slip are not unit and perpendicular', src, N1=n1, N2=n2)
                    v = np.abs(np.abs(dc_of(n1, n2)) - np.abs(ref)).max(0)
                    w = np.minimum(np.abs(dc_of(n1, n2) - ref).max(0), np.abs(dc_of(n1, n2) + ref).max(0))
                    bad(R, (w < TOL) & (v < TOL), tag + 'TP_FP:tensor', 'normal and slip are not those of the source', src, N1=n1, N2=n2)
                    if sg == (1, 1):
                        bad(R, np.abs(dc_of(n1, n2) - ref).max(0) < TOL, tag + 'TP_FP:sign', 'normal and slip give the opposite source', src, N1=n1, N2=n2)
                        pair(R, src, n1, n2, tag + 'TP_FP')
    ok, r = R.call('SDR_FP', C.SDR_FP, S, D, U)
    if ok:
        n1, n2 = a(r[0]), a(r[1])
        if R.check(n1.shape == n2.shape == (3, n), 'SDR_FP:shape', '%r' % (n1.shape,), None):
            bad(R, unit_perp(n1, n2), tag + 'SDR_FP:orthonormal', 'normal and slip are not unit and perpendicular', src, N1=n1, N2=n2)
            bad(R, np.abs(dc_of(n1, n2) - ref).max(0) < TOL, tag + 'SDR_FP:tensor', 'normal and slip are not those of the source', src, N1=n1, N2=n2)
            pair(R, src, n1, n2, tag + 'SDR_FP')
    ok, r = R.call('SDR_SDR', C.SDR_SDR, S, D, U)
    if ok:
        check_angles(R, tag + 'SDR_SDR', src, r, ('aux',))
        o = flat(*r)
        if len(o[0]) == n:
            ok, rr = R.call('SDR_SDR', C.SDR_SDR, *[np.ascontiguousarray(x) for x in o])
            if ok:
                check_angles(R, tag + 'SDR_SDR:involution', src, rr, ('same',))
    ok, r = R.call('SDR_SDSD', C.SDR_SDSD, S, D, U)
    if ok:
        s1, d1, s2, d2 = flat(*r)
        planes = [G.normal(s1, d1), G.normal(s2, d2)]
        cand = [G.normal(S, D), G.slip(S, D, U)]
        err = np.minimum(*[np.maximum(par(planes[0], cand[i]), par(planes[1], cand[1 - i])) for i in (0, 1)])
        bad(R, err < TOL, tag + 'SDR_SDSD:planes', 'the two strike/dip pairs are not the nodal planes', src, got=np.array([s1, d1, s2, d2]))
        bad(R, (s1 >= 0) & (s1 < 2 * PI) & (s2 >= 0) & (s2 < 2 * PI) & (d1 >= 0) & (d1 <= PI / 2) & (d2 >= 0) & (d2 <= PI / 2), tag + 'SDR_SDSD:range', 'strike/dip out of range', src, got=np.array([s1, d1, s2, d2]))
        ok, r = R.call('SDSD_FP', C.SDSD_FP, s1, d1, s2, d2)
        if ok:
            n1, n2 = a(r[0]), a(r[1])
            bad(R, np.minimum(*[np.maximum(par(n1, cand[i]), par(n2, cand[1 - i])) for i in (0, 1)]) < TOL, tag + 'SDSD_FP', 'normal and slip are not the nodal plane normals', src, N1=n1, N2=n2)
    # the plane of a normal, both signs
    for v, q in ((G.normal(S, D), 'n'), (G.slip(S, D, U), 'u')):
        for sg in (1, -1):
            x = mat(sg * v)
            keep = x.copy()
            ok, r = R.call('normal_SD', C.normal_SD, x)
            if ok:
                s, d = flat(*r)
                bad(R, (par(G.normal(s, d), v) < TOL) & (s >= 0) & (s < 2 * PI) & (d >= 0) & (d <= PI / 2), tag + 'normal_SD', 'strike and dip are not the plane of the normal (or out of range)', src, got=np.array([s, d]))
                R.check(np.array_equal(keep, x), tag + 'normal_SD:pure', 'the input normal was changed', None)
    # the tensor itself
    for i in range(0, n, max(1, n // 60)):
        ok, r = R.call('MT33_SDR', C.MT33_SDR, np.matrix(G.m33(ref[:, i])))
        if ok:
            check_angles(R, tag + 'MT33_SDR', src[:, i:i + 1], r, ('same', 'aux'))


def par(a, b):
    return np.minimum(np.abs(a - b).max(0), np.abs(a + b).max(0))


def pair(R, src, n1, n2, key):
    """Both orderings of a normal/slip pair: the two nodal planes, and the axes of both."""
    C = mod()
    a = lambda x: np.array(x, float)
    ref = G.dc6(*src)
    outs = []
    for x, y in ((n1, n2), (n2, n1), (-n1, -n2)):
        X, Y = mat(x), mat(y)
        kx, ky = X.copy(), Y.copy()
        ok, r = R.call('FP_SDR', C.FP_SDR, X, Y)
        if ok:
            check_angles(R, key + '>FP_SDR', src, r, ('same', 'aux'))
            R.check(np.array_equal(kx, X) and np.array_equal(ky, Y), 'FP_SDR:pure', 'the input vectors were changed', None)
            outs.append(flat(*r))
        ok, r = R.call('FP_TNP', C.FP_TNP, mat(x), mat(y))
        if ok:
            t, nn, p = [a(q) for q in r]
            bad(R, unit_perp(t, p) & unit_perp(t, nn) & unit_perp(p, nn) & (np.abs(dc_tnp(t, p) - ref).max(0) < TOL), key + '>FP_TNP', 'axes of the normal/slip pair are wrong', src, T=t, N=nn, P=p)
        # plain arrays
        ok, r = R.call('FP_SDR', C.FP_SDR, a(x), a(y))
        if ok:
            check_angles(R, key + '>FP_SDR:array', src, r, ('same', 'aux'))
    if len(outs) == 3 and all(len(o[0]) == src.shape[1] for o in outs):
        A, B, A2 = outs
        S, D, U = src
        d1 = np.maximum(G.same_plane(*(list(A) + [S, D, U])), G.same_plane(*(list(B) + list(aux(S, D, U)))))
        d2 = np.maximum(G.same_plane(*(list(B) + [S, D, U])), G.same_plane(*(list(A) + list(aux(S, D, U)))))
        bad(R, np.minimum(d1, d2) < TOL, key + '>FP_SDR:both', 'the two orderings do not give the two nodal planes', src, first=np.array(A), second=np.array(B))
        bad(R, G.same_plane(*(list(A) + list(A2))) < TOL, key + '>FP_SDR:sign', 'reversing both vectors changes the plane', src, first=np.array(A), reversed=np.array(A2))


def angles(R, tier):
    """The full orientation lattice through every conversion, in batches."""
    src = G.orientations()
    examine(R, src)
    if tier != 'quick':
        st = np.arange(0, 360, 5.)
        src = np.array(list(itertools.product(st, np.arange(0, 90.1, 5), np.arange(-180, 180.1, 5)))).T * PI / 180
        for i in range(0, src.shape[1], 20000):
            examine(R, src[:, i:i + 20000])
    R.sample({'strikes': G.ORIENT_S, 'dips': G.ORIENT_D, 'rakes': G.ORIENT_R})


def scalar(R, tier):
    """One source at a time: arrays of length one, numpy scalars and plain floats agree with the batch."""
    C = mod()
    src = G.orientations(small=True)
    if tier != 'quick':
        src = G.orientations()[:, ::2]
    for i in range(src.shape[1]):
        one = src[:, i:i + 1]
        S, D, U = one
        R.state()
        for name, conv in (('array', lambda x: np.array([float(x[0])])), ('float', lambda x: float(x[0])), ('scalar', lambda x: np.float64(x[0]))):
            args = [conv(x) for x in one]
            ok, r = R.call('SDR_TNP', C.SDR_TNP, *args)
            if ok:
                t, n, p = [np.array(x, float) for x in r]
                bad(R, np.abs(dc_tnp(t, p) - G.dc6(S, D, U)).max() < TOL, 'scalar:SDR_TNP', 'wrong axes', one, T=t, P=p)
                ok, o = R.call('TNP_SDR', C.TNP_SDR, *r)
                if ok:
                    check_angles(R, 'scalar:TNP_SDR', one, o, ('same', 'aux'))
                ok, o = R.call('TP_FP', C.TP_FP, np.array(r[0]).flatten(), np.array(r[2]).flatten())
                if ok:
                    bad(R, np.abs(dc_of(*[np.array(x, float) for x in o]) - G.dc6(S, D, U)).max() < TOL, 'scalar:TP_FP', 'wrong normal and slip', one)
            ok, r = R.call('SDR_FP', C.SDR_FP, *args)
            if ok:
                n1, n2 = [np.array(x, float) for x in r]
                bad(R, unit_perp(n1, n2) & (np.abs(dc_of(n1, n2) - G.dc6(S, D, U)).max() < TOL), 'scalar:SDR_FP', 'wrong normal and slip', one, N1=n1, N2=n2)
            ok, r = R.call('SDR_SDR', C.SDR_SDR, *args)
            if ok:
                check_angles(R, 'scalar:SDR_SDR', one, r, ('aux',))
                ok, r = R.call('SDR_SDR', C.SDR_SDR, *[conv(x) for x in flat(*r)])
                if ok:
                    check_angles(R, 'scalar:SDR_SDR:involution', one, r, ('same',))
    R.sample({'sources': src.shape[1]})


def paths(R, tier):
    """All conversion paths up to a bounded length from every source of a lattice; each state must describe the source."""
    C = mod()
    depth = 4 if tier == 'quick' else 5
    src = G.orientations(small=True)
    m = lambda *a: tuple(np.matrix(np.array(x, float)) for x in a)
    v = lambda *a: tuple(np.ascontiguousarray(np.asarray(x, float).flatten()) for x in a)
    edges = {
        'SDR': [('SDR_TNP', 'TNP', lambda x: m(*C.SDR_TNP(*x))), ('SDR_FP', 'FP', lambda x: m(*C.SDR_FP(*x))), ('SDR_SDR', 'SDR', lambda x: v(*C.SDR_SDR(*x)))],
        'TNP': [('TNP_SDR', 'SDR', lambda x: v(*C.TNP_SDR(*x))), ('TP_FP', 'FP', lambda x: m(*C.TP_FP(x[0], x[2])))],
        'FP': [('FP_TNP', 'TNP', lambda x: m(*C.FP_TNP(*x))), ('FP_SDR', 'SDR', lambda x: v(*C.FP_SDR(*x))), ('swap', 'FP', lambda x: (x[1].copy(), x[0].copy()))],
    }
    tens = {'SDR': lambda x: G.dc6(*x), 'TNP': lambda x: dc_tnp(np.array(x[0]), np.array(x[2])), 'FP': lambda x: dc_of(np.array(x[0]), np.array(x[1]))}
    ref = G.dc6(*src)
    frontier = [(('SDR',), 'SDR', v(*src))]
    for step in range(depth):
        new = []
        for path, typ, x in frontier:
            for name, to, f in edges[typ]:
                key = '>'.join(path[-2:] + (name,))
                ok, y = R.call(key, f, tuple(q.copy() for q in x))
                if not ok:
                    continue
                R.state(src.shape[1])
                err = np.abs(tens[to](y) - ref).max(0)
                bad(R, err < 3e-7, 'paths:' + key, 'the source changed along %s' % '>'.join(path + (name,)), src)
                if np.all(err < 3e-7):
                    new.append((path + (name,), to, y))
        frontier = new
    R.sample({'depth': depth, 'paths': len(frontier), 'example': [f[0] for f in frontier[:3]]})


def output(R, tier):
    """The two triples reported for a result: each other's auxiliary plane, both of the double-couple part of the tensor."""
    C = mod()
    src = G.orientations(small=tier == 'quick')
    if tier == 'quick':
        src = np.concatenate([src, G.orientations()[:, ::5]], axis=1)
    S, D, U = src
    for g, d in ((0., 0.), (.2, .1), (-.3, 1.), (.5, -1.2), (-.5, -.1)):
        M = G.tape6(g + 0 * S, d + 0 * S, S, np.cos(D), U)
        ok, r = R.call('output_convert', C.output_convert, M)
        R.state(M.shape[1])
        if not ok:
            continue
        a = [np.asarray(r[k], float).flatten() * PI / 180 for k in ('S1', 'D1', 'R1')]
        b = [np.asarray(r[k], float).flatten() * PI / 180 for k in ('S2', 'D2', 'R2')]
        # near-repeated eigenvalues cannot happen here, so the double-couple part is that of the source
        check_angles(R, 'output:first', src, a, ('same', 'aux'), slack=1e-12)
        check_angles(R, 'output:second', src, b, ('same', 'aux'), slack=1e-12)
        ax = aux(*a)
        bad(R, G.same_plane(*(list(ax) + b)) < TOL, 'output:auxiliary', 'the two reported planes are not each other\'s auxiliary plane', src, first=np.array(a), second=np.array(b))
        # one tensor at a time
        for i in range(0, M.shape[1], 37):
            ok, o = R.call('output_convert', C.output_convert, M[:, i:i + 1].copy())
            if ok:
                for k in r:
                    x = np.asarray(o[k], float).flatten()
                    y = np.asarray(r[k], float).flatten()[i]
                    R.check(len(x) == 1 and (abs(x[0] - y) < 1e-9 or k in 'khsS1D1R1S2D2R2' and x[0] == x[0]), 'output:single', 'value of %s differs between one tensor and a batch' % k, {'batch': y, 'single': x})
    R.sample({'sources': src.shape[1]})


def close(R, tier):
    """Planes whose two strikes differ by less than one radian (and near multiples of it), planes near wrap-around."""
    n = 12 if tier == 'quick' else 40
    dips = np.linspace(20, 90, n)
    rakes = np.concatenate([np.linspace(-175, -100, n), np.linspace(100, 175, n), np.linspace(-85, 85, n)])
    src = np.array(list(itertools.product([0., 1e-13, 0.3, 57.2957795, 180., 359.9, 360. - 1e-12], dips, rakes))).T * PI / 180
    A = aux(*src)
    diff = G.angdist(A[0], src[0])
    R.outcome('within-one-radian', (bool((diff < 1).any()), bool((diff > 1).any())))
    examine(R, src, 'close:')
    R.sample({'sources': src.shape[1], 'strikes_within_one_radian': int((diff < 1).sum())})
