"""C14 - eigen-decomposition and source-type coordinates are faithful and scale-free."""
import itertools
import math
import numpy as np
from checks import geo as G
from checks.geo import PI, R2, flat

ASSUMPTIONS = ['tensors have entries between 1e-6 and 1e6 in size (scale-free comparisons use factors 1e-6..1e6); the zero tensor has no source type and is excluded',
               'source-type angles are compared to 1e-6 (the longitude scaled by cos(latitude), undefined for isotropic sources)',
               'crack-plus-double-couple: opening angle in [0, pi/2) and Poisson ratio in [-0.9, 0.5]; at pi/2 the Poisson ratio does not exist',
               'a 3x3 eigenvalue array holds one source per column']
TOL = 1e-9
ATOL = 1e-6


def shards(tier, seed):
    out = []
    for mode in ('c', 'py'):
        out.append(dict(name='eigen-' + mode, mode=mode, fn='eigen', kw=dict(tier=tier), cost=6))
        out.append(dict(name='types-' + mode, mode=mode, fn='types', kw=dict(tier=tier), cost=6))
        out.append(dict(name='orders-' + mode, mode=mode, fn='orders', kw=dict(tier=tier), cost=6))
        out.append(dict(name='potency-' + mode, mode=mode, fn='potency', kw=dict(tier=tier), cost=5))
        out.append(dict(name='cdc-' + mode, mode=mode, fn='cdc', kw=dict(tier=tier), cost=3))
    return out


def mod():
    import MTfit.convert as C
    return C


def bad(R, ok, key, what, src, **data):
    ok = np.broadcast_to(np.asarray(ok), (src.shape[1],))
    R.traces += ok.size
    for i in np.where(~ok)[0][:2]:
        R.fail(key, what, dict(source=src[:, i].tolist(), **dict((k, np.asarray(v, float)[..., i].tolist()) for k, v in data.items())))


def axes_ok(R, key, M, T, N, P, E):
    """Obligations on axes (3, n) and eigenvalues (3, n) of tensors M (6, n)."""
    n = M.shape[1]
    if not R.check(G.is_real(T, N, P, E), key + ':real', 'complex axes or eigenvalues', {'tensor': M[:, 0].tolist()}):
        return
    T, N, P, E = [np.asarray(x, float).reshape(3, n) for x in (T, N, P, E)]
    A = np.stack([T, N, P], 1)                                  # (3 components, 3 axes, n)
    gram = np.einsum('can,cbn->abn', A, A)
    bad(R, np.abs(gram - np.eye(3)[:, :, None]).max((0, 1)) < TOL, key + ':orthonormal', 'axes are not orthonormal', M, T=T, N=N, P=P)
    size = np.abs(M).max(0)
    bad(R, (E[0] >= E[1] - TOL * size) & (E[1] >= E[2] - TOL * size), key + ':order', 'eigenvalues are not ordered from largest to smallest', M, E=E)
    m = G.m6(np.moveaxis(np.einsum('an,can,dan->cdn', E, A, A), 2, 0))
    bad(R, np.abs(m - M).max(0) < TOL * size, key + ':rebuild', 'axes and eigenvalues do not rebuild the tensor', M, T=T, N=N, P=P, E=E)


def family(tier):
    """Tensors: eigenvalue patterns x orientations, all integer tensors, near-degenerate ones."""
    pats = np.array(list(itertools.product([-1., 0., .5, 1., 1 + 1e-9, 1 + 1e-15, 2.], repeat=3))).T
    pats = pats[:, np.abs(pats).max(0) > 0]
    S = np.array(list(itertools.product([0., 30., 123.4, 270.], [0., 35., 60., 90.], [-180., -135., -90., 0., 45., 80.]))).T * PI / 180
    out = []
    for i in range(S.shape[1]):
        t, n, p = G.axes(*S[:, i])
        q = pats if tier != 'quick' else pats[:, i % 4::4]
        M = sum(q[j] * np.outer(v, v)[:, :, None] for j, v in enumerate((t, n, p)))
        out.append(G.m6(np.moveaxis(M, 2, 0)))
    out.append(G.integer_tensors(1 if tier == 'quick' else 2))
    return np.concatenate(out, 1)


def eigen(R, tier):
    C = mod()
    M0 = family(tier)
    for scale in (1., 3e5, 2e-6):
        M = M0 * scale
        R.state(M.shape[1])
        for name, x in (('array', M.copy()), ('matrix', np.matrix(M))):
            keep = np.array(x)
            ok, r = R.call('MT6_TNPE', C.MT6_TNPE, x)
            if ok:
                if R.check(all(np.shape(q) == (3, M.shape[1]) for q in r), 'MT6_TNPE:shape', '%r' % ([np.shape(q) for q in r],), None):
                    axes_ok(R, 'MT6_TNPE:' + name, M, *r)
                R.check(np.array_equal(keep, np.array(x)), 'MT6_TNPE:pure', 'the tensors were changed', None)
        step = max(1, M.shape[1] // 1500)
        res = [[], [], [], []]
        use = M[:, ::step]
        for i in range(use.shape[1]):
            x = G.m33(use[:, i])
            ok, r = R.call('MT33_TNPE', C.MT33_TNPE, np.matrix(x) if i % 2 else x)
            if not ok:
                break
            for q in range(4):
                res[q].append(np.asarray(r[q]).flatten())
        else:
            axes_ok(R, 'MT33_TNPE', use, *[np.array(q).T for q in res])
        # one tensor
        for i in range(0, M.shape[1], step * 7):
            for name, x in (('flat', M[:, i].copy()), ('column', M[:, i:i + 1].copy())):
                if name == 'flat' and i % 2:
                    x = np.array(x)
                ok, r = R.call('MT6_TNPE:single', C.MT6_TNPE, x)
                if ok:
                    axes_ok(R, 'MT6_TNPE:single', M[:, i:i + 1], *r)
    R.sample({'tensors': M.shape[1], 'scales': [1, 3e5, 2e-6]})


def agree(R, key, what, E, g, d, ref=None):
    g0, d0 = G.source_type(E) if ref is None else ref
    g, d = flat(g, d)
    got = np.array([g, d])
    if not R.check(len(g) == len(d) == E.shape[1], key + ':shape', 'one pair per source expected', {'got': [len(g), len(d)]}):
        return
    bad(R, np.isfinite(got).all(0), key + ':finite', 'coordinates are not finite', E, got=got)
    with np.errstate(invalid='ignore'):
        bad(R, (np.abs(g - g0) * np.cos(d0) < ATOL) & (np.abs(d - d0) < ATOL) | ~np.isfinite(got).all(0), key, what, E, got=got)
        bad(R, ~np.isfinite(got).all(0) | ((np.abs(g) <= PI / 6 + TOL) & (np.abs(d) <= PI / 2 + TOL)), key + ':range', 'lune coordinates out of range', E, got=got)


def eigenvalues(tier):
    vals = [-2., -1., -.4, 0., .3, 1., 2.] if tier == 'quick' else [-5., -2., -1., -.4, -1e-3, 0., 1e-7, .3, 1., 1.5, 2., 7.]
    E = np.array(list(itertools.product(vals, repeat=3))).T
    g, d = [x.flatten() for x in np.meshgrid(np.linspace(-PI / 6, PI / 6, 13 if tier == 'quick' else 41), np.linspace(-PI / 2, PI / 2, 19 if tier == 'quick' else 61))]
    near = np.array([[a, b, c] for s in (1., -1., .1, 1. / 3) for a, b, c in itertools.product([s * (1 + j * 2.2e-16) for j in (-2, -1, 0, 1, 2)] + [s * (1 + 1e-12), s * (1 + 1e-8)], repeat=3)]).T
    E = np.concatenate([E, G.lune(g, d), near], 1)
    return E[:, np.abs(E).max(0) > 0]


def types(R, tier):
    """Lune and Hudson coordinates of the eigenvalue lattice (ordered), their scale invariance, special sources."""
    C = mod()
    E = np.sort(eigenvalues(tier), axis=0)[::-1].copy()
    R.state(E.shape[1])
    for scale in (1., 1e-6, 1e6, 7.):
        x = E * scale
        ok, r = R.call('E_GD', C.E_GD, x.copy())
        if ok:
            agree(R, 'E_GD', 'lune coordinates are not those of the eigenvalues', E, *r)
        for name in ('E_uv', 'E_tk'):
            ok, r = R.call(name, getattr(C, name), x.copy())
            if ok:
                hudson(R, name, E, *r)
    # one source, flat and column
    for i in range(0, E.shape[1], 7):
        e = E[:, i]
        for x in (e.copy(), e[:, None].copy()):
            ok, r = R.call('E_GD:single', C.E_GD, x)
            if ok:
                agree(R, 'E_GD:single', 'lune coordinates are not those of the eigenvalues', E[:, i:i + 1], *r)
            ok, r = R.call('E_uv:single', C.E_uv, x)
            if ok:
                hudson(R, 'E_uv:single', E[:, i:i + 1], *r)
    for name, e, uv in (('double-couple', [1., 0., -1.], (0., 0.)), ('explosion', [1., 1., 1.], (0., 1.)), ('implosion', [-1., -1., -1.], (0., -1.)),
                        ('positive CLVD', [2., -1., -1.], (-1., 0.)), ('negative CLVD', [1., 1., -2.], (1., 0.)), ('crack', [3., 1., 1.], None)):
        for s in (1., .37, 1e-4, 123.):
            ok, r = R.call('E_uv:special', C.E_uv, s * np.array(e))
            if ok and uv:
                u, v = [float(np.asarray(q).flatten()[0]) for q in r]
                R.check(abs(u - uv[0]) < TOL and abs(v - uv[1]) < TOL, 'E_uv:special:' + name, 'the Hudson coordinates of a %s are not %r' % (name, uv), {'scale': s, 'got': [u, v]})
    # through tensors: the output conversion
    M = family(tier)
    ok, r = R.call('output_convert', C.output_convert, M)
    if ok:
        e = np.linalg.eigvalsh(G.m33(M)).T[::-1]
        agree(R, 'output_convert', 'lune coordinates are not those of the tensor', e, r['g'], r['d'])
        hudson(R, 'output_convert', e, r['u'], r['v'])
        ok, r2 = R.call('output_convert', C.output_convert, M * 41.)
        if ok:
            agree(R, 'output_convert:scale', 'lune coordinates depend on the size of the tensor', e, r2['g'], r2['d'])
            hudson(R, 'output_convert:scale', e, r2['u'], r2['v'])
    for i in range(0, M.shape[1], max(1, M.shape[1] // 700)):
        ok, r = R.call('MT33_GD', C.MT33_GD, np.matrix(G.m33(M[:, i])))
        if ok:
            agree(R, 'MT33_GD', 'lune coordinates are not those of the tensor', np.linalg.eigvalsh(G.m33(M[:, i]))[:, None], *r)
    # inverting the eigenvalue map
    g, d = [np.ascontiguousarray(x.flatten()) for x in np.meshgrid(np.linspace(-PI / 6, PI / 6, 25), np.linspace(-PI / 2, PI / 2, 37))]
    ok, r = R.call('GD_E', C.GD_E, g, d)
    if ok:
        r = np.asarray(r, float)
        if R.check(r.shape == (3, len(g)), 'GD_E:shape', '%r' % (r.shape,), None):
            bad(R, np.abs(r - G.lune(g, d)).max(0) < TOL, 'GD_E', 'eigenvalues are not those of the lune point', np.array([g, d]), got=r)
            for s in (1., 55.):
                ok, q = R.call('E_GD', C.E_GD, np.ascontiguousarray(s * r))
                if ok:
                    agree(R, 'GD_E>E_GD', 'lune coordinates do not invert the eigenvalue map', r, *q, ref=(g, d))
    for i in range(0, len(g), 11):
        ok, r = R.call('GD_E:single', C.GD_E, float(g[i]), float(d[i]))
        if ok:
            r = np.asarray(r, float).flatten()
            R.check(len(r) == 3 and np.abs(r - G.lune(g[i], d[i])).max() < TOL, 'GD_E:single', 'eigenvalues are not those of the lune point', {'g': g[i], 'd': d[i], 'got': r.tolist()})
    R.sample({'eigenvalue triples': E.shape[1]})


def hudson(R, key, E, u, v):
    """Hudson coordinates (E_uv) or tau, k (E_tk)."""
    u, v = flat(u, v)
    got = np.array([u, v])
    if not R.check(len(u) == len(v) == E.shape[1], key + ':shape', 'one pair per source expected', {'got': [len(u), len(v)]}):
        return
    bad(R, np.isfinite(got).all(0), key + ':finite', 'coordinates are not finite', E, got=got)
    fin = np.isfinite(got).all(0)
    ref = np.array([G.hudson(E[:, i]) for i in range(E.shape[1])]).T
    if key.startswith('E_tk'):
        ref = np.array([tk_of(*x) for x in ref.T]).T
    near = np.array([np.ptp(E[:, i]) < 1e-6 * np.abs(E[:, i]).max() for i in range(E.shape[1])])
    tol = np.where(near, 1e-5, 1e-6)
    with np.errstate(invalid='ignore'):
        bad(R, ~fin | (np.abs(got - ref).max(0) < tol), key, 'coordinates are not those of the eigenvalues', E, got=got, expected=ref)
        if not key.startswith('E_tk'):
            bad(R, ~fin | ((np.abs(u) <= 4. / 3 + TOL) & (np.abs(v) <= 1 + TOL)), key + ':range', 'Hudson coordinates out of range', E, got=got)
        else:
            bad(R, ~fin | ((np.abs(u) <= 1 + TOL) & (np.abs(v) <= 1 + TOL)), key + ':range', 'tau, k out of range', E, got=got)


def tk_of(u, v):
    """Inverse of the skew: tau, k of u, v."""
    if u > 0 and v > 0:
        return (u / (1 + u / 2), v / (1 + u / 2)) if u < 4 * v else (u / (1 + 2 * v), v / (1 + 2 * v))
    if u < 0 and v < 0:
        return (u / (1 - u / 2), v / (1 - u / 2)) if u > 4 * v else (u / (1 - 2 * v), v / (1 - 2 * v))
    return u, v


def orders(R, tier):
    """All six orders of the eigenvalues: the coordinates do not change; every accepted array layout."""
    C = mod()
    E = np.sort(eigenvalues(tier), axis=0)[::-1].copy()
    if tier == 'quick':
        E = np.concatenate([E[:, :600:2], E[:, 600::9]], 1)
    for perm in itertools.permutations(range(3)):
        x = E[list(perm)].copy()
        R.state(x.shape[1])
        ok, r = R.call('E_GD', C.E_GD, x.copy())
        if ok:
            agree(R, 'order:E_GD', 'lune coordinates depend on the order of the eigenvalues', E, *r)
        ok, r = R.call('E_uv', C.E_uv, x.copy())
        if ok:
            hudson(R, 'order:E_uv', E, *r)
        for i in range(0, E.shape[1], 29):
            keep = x[:, i].copy()
            y = x[:, i].copy()
            ok, r = R.call('E_GD', C.E_GD, y)
            if ok:
                agree(R, 'order:E_GD:single', 'lune coordinates depend on the order of the eigenvalues', E[:, i:i + 1], *r)
            ok, r = R.call('E_uv', C.E_uv, y)
            if ok:
                hudson(R, 'order:E_uv:single', E[:, i:i + 1], *r)
            R.check(np.array_equal(y, keep), 'order:pure', 'the eigenvalues were changed', None)
        # rows as sources, sizes that cannot be mistaken
        for n in (2, 4, 5):
            ok, r = R.call('E_GD', C.E_GD, np.ascontiguousarray(x[:, :n].T))
            if ok:
                agree(R, 'rows:E_GD', 'one source per row: coordinates are not those of the eigenvalues', E[:, :n], *r)
        ok, r = R.call('E_GD', C.E_GD, x[:, 5:8].copy())
        if ok:
            agree(R, 'columns:E_GD', 'three sources: coordinates are not those of the eigenvalues', E[:, 5:8], *r)
    R.sample({'triples': E.shape[1], 'orders': 6})


def kelvin(c):
    """6x6 stiffness acting on (11, 22, 33, sqrt2 23, sqrt2 13, sqrt2 12)."""
    V = np.zeros((6, 6))
    V[np.triu_indices(6)] = c
    V = V + np.triu(V, 1).T
    w = np.array([1, 1, 1, R2, R2, R2])
    return V * np.outer(w, w)


def potency(R, tier):
    """M = C:D for a lattice of stiffnesses and potency tensors; the conversion must return D."""
    C = mod()
    order = [0, 1, 2, 5, 4, 3]
    stiff = []
    lame = [0., .5, 1., 3.]
    for l, m in itertools.product(lame, [.3, 1., 2.]):
        ok, c = R.call('isotropic_c', C.isotropic_c, l, m)
        if ok:
            n = l + 2 * m
            want = [n, l, l, 0, 0, 0, n, l, 0, 0, 0, n, 0, 0, 0, m, 0, 0, m, 0, m]
            R.check(np.allclose(np.asarray(c, float), want, atol=1e-12), 'isotropic_c', 'not the stiffness of lambda, mu', {'lambda': l, 'mu': m, 'got': list(c)})
        stiff.append([n, l, l, 0, 0, 0, n, l, 0, 0, 0, n, 0, 0, 0, m, 0, 0, m, 0, m])
    stiff.append([3., 1., .8, 0, 0, 0, 3., .8, 0, 0, 0, 2.2, 0, 0, 0, .7, 0, 0, .7, 0, 1.])                    # VTI
    stiff.append([5., 1.2, .9, .1, .2, -.3, 4., .8, .15, -.1, .05, 3.5, .07, .11, .2, 1.1, .03, .09, .9, -.06, 1.4])  # triclinic
    # one off-diagonal entry at a time: every slot of the 21
    base = [4., 1., .9, 0, 0, 0, 3.6, .8, 0, 0, 0, 3., 0, 0, 0, 1., 0, 0, .9, 0, 1.1]
    for i in range(21):
        c = list(base)
        c[i] += .25
        stiff.append(c)
    for c in stiff:
        ok, n = R.call('c_norm', C.c_norm, list(c))
        ok2, iso = R.call('is_isotropic_c', C.is_isotropic_c, list(c))
        if ok2:
            V = np.array(kelvin(c))
            true = bool(np.allclose(V, kelvin(isotropic(c)), atol=1e-9))
            R.check(bool(iso) == true, 'is_isotropic_c', 'isotropy decided wrongly', {'c': c, 'got': bool(iso)})
    D = G.integer_tensors(1)[:, ::(11 if tier == 'quick' else 2)]
    D = np.concatenate([np.eye(6), D * 1.7], 1)
    for c in stiff:
        K = kelvin(c)
        for i in range(D.shape[1]):
            R.state()
            d = D[:, i]
            m = np.empty(6)
            m[order] = K @ d[order]
            for name, x in (('flat', m.copy()), ('column', m[:, None].copy()), ('matrix', np.matrix(m[:, None]))):
                if name != 'flat' and i % 5:
                    continue
                ok, r = R.call('MT6c_D6', C.MT6c_D6, x, list(c))
                if ok:
                    r = np.asarray(r, float).flatten()
                    R.check(len(r) == 6 and np.abs(r - d).max() < 1e-8, 'MT6c_D6', 'the potency tensor times the stiffness is not the moment tensor (%s)' % name, {'c': c, 'potency': d.tolist(), 'got': r.tolist()})
    for c in stiff:
        # norm and nearest isotropic stiffness from the full fourth-order tensor
        F = full(c)
        ok, n = R.call('c_norm', C.c_norm, list(c))
        if ok:
            R.check(abs(float(n) - np.sqrt((F ** 2).sum())) < 1e-9, 'c_norm', 'not the norm of the stiffness tensor', {'c': c, 'got': float(n)})
        I, J = np.einsum('iijj', F), np.einsum('ijij', F)
        m, l = (3 * J - I) / 30., (2 * I - J) / 15.
        ok, r = R.call('isotropic_c', lambda: C.isotropic_c(c=list(c)))
        if ok:
            R.check(np.allclose(np.asarray(r, float), [l + 2 * m, l, l, 0, 0, 0, l + 2 * m, l, 0, 0, 0, l + 2 * m, 0, 0, 0, m, 0, 0, m, 0, m], atol=1e-9),
                    'isotropic_c:average', 'not the isotropic average of the stiffness', {'c': c, 'got': list(r)})
        if np.linalg.eigvalsh(kelvin(c)).min() <= 0 or not np.allclose(kelvin(c), kelvin(isotropic(c)), atol=1e-9):
            continue   # bi-axes of an anisotropic medium come from an iterative solver and are not part of the property
        K = kelvin(c)
        M = D[:, ::(9 if tier == 'quick' else 1)] @ np.eye(D[:, ::(9 if tier == 'quick' else 1)].shape[1])
        single = []
        for i in range(M.shape[1]):
            R.state()
            ok, r = R.call('MT6_biaxes', C.MT6_biaxes, M[:, i].copy(), list(c))
            if ok:
                single.append(r)
                biaxes(R, 'MT6_biaxes', M[:, i], K, order, r, c)
        ok, r = R.call('MT6_biaxes:batch', C.MT6_biaxes, M.copy(), list(c))
        if ok and len(single) == M.shape[1]:
            for i in range(M.shape[1]):
                biaxes(R, 'MT6_biaxes:batch', M[:, i], K, order, [x[i] for x in r], c)
    ok, r = R.call('MT6c_D6', C.MT6c_D6, np.array([1., 0, 0, 0, 0, 0]))
    if ok:
        d = np.linalg.solve(kelvin(isotropic(None)), np.eye(6)[0])
        R.check(np.abs(np.asarray(r, float).flatten() - d[order]).max() < TOL, 'MT6c_D6:default', 'the default stiffness is not lambda = mu = 1', {'got': np.asarray(r, float).flatten().tolist()})
    R.sample({'stiffnesses': len(stiff), 'potency tensors': D.shape[1]})


def full(c):
    V = np.zeros((6, 6))
    V[np.triu_indices(6)] = c
    V = V + np.triu(V, 1).T
    v = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (0, 2): 4, (0, 1): 5}
    F = np.empty((3, 3, 3, 3))
    for i, j, k, l in itertools.product(range(3), repeat=4):
        F[i, j, k, l] = V[v[min(i, j), max(i, j)], v[min(k, l), max(k, l)]]
    return F


def biaxes(R, name, m, K, order, r, c):
    """M = explosion I + C:(area/2)(a b' + b a') with unit a and b."""
    phi, ex, area = np.asarray(r[0], float), float(np.squeeze(r[1])), float(np.squeeze(r[2]))
    d = np.empty(6)
    d[order] = np.linalg.solve(K, (m - ex * np.array([1., 1, 1, 0, 0, 0]))[order])
    a, b = phi[:, 0], phi[:, 1]
    s = area / 2 * (np.outer(a, b) + np.outer(b, a))
    want = np.array([s[0, 0], s[1, 1], s[2, 2], np.sqrt(2) * s[0, 1], np.sqrt(2) * s[0, 2], np.sqrt(2) * s[1, 2]])
    data = {'m': m.tolist(), 'c': c, 'explosion': ex, 'area': area, 'phi': phi.tolist()}
    R.check(np.abs(d - want).max() < 1e-5, name + ':tensor', 'bi-axes, explosion and area do not rebuild the potency tensor', data)
    if abs(area) > 1e-6:
        R.check(max(abs(a @ a - 1), abs(b @ b - 1)) < 1e-5, name + ':unit', 'bi-axes are not unit vectors', data)


def isotropic(c):
    if c is None:
        l = m = 1.
    else:
        m = ((c[0] + c[6] + c[11]) + 3 * (c[15] + c[18] + c[20]) - (c[1] + c[2] + c[7])) / 15
        l = ((c[0] + c[6] + c[11]) - 2 * (c[15] + c[18] + c[20]) + 4 * (c[1] + c[2] + c[7])) / 15
    n = l + 2 * m
    return [n, l, l, 0, 0, 0, n, l, 0, 0, 0, n, 0, 0, 0, m, 0, 0, m, 0, m]


def cdc(R, tier):
    """Crack-plus-double-couple: (opening angle, Poisson ratio) -> lune -> back, against the defining tensor."""
    C = mod()
    k = 1 if tier == 'quick' else 4
    al = np.concatenate([np.linspace(0, 1.5, 31 * k), [1e-6, 1e-3, 1.55]])
    nu = np.concatenate([np.linspace(-.9, .5, 29 * k), [0., .25, .4999]])
    a, n = [np.ascontiguousarray(x.flatten()) for x in np.meshgrid(al, nu)]
    R.state(len(a))
    src = np.array([a, n])
    # eigenvalues of a crack-plus-double-couple: lambda tr(D) I + 2 mu D, D = sym(normal x displacement) at angle alpha
    lam = 2 * n / np.where(n < .5, 1 - 2 * n, np.nan)            # mu = 1
    c = np.cos(a)
    E = np.array([lam * c + c + 1, lam * c, lam * c + c - 1])
    lim = n >= .5
    E[:, lim] = 1.
    g0, d0 = G.source_type(E)
    g0 = np.where(lim, np.arctan(-c / math.sqrt(3)), g0)
    ok, r = R.call('basic_cdc_GD', C.basic_cdc_GD, a, n)
    if ok:
        g, d = flat(*r)
        got = np.array([g, d])
        bad(R, np.isfinite(got).all(0), 'cdc:finite', 'lune coordinates are not finite', src, got=got)
        with np.errstate(invalid='ignore'):
            bad(R, ~np.isfinite(got).all(0) | ((np.abs(g - g0) < ATOL) & (np.abs(d - d0) < ATOL)), 'cdc:lune', 'lune coordinates are not those of the crack-plus-double-couple', src, got=got, expected=np.array([g0, d0]))
        back(R, src, g, d, 'cdc')
    for i in range(0, len(a), 7):
        ok, r = R.call('basic_cdc_GD', C.basic_cdc_GD, float(a[i]), float(n[i]))
        if ok:
            g, d = flat(*r)
            R.check(len(g) == 1 and abs(g[0] - g0[i]) < ATOL and abs(d[0] - d0[i]) < ATOL, 'cdc:single', 'a single source gives other lune coordinates', {'alpha': a[i], 'poisson': n[i], 'got': [g.tolist(), d.tolist()]})
            back(R, src[:, i:i + 1], *[float(q) for q in (g[0], d[0])], key='cdc:single')
    ok, r = R.call('basic_cdc_GD', C.basic_cdc_GD, a)
    if ok:
        g, d = flat(*r)
        q = np.abs(n - .25) < 1e-12
        R.check(np.abs(np.array([g, d])[:, q] - np.array([g0, d0])[:, q]).max() < ATOL, 'cdc:default', 'the default Poisson ratio is not 0.25', None)
    # the double-couple end
    for al2 in (PI / 2, np.array([PI / 2, PI / 2])):
        ok, r = R.call('basic_cdc_GD', C.basic_cdc_GD, al2, .25 if np.ndim(al2) == 0 else np.array([.25, .1]))
        if ok:
            g, d = flat(*r)
            R.check(np.abs(g).max() < TOL and np.abs(d).max() < TOL, 'cdc:dc', 'a right opening angle is not a double-couple', {'got': [g.tolist(), d.tolist()]})
            ok, r = R.call('GD_basic_cdc', C.GD_basic_cdc, *r)
            if ok:
                R.check(np.abs(flat(r[0])[0] - PI / 2).max() < ATOL, 'cdc:dc:back', 'a double-couple does not have a right opening angle', None)
    R.sample({'pairs': len(a)})


def back(R, src, g, d, key):
    C = mod()
    ok, r = R.call('GD_basic_cdc', C.GD_basic_cdc, g, d)
    if ok:
        a, n = flat(*r)
        got = np.array([a, n])
        if R.check(len(a) == len(n) == src.shape[1], key + ':back:shape', 'one pair per source expected', None):
            bad(R, np.isfinite(got).all(0), key + ':back:finite', 'opening angle or Poisson ratio is not finite', src, got=got)
            with np.errstate(invalid='ignore'):
                bad(R, ~np.isfinite(got).all(0) | (np.abs(got - src).max(0) < 1e-6), key + ':back', 'opening angle or Poisson ratio changes in the round trip', src, got=got)
