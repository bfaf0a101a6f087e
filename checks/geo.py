"""Independent source geometry used by C12, C13, C14, C19 and C20 (own code, no MTfit import)."""
import itertools
import math
import numpy as np

PI = math.pi
R2 = math.sqrt(2)


def m33(m):
    m = np.asarray(m, float)
    out = np.empty(m.shape[1:] + (3, 3))
    for i, j, k, s in ((0, 0, 0, 1), (1, 1, 1, 1), (2, 2, 2, 1), (0, 1, 3, 1 / R2), (0, 2, 4, 1 / R2), (1, 2, 5, 1 / R2)):
        out[..., i, j] = out[..., j, i] = s * m[k]
    return out


def m6(M):
    M = np.asarray(M, float)
    return np.array([M[..., 0, 0], M[..., 1, 1], M[..., 2, 2], R2 * M[..., 0, 1], R2 * M[..., 0, 2], R2 * M[..., 1, 2]])


def normal(s, d):
    s, d = np.asarray(s, float), np.asarray(d, float)
    return np.array([-np.sin(s) * np.sin(d), np.cos(s) * np.sin(d), -np.cos(d)])


def slip(s, d, r):
    s, d, r = [np.asarray(x, float) for x in (s, d, r)]
    return np.array([np.cos(s) * np.cos(r) + np.sin(s) * np.cos(d) * np.sin(r),
                     np.sin(s) * np.cos(r) - np.cos(s) * np.cos(d) * np.sin(r), -np.sin(d) * np.sin(r)])


def axes(s, d, r):
    """Rows t, n, p."""
    n, u = normal(s, d), slip(s, d, r)
    t, p = (n + u) / R2, (u - n) / R2
    return t, np.cross(p, t, axis=0), p


def lune(g, d):
    """Unit eigenvalues, largest first."""
    g, d = np.asarray(g, float), np.asarray(d, float)
    x, y, z = np.cos(g) * np.cos(d), np.sin(g) * np.cos(d), np.sin(d)
    return np.array([(math.sqrt(3) * x - y + R2 * z), (2 * y + R2 * z) + 0 * x, (-math.sqrt(3) * x - y + R2 * z)]) / math.sqrt(6)


def tape6(g, d, k, h, s):
    """Six-vectors of Tape parameters (arrays)."""
    dip = np.arccos(np.clip(h, -1, 1))
    t, n, p = axes(k, dip, s)
    e = lune(g, d)
    M = 0
    for v, l in zip((t, n, p), e):
        M = M + l[..., None, None] * np.einsum('i...,j...->...ij', v, v)
    return m6(M)


def dc6(s, d, r):
    n, u = normal(s, d), slip(s, d, r)
    M = np.einsum('i...,j...->...ij', n, u)
    return m6((M + np.swapaxes(M, -1, -2)) / R2)


def source_type(e):
    """gamma, delta of eigenvalues in any order (accurate everywhere)."""
    e = np.sort(np.asarray(e, float), axis=0)[::-1]
    tr = e.sum(0) / math.sqrt(3)
    dev = np.sqrt(((e[0] - e[1]) ** 2 + (e[1] - e[2]) ** 2 + (e[0] - e[2]) ** 2) / 3)
    delta = np.arctan2(tr, dev)
    gamma = np.arctan2(-e[0] + 2 * e[1] - e[2], math.sqrt(3) * (e[0] - e[2]))
    return gamma, delta


def hudson(e):
    """u, v of eigenvalues in any order (Hudson et al. 1989)."""
    e = np.sort(np.asarray(e, float))[::-1]
    iso = e.sum() / 3
    dev = np.array([((e[0] - e[1]) + (e[0] - e[2])), ((e[1] - e[0]) + (e[1] - e[2])), ((e[2] - e[0]) + (e[2] - e[1]))]) / 3
    if dev[1] > 0:
        k = iso / (abs(iso) - dev[2]) if abs(iso) - dev[2] else 0.
        T = -2 * dev[1] / dev[2]
    else:
        k = iso / (abs(iso) + dev[0]) if abs(iso) + dev[0] else 0.
        T = 2 * dev[1] / dev[0] if dev[0] else 0.
    tau = T * (1 - abs(k))
    if tau > 0 and k > 0:
        q = 1 - tau / 2 if tau < 4 * k else 1 - 2 * k
    elif tau < 0 and k < 0:
        q = 1 + tau / 2 if tau > 4 * k else 1 + 2 * k
    else:
        q = 1.
    return tau / q, k / q


def flat(*a):
    return [np.asarray(x, float).flatten() for x in a]


def is_real(*a):
    return all(not np.iscomplexobj(np.asarray(x)) for x in a)


ORIENT_S = [0., 1e-9, 15., 30., 45., 90., 123.4, 135., 180., 200., 270., 300., 345., 359.99999]
ORIENT_D = [0., 1e-7, 0.5, 10., 30., 45., 60., 75., 89.99, 90.]
ORIENT_R = [-180., -179.999, -150., -135., -90., -60., -45., -30., -10., -1e-8, 0., 20., 45., 60., 90., 120., 135., 170., 180.]


def orientations(small=False):
    if small:
        return np.array(list(itertools.product([0., 30., 123.4, 200., 359.99999], [0., 10., 45., 60., 90.], [-180., -135., -90., -30., 0., 45., 90., 170.]))).T * PI / 180
    return np.array(list(itertools.product(ORIENT_S, ORIENT_D, ORIENT_R))).T * PI / 180


def integer_tensors(m):
    """All symmetric matrices with entries in -m..m, not zero, as unit six-vectors (duplicates by scaling removed)."""
    out = {}
    for c in itertools.product(range(-m, m + 1), repeat=6):
        if not any(c):
            continue
        g = 0
        for x in c:
            g = math.gcd(g, abs(x))
        c = tuple(x // g for x in c)
        out[c] = 1
    M = np.array(sorted(out), float).T
    M[3:] *= R2
    return M / np.sqrt((M * M).sum(0))


def same_plane(s1, d1, r1, s2, d2, r2):
    """Distance between two planes as (normal, slip) pairs up to a joint sign."""
    a, b = np.concatenate([normal(s1, d1), slip(s1, d1, r1)]), np.concatenate([normal(s2, d2), slip(s2, d2, r2)])
    return np.minimum(np.abs(a - b).max(0), np.abs(a + b).max(0))


def angdist(a, b):
    d = np.mod(np.asarray(a) - np.asarray(b), 2 * PI)
    return np.minimum(d, 2 * PI - d)
