"""Independent reference likelihoods (plain numpy/scipy, textbook formulas, log domain)."""
import math
import numpy as np
from scipy.special import erf, erfc, log_ndtr, ndtr

NINF = -np.inf


# ---- polarity -----------------------------------------------------------------------------------------------------
def pol_prob(yA, s, w):
    """P(observed sign | yA, s, w) with the s=0 hard limit."""
    yA = np.asarray(yA, float)
    s = np.asarray(s, float)
    w = np.asarray(w, float)
    yA, s, w = np.broadcast_arrays(yA, s, w)
    with np.errstate(all='ignore'):
        t = np.where(s > 0, yA / (np.sqrt(2) * np.where(s > 0, s, 1)), np.where(yA > 0, np.inf, np.where(yA < 0, -np.inf, 0)))
        return 0.5 * erfc(-t) * (1 - w) + 0.5 * erfc(t) * w


def pol_ln(yA, s, w):
    with np.errstate(all='ignore'):
        return np.log(pol_prob(yA, s, w))


def polprob_prob(A, p, n, w):
    A = np.asarray(A, float)
    h = np.where(A > 0, 1., np.where(A < 0, 0., 0.5))
    return (h * p + (1 - h) * n) * (1 - w) + (h * n + (1 - h) * p) * w


def polprob_ln(A, p, n, w):
    with np.errstate(all='ignore'):
        return np.log(polprob_prob(A, p, n, w))


# ---- |X/Y| --------------------------------------------------------------------------------------------------------
def _ln_ratio_side(r, mx, my, sx, sy):
    """ln of int |y| N(ry; mx, sx) N(y; my, sy) dy   (scalars/arrays, sx, sy > 0)."""
    D = sx * sx + r * r * sy * sy            # variance of X - rY
    # y | (X = rY) ~ N(m, v)
    m = (mx * r * sy * sy + my * sx * sx) / D
    v = sx * sx * sy * sy / D
    sd = np.sqrt(v)
    # int |y| N(y;m,v) dy = sd*sqrt(2/pi)*exp(-m^2/2v) + m*erf(m/sqrt(2v))
    t = np.abs(m) / (np.sqrt(2) * sd)
    fold = sd * np.sqrt(2 / np.pi) * np.exp(-t * t) + np.abs(m) * erf(t)
    q = -(mx - r * my) ** 2 / (2 * D)
    return q - 0.5 * np.log(2 * np.pi * D) + np.log(fold)


def ratio_ln(r, mu_x, mu_y, fx, fy):
    """ln density of |X/Y| at r>0;  X~N(mu_x, fx|mu_x|), Y~N(mu_y, fy|mu_y|).
    A vanishing modelled amplitude makes that variable identically zero: density 0 at every r>0."""
    r, mu_x, mu_y, fx, fy = np.broadcast_arrays(*[np.asarray(q, float) for q in (r, mu_x, mu_y, fx, fy)])
    mx, my = np.abs(mu_x), np.abs(mu_y)
    bad = (mx == 0) | (my == 0)
    mx = np.where(bad, 1., mx)
    my = np.where(bad, 1., my)
    sx, sy = fx * mx, fy * my
    with np.errstate(all='ignore'):
        out = np.logaddexp(_ln_ratio_side(r, mx, my, sx, sy), _ln_ratio_side(-r, mx, my, sx, sy))
    return np.where(bad, NINF, out)


def ratio_by_quadrature(r, mx, my, sx, sy):
    """The defining integral, by brute-force quadrature (for validating ratio_ln)."""
    from scipy.integrate import quad

    def g(x, m, s):
        return math.exp(-0.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))

    def one(rr):
        D = sx * sx + rr * rr * sy * sy
        m = (mx * rr * sy * sy + my * sx * sx) / D
        sd = math.sqrt(sx * sx * sy * sy / D)
        f = lambda y: abs(y) * g(rr * y, mx, sx) * g(y, my, sy)
        pts = sorted(set([m - 12 * sd, m - 3 * sd, m, m + 3 * sd, m + 12 * sd] + ([0.] if abs(m) < 12 * sd else [])))
        return sum(quad(f, a, b, epsabs=0, epsrel=1e-11, limit=200)[0] for a, b in zip(pts, pts[1:]))
    return one(r) + one(-r)


# ---- combination --------------------------------------------------------------------------------------------------
def lse(a, axis=0):
    a = np.asarray(a, float)
    m = np.max(a, axis=axis, keepdims=True)
    ms = np.where(np.isfinite(m), m, 0.)
    with np.errstate(all='ignore'):
        return np.squeeze(ms, axis) + np.log(np.sum(np.exp(a - ms), axis=axis))


def amplitudes(a, mt):
    """a (stations, loc, 6), mt (6, n) -> (stations, loc, n), accumulated in a fixed order."""
    a = np.asarray(a, float)
    mt = np.asarray(mt, float)
    out = np.zeros(a.shape[:2] + (mt.shape[1],))
    for k in range(a.shape[2]):
        out += a[:, :, k][:, :, None] * mt[k][None, None, :]
    return out


def b3(x):
    """per-station vector -> (stations,1,1); scalars untouched."""
    x = np.asarray(x, float)
    return x if x.ndim == 0 else x.reshape(-1, 1, 1)


def ln_forward(mt, pol=None, prob=None, ratio=None, w=0., loc_weights=None, marginalise=True):
    """Reference log-probability of every column of mt.
    pol = (a, sigma); prob = (a, p, n); ratio = (ax, ay, z, ex, ey); w scalar or dict(pol=, prob=).
    Returns (n,) when marginalised, (loc, n) otherwise."""
    mt = np.asarray(mt, float)
    wp = w['pol'] if isinstance(w, dict) else w
    wq = w['prob'] if isinstance(w, dict) else w
    nloc = 1
    for d in (pol, prob, ratio):
        if d is not None:
            nloc = max(nloc, np.asarray(d[0]).shape[1])
    tot = np.zeros((nloc, mt.shape[1]))
    if pol is not None:
        tot = tot + pol_ln(amplitudes(pol[0], mt), b3(pol[1]), b3(wp)).sum(0)
    if prob is not None:
        tot = tot + polprob_ln(amplitudes(prob[0], mt), b3(prob[1]), b3(prob[2]), b3(wq)).sum(0)
    if ratio is not None:
        tot = tot + ratio_ln(b3(ratio[2]), amplitudes(ratio[0], mt), amplitudes(ratio[1], mt), b3(ratio[3]), b3(ratio[4])).sum(0)
    if loc_weights is not None:
        with np.errstate(all='ignore'):
            tot = tot + np.log(np.asarray(loc_weights, float)).reshape(-1, 1)
    if marginalise:
        return lse(tot, 0)
    return tot


# ---- comparison ---------------------------------------------------------------------------------------------------
def ln_close(got, want, tol=1e-9, ptol=None, floor=-600., nterms=1):
    """Boolean array: log-probabilities agree.
    Below `floor` the code may underflow to -inf or report the value; `ptol` is an absolute tolerance on exp()
    (cancellation 1+erf(-t) of the documented formula)."""
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    with np.errstate(all='ignore'):
        ok = np.abs(got - want) <= tol * np.maximum(1., np.abs(want))
        ok |= (got == want)
        ok |= (want < floor) & (got < floor * 0.9)
        if ptol is not None:
            ok |= np.abs(np.exp(got) - np.exp(want)) <= ptol
    ok &= ~np.isnan(got)
    ok &= ~(got == np.inf)
    return ok


def ln_forward_bounds(mt, pol=None, prob=None, ratio=None, w=0., loc_weights=None, marginalise=True, ptol=4e-16, floor=-600.):
    """(low, high) log-probabilities for every column of mt: each station probability may carry an absolute rounding
    error ptol (cancellation in 1+erf), and single densities below exp(floor) may underflow to zero."""
    mt = np.asarray(mt, float)
    wp = w['pol'] if isinstance(w, dict) else w
    wq = w['prob'] if isinstance(w, dict) else w
    nloc = max(np.asarray(d[0]).shape[1] for d in (pol, prob, ratio) if d is not None)
    lo, hi = np.zeros((nloc, mt.shape[1])), np.zeros((nloc, mt.shape[1]))
    with np.errstate(all='ignore'):
        for p in ([pol_prob(amplitudes(pol[0], mt), b3(pol[1]), b3(wp))] if pol is not None else []) + \
                ([polprob_prob(amplitudes(prob[0], mt), b3(prob[1]), b3(prob[2]), b3(wq))] if prob is not None else []):
            # a probability that is exactly zero in the documented formula stays zero
            lo += np.log(np.clip(p - ptol, 0, None)).sum(0)
            hi += np.log(np.where(p > 0, p + ptol, 0)).sum(0)
        if ratio is not None:
            r = ratio_ln(b3(ratio[2]), amplitudes(ratio[0], mt), amplitudes(ratio[1], mt), b3(ratio[3]), b3(ratio[4]))
            lo += np.where(r < floor, NINF, r).sum(0)
            hi += np.where(r < floor, r + 1., r).sum(0)       # subnormal rounding
        if loc_weights is not None:
            lw = np.log(np.asarray(loc_weights, float)).reshape(-1, 1)
            lo, hi = lo + lw, hi + lw
    if marginalise:
        return lse(lo, 0), lse(hi, 0)
    return lo, hi


def within(got, lo, hi, tol=1e-9):
    got, lo, hi = np.asarray(got, float), np.asarray(lo, float), np.asarray(hi, float)
    with np.errstate(all='ignore'):
        t = tol * np.maximum(1., np.abs(np.where(np.isfinite(hi), hi, 1.)))
        ok = ((got >= lo - t) | (lo == NINF)) & ((got <= hi + t) | (got == NINF) & (lo == NINF))
    return ok & ~np.isnan(got) & (got != np.inf)
