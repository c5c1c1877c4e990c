"""Reference models, written from the documentation and the cited papers, independent of the code under test."""
import math

import numpy as np

from .harness import Violation


# ------------------------------------------------------------------ coercion of observed results

def arr(out, n=None, what="result", finite=True, ndim=1):
    """The observed result as a float array of the required length; anything else is a violation."""
    try:
        a = np.asarray(out, dtype=float)
    except (TypeError, ValueError):
        raise Violation("%s is not a numeric array: %.120r" % (what, out)) from None
    if ndim is not None and a.ndim != ndim:
        raise Violation("%s has %d dimensions instead of %d" % (what, a.ndim, ndim))
    if n is not None and a.size != n:
        raise Violation("%s has %d samples instead of %d" % (what, a.size, n))
    if finite and not np.all(np.isfinite(a)):
        raise Violation("%s holds non-finite values at %s" % (what, np.nonzero(~np.isfinite(a))[0][:5].tolist()))
    return a


def scalar(out, what="result", finite=True):
    try:
        a = np.asarray(out, dtype=float)
        if a.size != 1:
            raise ValueError
        v = float(a.reshape(-1)[0])
    except (TypeError, ValueError):
        raise Violation("%s is not a number: %.120r" % (what, out)) from None
    if finite and not math.isfinite(v):
        raise Violation("%s is %r" % (what, v))
    return v


def index_set(out, n, what="detected indices"):
    """Observed detector output: strictly increasing valid integer indices."""
    try:
        a = np.asarray(out)
    except Exception:  # noqa: BLE001
        raise Violation("%s is not an array: %.100r" % (what, out)) from None
    if a.ndim != 1:
        raise Violation("%s has %d dimensions" % (what, a.ndim))
    if a.size == 0:
        return a.astype(int)
    if a.dtype.kind not in "iu":
        raise Violation("%s is not an integer array (%s)" % (what, a.dtype))
    if a.min() < 0 or a.max() >= n:
        raise Violation("%s outside the record: %s (n=%d)" % (what, a[(a < 0) | (a >= n)][:3].tolist(), n))
    if np.any(np.diff(a) <= 0):
        raise Violation("%s not strictly increasing: %s" % (what, a[:12].tolist()))
    return a.astype(int)


def close(got, want, tol, what, show=4):
    """|got - want| <= tol elementwise (tol scalar or array)."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= tol)
    bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
    if np.any(bad):
        i = np.nonzero(np.ravel(bad))[0]
        j = i[:show]
        raise Violation("%s: %d of %d values wrong, at %s got %s want %s"
                        % (what, i.size, got.size, j.tolist(), np.ravel(got)[j].tolist(), np.ravel(want)[j].tolist()))


def mag(x):
    x = np.asarray(x, float)
    x = x[np.isfinite(x)]
    return float(np.max(np.abs(x))) if x.size else 0.0


def fmean(x):
    x = np.asarray(x, float).ravel()
    return math.fsum(x.tolist()) / x.size


def fstd(x):
    m = fmean(x)
    d = np.asarray(x, float) - m
    d = d - fmean(d)
    return math.sqrt(math.fsum((d * d).tolist()) / d.size)


def fmedian(x):
    s = sorted(float(v) for v in x)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def runs(spikes):
    """Maximal runs of consecutive flagged indices."""
    out = []
    for i in spikes:
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


def check_rounded(got, want, decimals, what, extra=0.0, idxs=None):
    """`got` is `want` rounded to `decimals` (either neighbour accepted at a tie, plus `extra` slack)."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    step = 10.0 ** (-decimals)
    sc = 1e-12 * max(1.0, mag(want))
    close(got, want, 0.5 * step * (1 + 1e-9) + sc + extra, what)
    off = np.abs(got - np.around(got, decimals))
    if np.any(off > sc + 1e-15):
        i = int(np.argmax(off))
        raise Violation("%s: value %r at %d is not rounded to %d decimals" % (what, float(got[i]), i, decimals))


# ------------------------------------------------------------------ replacement models

def ref_hold(x, spikes):
    y = np.array(x, copy=True)
    for i in spikes:
        y[i] = y[i - 1]
    return y


def ref_linear(x, spikes):
    """Unrounded model of linear interpolation over flagged runs."""
    y = np.array(x, float)
    n = y.size
    ok = ~np.isnan(y)
    for a, b in runs(spikes):
        if b == n - 1:
            y[a:b + 1] = fmean(np.asarray(x, float)[ok])
        elif a == 0:
            y[a:b + 1] = x[b + 1]
        else:
            left, right = float(x[a - 1]), float(x[b + 1])
            m = b - a + 2
            for k in range(1, m):
                y[a + k - 1] = left + (right - left) * k / m
    return y


def ref_sma(x, w):
    x = np.asarray(x, float)
    out = np.empty(x.size)
    for i in range(x.size):
        lo = max(0, i + 1 - w)
        out[i] = math.fsum(x[lo:i + 1].tolist()) / (i + 1 - lo) if w <= 64 or i < 3 else np.mean(x[lo:i + 1])
    return out


def ref_ema(x, alpha):
    x = np.asarray(x, float)
    out = np.empty(x.size)
    out[0] = x[0]
    for i in range(1, x.size):
        out[i] = out[i - 1] + alpha * (x[i] - out[i - 1])
    return out


def ref_wma(x, p):
    """Element j: linearly weighted mean (1..p, newest heaviest) of samples j .. j+p-1; length n - p."""
    x = np.asarray(x, float)
    wts = np.arange(1, p + 1, dtype=float)
    tot = p * (p + 1) / 2.0
    return np.array([float(np.dot(wts, x[j:j + p])) / tot for j in range(x.size - p)])


def ref_kalman(x, s0, p0, q, r):
    out = np.empty(len(x))
    s, p = float(s0), float(p0)
    for i, z in enumerate(np.asarray(x, float)):
        pp = p + q
        k = pp / (pp + r)
        s = s + k * (z - s)
        p = (1 - k) * pp
        out[i] = s
    return out


def ref_ssa(x, fs, f):
    """Singular-spectrum low-pass. Returns (series, ambiguous)."""
    x = np.asarray(x, float)
    n = x.size
    L = int(math.ceil(fs / f))
    K = n - L + 1
    X = np.lib.stride_tricks.sliding_window_view(x, K)[:L]
    C = X @ X.T
    ev, V = np.linalg.eigh(C)
    amb = False
    top = max(abs(ev[-1]), 1e-300)
    # a window longer than half the record leaves a null space, whose basis is arbitrary but contributes nothing
    null = np.arange(L) < L - K
    if np.any(np.diff(ev)[~null[:-1]] < 1e-6 * top) or np.any(ev[~null] < 1e-6 * top) and null.any():
        amb = True
    def mobility(v):
        return np.linalg.norm(np.diff(v)) / (len(v) - 1) / np.around(np.linalg.norm(v) / len(v), 4)
    thr = mobility(np.sin(2 * np.pi * np.arange(L) * f / fs))
    mob = np.array([mobility(V[:, i]) for i in range(L)])
    if not np.isfinite(thr) or np.any(np.abs(mob - thr)[~null] <= 1e-5 * abs(thr)):
        amb = True
    # the 4-decimal normalisation of a unit eigenvector must not sit on a rounding tie
    u = 1e4 / L
    if abs(u - math.floor(u) - 0.5) < 1e-6:
        amb = True
    keep = (mob <= thr) & ~null
    Y = V[:, keep] @ (V[:, keep].T @ X)
    s, c = np.zeros(n), np.zeros(n)
    for i in range(L):
        s[i:i + K] += Y[i]
        c[i:i + K] += 1
    return s / c, amb, int(keep.sum()), L


def ref_poly_step(hist, upto, window, degree):
    """Prediction at index `upto` and the weight of every sample in its window."""
    lo = 0 if upto <= window - 1 else upto - window
    t = np.arange(lo, upto, dtype=float)
    c, h = (lo + upto) / 2.0, max((upto - lo) / 2.0, 1.0)
    u = (t - c) / h
    A = np.vander(u, degree + 1)
    b = np.vander(np.array([(upto - c) / h]), degree + 1)[0]
    w = np.linalg.lstsq(A.T, b, rcond=None)[0]      # min-norm weights reproduce the LS prediction
    return float(np.dot(w, hist[lo:upto])), w, lo


# ------------------------------------------------------------------ detection models

def ellipse_axes(r1, r2, theta):
    """Semi-axes of the rotated ellipse with given projections; None when it does not exist."""
    c2, s2 = math.cos(theta) ** 2, math.sin(theta) ** 2
    d = c2 * c2 - s2 * s2
    if d == 0:
        return None, 0.0
    fa = (r1 * r1 * c2 - r2 * r2 * s2) / d
    fb = (r2 * r2 * c2 - r1 * r1 * s2) / d
    sc = max(r1, r2) ** 2
    marginal = min(abs(fa), abs(fb)) / sc if sc else 0.0
    marginal = min(marginal, abs(d))
    if fa > 0 and fb > 0:
        return (math.sqrt(fa), math.sqrt(fb)), marginal
    return None, marginal


def rho2(x, y, theta, a, b):
    c, s = math.cos(theta), math.sin(theta)
    return ((x * c + y * s) / a) ** 2 + ((y * c - x * s) / b) ** 2


def verdict(got, n, must, must_not, what):
    """Compare a flagged set with indices that must / must not be flagged (others are borderline)."""
    g = np.zeros(n, bool)
    g[got] = True
    miss = np.nonzero(must & ~g)[0]
    extra = np.nonzero(must_not & g)[0]
    if miss.size or extra.size:
        raise Violation("%s: missed %s, wrongly flagged %s" % (what, miss[:6].tolist(), extra[:6].tolist()))


def central(c, rounded):
    d = np.zeros_like(c)
    d[1:-1] = (c[2:] - c[:-2]) / 2
    return np.around(d, 4) if rounded else d


def ties(v):
    """Does rounding v to 4 decimals depend on the last bits?"""
    u = np.abs(v) * 1e4
    return bool(np.any(np.abs(u - np.floor(u) - 0.5) <= 1e-9 * (1 + u)))


def ref_pst(c):
    """Phase-space thresholding: (must, must_not) masks, or None when degenerate."""
    n = c.size
    lam = math.sqrt(2 * math.log(n))
    must, must_not = np.ones(n, bool), np.ones(n, bool)
    # where half differences sit on a rounding tie, only what holds with and without rounding is judged
    exact = not (ties(central(c, False)) or ties(central(central(c, True), False)))
    for rounded in ((True,) if exact else (True, False)):
        dc = central(c, rounded)
        dc2 = central(dc, rounded)
        s0, s1, s2 = fstd(c), fstd(dc), fstd(dc2)
        if min(s0, s1, s2) < (1e-4 if exact else 2e-2):
            return None
        th = math.atan(float(np.sum(c * dc2)) / float(np.sum(c * c)))
        r = [rho2(c, dc, 0.0, lam * s0, lam * s1), rho2(dc, dc2, 0.0, lam * s1, lam * s2)]
        ax, marginal = ellipse_axes(lam * s0, lam * s2, th)
        if marginal < (1e-6 if exact else 1e-3):
            return None
        if ax:
            r.append(rho2(c, dc2, th, *ax))
        r = np.array(r)
        eps = 1e-9 + 1e-13 / marginal
        must &= np.any(r > 1 + eps, axis=0)
        must_not &= np.all(r < 1 - eps, axis=0)
    return must, must_not


def ref_vc(u, v, w):
    n = u.size
    lam = math.sqrt(2 * math.log(n))
    u, v, w = u - fmean(u), v - fmean(v), w - fmean(w)
    su, sv, sw = fstd(u), fstd(v), fstd(w)
    sc = max(su, sv, sw)
    if min(su, sv, sw) < 1e-6 * sc or sc == 0:
        return None
    must, must_not, fallback = np.zeros(n, bool), np.ones(n, bool), 0
    for (x, sx), (y, sy) in (((u, su), (v, sv)), ((u, su), (w, sw)), ((v, sv), (w, sw))):
        th = math.atan(float(np.sum(x * y)) / float(np.sum(x * x)))
        ax, marginal = ellipse_axes(lam * sx, lam * sy, th)
        if marginal < 1e-7:
            return None
        if ax is None:
            if max(mag(x), mag(y)) > 1e9:
                return None           # "no ellipse" is coded as semi-axes of 1e10
            fallback += 1
            continue
        r = rho2(x, y, th, *ax)
        eps = 1e-9 + 1e-13 / marginal
        must |= r > 1 + eps
        must_not &= r < 1 - eps
    return must, must_not, fallback


def ref_spherical(c):
    """Three-dimensional phase-space thresholding; samples within the method's 4-decimal roundings of the
    ellipsoid are left unjudged. None when the record is too small for those roundings."""
    x0 = c - np.mean(c)
    dc = np.gradient(x0)
    dc2 = np.gradient(dc)
    th = math.atan2(float(np.sum(x0 * dc)), float(np.sum(dc2 * dc2)))
    x = x0 * math.cos(th) + dc2 * math.sin(th)
    z = -x0 * math.sin(th) + dc2 * math.cos(th)
    lam = math.sqrt(2 * math.log(c.size))
    ax = [lam * fstd(q) for q in (x, dc, z)]
    if min(ax) < 0.02 or max(ax) > 3e4:
        return None
    pts = (x, dc, z)
    r = sum((q / a) ** 2 for q, a in zip(pts, ax))
    size2 = sum(q * q for q in pts)
    # rounding of the angle, the matrix, the rotated coordinates and the semi-axes
    h = 5e-5
    move = 3 * h * (np.abs(x0) + np.abs(dc2)) + h
    d = (move, np.full(c.size, h), move)
    slack = sum(2 * np.abs(q) * e / a ** 2 + (e / a) ** 2 for q, e, a in zip(pts, d, ax))
    for q, e, a in zip(pts, d, ax):
        slack = slack + 2 * (q / a) ** 2 * (h / lam + h / a + lam * math.sqrt(float(np.mean(e * e))) / a)
    # rounding of the projected point
    with np.errstate(all="ignore"):
        k = 1 / np.sqrt(np.maximum(r, 1e-300))
        x2, y2, z2 = (np.abs(q) * k for q in pts)
        e2 = 2 * h * (x2 + y2 + z2) + h + 3 * h * h + ax[2] ** 2 * (2 * h * (x2 / ax[0] ** 2 + y2 / ax[1] ** 2) + h * h / ax[0] ** 2 + h * h / ax[1] ** 2)
        slack = 1.5 * (slack + np.where(size2 > 0, e2 / size2 * np.maximum(r, 0), 0)) + 1e-9
    if float(np.median(slack / np.maximum(r, 1e-3))) > 0.5:
        return None
    return r - slack > 1, r + slack < 1


def gauss_kde(values, pts):
    """Gaussian KDE with Scott bandwidth (d=2), evaluated from first principles."""
    d, n = values.shape
    cov = np.cov(values, bias=False)
    h2 = (n ** (-1.0 / (d + 4))) ** 2
    S = cov * h2
    P = np.linalg.inv(S)
    norm = 1.0 / (2 * math.pi * math.sqrt(np.linalg.det(S)) * n)
    out = np.zeros(pts.shape[1])
    for k in range(n):
        e = pts - values[:, k:k + 1]
        out += np.exp(-0.5 * (P[0, 0] * e[0] ** 2 + 2 * P[0, 1] * e[0] * e[1] + P[1, 1] * e[1] ** 2))
    return out * norm


def ref_cutoff(peak_density, vel, c1, c2, f, p, grid):
    """(lower, upper, ambiguous): first sample from the peak outwards that is low and flat enough."""
    n = f.size
    df = np.zeros(n)
    df[1:] = (f[1:] - f[:-1]) * grid / peak_density
    amb = False

    def near(a, b):
        return abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-12)

    def ok(i):
        nonlocal amb
        amb = amb or near(f[i] / f[p], c1) or near(abs(df[i]), c2)
        return f[i] / f[p] <= c1 and abs(df[i]) <= c2
    lo = 1
    for i in range(p - 1, 0, -1):
        if ok(i):
            lo = i
            break
    up = n - 1
    for i in range(p + 1, n - 1):
        if ok(i):
            up = i
            break
    return float(vel[lo]), float(vel[up]), amb


def ref_kde_pair(u, w, grid):
    """One projection of the kernel method: (must, must_not) or None when ambiguous/degenerate."""
    n = u.size
    um, wm = u - u.mean(), w - w.mean()
    if fstd(u) < 1e-9 or fstd(w) < 1e-9:
        return None
    th = math.atan2(float(np.sum(um * wm)), float(np.sum(um * um)))
    ut = u * math.cos(th) + w * math.sin(th)
    wt = -u * math.sin(th) + w * math.cos(th)
    if np.ptp(ut) <= 1e-9 or np.ptp(wt) <= 1e-9:
        return None
    cov = np.cov(np.vstack([ut, wt]))
    if np.linalg.cond(cov) > 1e8:
        return None
    uf, wf = np.linspace(ut.min(), ut.max(), grid), np.linspace(wt.min(), wt.max(), grid)
    U, W = np.meshgrid(uf, wf, indexing="ij")
    dens = gauss_kde(np.vstack([ut, wt]), np.vstack([U.ravel(), W.ravel()])).reshape(grid, grid)
    flat = np.sort(dens.ravel())
    if flat[-1] - flat[-2] <= 1e-8 * flat[-1]:
        return None
    iu, iw = np.unravel_index(int(np.argmax(dens)), dens.shape)
    lam = math.sqrt(2 * math.log(n))
    cu, cw = lam * fstd(u) / math.sqrt(n), lam * fstd(w) / math.sqrt(n)
    pk = dens[iu, iw]
    ul, uu, a1 = ref_cutoff(pk, uf, cu, cu, dens[:, iw], iu, grid)
    wl, wu, a2 = ref_cutoff(pk, wf, cw, cw, dens[iu, :], iw, grid)
    if a1 or a2 or uu - ul == 0 or wu - wl == 0:
        return None
    r = ((ut - (uu + ul) / 2) / ((uu - ul) / 2)) ** 2 + ((wt - (wu + wl) / 2) / ((wu - wl) / 2)) ** 2
    return r > 1 + 1e-7, r < 1 - 1e-7, dens, np.linalg.cond(cov)


def ref_kde3d(c, grid):
    d1 = central(c, False)
    d2 = central(d1, False)
    must, must_not = np.zeros(c.size, bool), np.ones(c.size, bool)
    for a, b in ((c, d1), (c, d2), (d1, d2)):
        r = ref_kde_pair(a, b, grid)
        if r is None:
            return None
        must |= r[0]
        must_not &= r[1]
    return must, must_not


def ref_accel(x, fs, tag, g, kg, ks):
    """(must, must_not) for acceleration thresholding."""
    x = np.asarray(x, float)
    acc = np.zeros(x.size)
    acc[1:] = (x[1:] - x[:-1]) * fs
    sgn = 1.0 if tag == 1 else -1.0
    a = sgn * acc - kg * g
    d = sgn * (x - fmean(x)) - ks * fstd(x)
    ea = 1e-12 * (mag(acc) + abs(kg * g) + fs * mag(x)) + 1e-300
    ed = 1e-11 * (mag(x) + abs(ks) * mag(x)) + 1e-300
    return (a > ea) & (d > ed), (a < -ea) | (d < -ed)


# ------------------------------------------------------------------ filters

def hz(z, p, k, s):
    """Transfer function k*prod(s-z)/prod(s-p) at complex points s."""
    s = np.asarray(s, complex)
    num = np.ones_like(s) * k
    m = max(len(z), len(p))
    for i in range(m):
        if i < len(z):
            num = num * (s - z[i])
        if i < len(p):
            num = num / (s - p[i])
    return num
