"""X01, X02: guarantees across the whole library - purity, history independence, despiking pipelines."""
import contextlib
import copy
import decimal
import math
import os
import pickle
import random
import sys
import time
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import detection as dt
from checks import replacement as rp
from lib import gens as g
from lib import ref
from lib.harness import CaseTimeout, Facet, Property, Reject, Violation, call, require
from proadv.filtration.detection import acceleration, correlation, phasespace, poincare, pollution, spherical, trivariatekernel
from proadv.filtration.replacement import replacements as R
from proadv.kernel import bivariate as kbiv
from proadv.statistics import descriptive, moment, series, spread
from proadv.statistics.distributions import normal
from proadv.statistics.optimize import optimize
from proadv.statistics.signal import butter, fluid, spectrum, synthetic


# ------------------------------------------------------------------ catalogue of calls

def _rec(rng, n):
    fam = ["white", "ar", "sine", "heavy", "skewed"][int(rng.integers(5))]
    return np.around(g.signal({"k": fam, "seed": int(rng.integers(2 ** 31)), "n": n, "scale": 8.0, "offset": float(rng.integers(-3, 4)) * 5, "spikes": 3}), 6)


def _spk(rng, n, lo=1, hi=None):
    hi = n if hi is None else hi
    return np.unique(rng.integers(lo, hi, max(1, n // 15)))


def col(v):
    return np.array([[float(v)]])


def roots(rng, m, left=True):
    v = []
    for _ in range(m):
        c = complex(-rng.uniform(0.1, 0.9) if left else rng.uniform(-0.9, 0.9), rng.uniform(0.1, 0.9))
        v += [c, c.conjugate()]
    return np.array(v + [-0.4])


class LineRoot:
    """A picklable line with a root at r."""

    def __init__(self, r):
        self.r = r

    def __call__(self, t):
        return t - self.r


def par(p, lo, hi):
    return round(float(p.uniform(lo, hi)), 3)


def one(p, *of):
    return of[int(p.integers(len(of)))]


def kal(p):
    return [col(par(p, -3, 3)), col(par(p, 0.3, 3)), col(par(p, 0.01, 1)), col(par(p, 0.3, 4))]


def neg_cos(t):
    return -math.cos(t)


OPS = {
    "min": lambda r, n, p: (descriptive.min, [_rec(r, n)]),
    "max": lambda r, n, p: (descriptive.max, [_rec(r, n)]),
    "mean": lambda r, n, p: (descriptive.mean, [_rec(r, n)]),
    "median": lambda r, n, p: (descriptive.median, [_rec(r, n)]),
    "mode": lambda r, n, p: (descriptive.mode, [np.rint(_rec(r, n))]),
    "variance": lambda r, n, p: (spread.variance, [_rec(r, n)]),
    "std": lambda r, n, p: (spread.std, [_rec(r, n)]),
    "skewness": lambda r, n, p: (moment.skewness, [_rec(r, n)]),
    "kurtosis": lambda r, n, p: (moment.kurtosis, [_rec(r, n)]),
    "sma": lambda r, n, p: (series.moving_average, [_rec(r, n), int(p.integers(1, n))]),
    "ema": lambda r, n, p: (series.exponential_moving_average, [_rec(r, n), par(p, 0.05, 0.95)]),
    "wma": lambda r, n, p: (series.weighted_moving_average, [_rec(r, n), int(p.integers(1, n))]),
    "ssa": lambda r, n, p: (series.ssa, [_rec(r, n), 50.0, one(p, 5.0, 8.0, 10.0, 12.0)]),
    "kalman": lambda r, n, p: (series.kalman_filter, [_rec(r, n), *kal(p)]),
    "cdf": lambda r, n, p: (normal.cdf, [r.normal(size=n) * 3]),
    "pdf": lambda r, n, p: (normal.pdf, [r.normal(size=n) * 3, par(p, 0.5, 3), par(p, -2, 2)]),
    "sf": lambda r, n, p: (normal.sf, [r.normal(size=n)]),
    "log_pdf": lambda r, n, p: (normal.log_pdf, [r.normal(size=n), par(p, 0.5, 3), par(p, -2, 2)]),
    "log_cdf": lambda r, n, p: (normal.log_cdf, [r.normal(size=n)]),
    "log_sf": lambda r, n, p: (normal.log_sf, [r.normal(size=n)]),
    "skewtest": lambda r, n, p: (normal.skewtest, [_rec(r, n), one(p, "two-sided", "less", "greater")]),
    "kurtotest": lambda r, n, p: (normal.kurtotest, [_rec(r, n), one(p, "two-sided", "less", "greater")]),
    "brentq": lambda r, n, p: (optimize.brentq, [one(r, math.atan, math.sinh, math.asinh), -float(p.uniform(0.1, 5)), float(p.uniform(0.1, 5))]),
    "fminbound": lambda r, n, p: (optimize.fminbound, [one(r, math.cosh, abs, neg_cos), -float(p.uniform(0.1, 3)), float(p.uniform(0.1, 3))]),
    "tke": lambda r, n, p: (fluid.kinetic_turbulent_energy, [_rec(r, n), _rec(r, n), _rec(r, n)]),
    "reynolds": lambda r, n, p: (fluid.reynolds_stresses, [_rec(r, n), _rec(r, n), _rec(r, n)]),
    "spectra": lambda r, n, p: (spectrum.power_spectra, [_rec(r, n), one(p, 25.0, 50.0, 100.0), one(p, 0, 25, 50, 75), one(p, 8, 16, 32)]),
    "noise": lambda r, n, p: (synthetic.synthetic_noise, [_rec(r, n) + 60.0, one(p, 5, 10, 20)]),
    "butter": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 6)), np.sort(p.choice(np.arange(1, 10), 2, replace=False)) / 10.0, ["bp", "bs"][int(p.integers(2))], False, ["nd", "zps", "sop"][int(p.integers(3))]]),
    "lowpass": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 6)), float(p.uniform(0.1, 0.9)), ["lp", "hp"][int(p.integers(2))], bool(p.integers(2)), ["nd", "zps", "sop"][int(p.integers(3))]]),
    "min_l": lambda r, n, p: (descriptive.min, [_rec(r, n).tolist()]),
    "max_l": lambda r, n, p: (descriptive.max, [_rec(r, n).tolist()]),
    "mean_l": lambda r, n, p: (descriptive.mean, [_rec(r, n).tolist()]),
    "mean_s": lambda r, n, p: (descriptive.mean, [[one(r, "%.2f" % q, q, "gap", int(q)) for q in _rec(r, 12).tolist()]]),
    "mode_l": lambda r, n, p: (descriptive.mode, [np.rint(_rec(r, n)).tolist()]),
    "cdf_l": lambda r, n, p: (normal.cdf, [r.normal(size=n).tolist()]),
    "edges_l": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 5)), [par(p, 1, 9), par(p, 10, 20)], one(p, "bp", "bs"), False, one(p, "nd", "zps", "sop"), one(p, 50.0, 100.0)]),
    "r_hold_l": lambda r, n, p: (R.last_valid_data, [_rec(r, n).tolist(), _spk(r, n).tolist()]),
    "r_linear_l": lambda r, n, p: (R.linear_interpolation, [_rec(r, n).tolist(), _spk(r, n, 0).tolist()]),
    "r_cubic_l": lambda r, n, p: (R.cubic_12points_polynomial, [_rec(r, n + 30).tolist(), _spk(r, n + 30, 0).tolist()]),
    "r_poly_l": lambda r, n, p: (R.polynomial_replacement, [_rec(r, n).tolist(), _spk(r, n, 0).tolist()]),
    "edges": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 5)), np.array([par(p, 1, 9), par(p, 10, 20)]), one(p, "bp", "bs"), False, one(p, "nd", "zps", "sop"), one(p, 50.0, 100.0)]),
    "edge": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 5)), np.array(par(p, 1, 9)), one(p, "lp", "hp"), False, one(p, "nd", "zps", "sop"), one(p, 50.0, 100.0)]),
    "lp2lp": lambda r, n, p: (butter.low_to_low, [roots(r, 1), roots(r, 2), par(p, 0.5, 3), par(p, 0.5, 3)]),
    "lp2hp": lambda r, n, p: (butter.low_to_high, [roots(r, 1), roots(r, 2), par(p, 0.5, 3), par(p, 0.5, 3)]),
    "lp2bp": lambda r, n, p: (butter.low_to_band, [roots(r, 1), roots(r, 2), par(p, 0.5, 3), par(p, 0.5, 3), par(p, 0.2, 2)]),
    "lp2bs": lambda r, n, p: (butter.low_to_stop, [roots(r, 1), roots(r, 2), par(p, 0.5, 3), par(p, 0.5, 3), par(p, 0.2, 2)]),
    "bilinear": lambda r, n, p: (butter.bilinear, [roots(r, 1), roots(r, 2), par(p, 0.5, 3), par(p, 1, 9)]),
    "buttap": lambda r, n, p: (butter.buttap, [int(r.integers(1, 9))]),
    "ptf": lambda r, n, p: (butter.xyz_to_ptf, [roots(r, 1), roots(r, 2), par(p, 0.5, 3)]),
    "sop": lambda r, n, p: (butter.xyz_to_sop, [roots(r, 1, False), roots(r, 2, False), par(p, 0.5, 3)]),
    "accel": lambda r, n, p: (acceleration.acceleration_thresholding, [_rec(r, n), one(p, 10.0, 25.0, 50.0), int(p.integers(1, 3)), par(p, 20, 120), par(p, 0.5, 2), par(p, 0.2, 1.5)]),
    "pst": lambda r, n, p: (phasespace.phasespace_thresholding, [_rec(r, n)]),
    "ellipses": lambda r, n, p: (phasespace.calculate_parameters, [_rec(r, n), _rec(r, n), _rec(r, n)]),
    "vc_params": lambda r, n, p: (correlation.calculate_parameters, [_rec(r, n), _rec(r, n), _rec(r, n)]),
    "kde2": lambda r, n, p: (trivariatekernel.kernel, [_rec(r, min(n, 60)), _rec(r, min(n, 60)), one(p, 8, 12, 16)]),
    "tanroot": lambda r, n, p: (kbiv.root, [LineRoot(float(p.uniform(0, 0.1))), n]),
    "derivs": lambda r, n, p: (phasespace.calculate_derivatives, [_rec(r, n)]),
    "premod": lambda r, n, p: (phasespace.phasespace_thresholding_premodification, [np.append([0.0], _rec(r, n) - 2.0)]),
    "vc": lambda r, n, p: (correlation.velocity_correlation, [_rec(r, n), _rec(r, n), _rec(r, n)]),
    "ab": lambda r, n, p: (poincare.calculate_ab, [par(p, 1, 4), par(p, 1, 4), float(p.uniform(-0.3, 0.3)), par(p, 2, 3)]),
    "rho": lambda r, n, p: (poincare.calculate_rho, [_rec(r, n), _rec(r, n), par(p, -1, 1), par(p, 1, 3), par(p, 1, 3)]),
    "sph": lambda r, n, p: (spherical.spherical_phasespace_thresholding, [_rec(r, n), 1, par(p, 0.2, 2)]),
    "kde3": lambda r, n, p: (trivariatekernel.three_dimensional_kernel, [_rec(r, min(n, 60)), one(p, 8, 12, 16)]),
    "poll": lambda r, n, p: (pollution.pollution_rate, [_rec(r, n), _rec(r, n), par(p, 0.2, 2)]),
    "biv": lambda r, n, p: (kbiv.bivariate_kernel, [np.vstack([_rec(r, n), _rec(r, n)]), par(p, 0.1, 0.4), par(p, 0.1, 0.4), one(p, 16, 32)]),
    "r_hold": lambda r, n, p: (R.last_valid_data, [_rec(r, n), _spk(r, n)]),
    "r_mean": lambda r, n, p: (R.mean_value, [_rec(r, n), _spk(r, n, 0)]),
    "r_median": lambda r, n, p: (R.median_value, [_rec(r, n), _spk(r, n, 0)]),
    "r_linear": lambda r, n, p: (R.linear_interpolation, [_rec(r, n), _spk(r, n, 0)]),
    "r_cubic": lambda r, n, p: (R.cubic_12points_polynomial, [_rec(r, n + 30), _spk(r, n + 30, 0)]),
    "r_sma": lambda r, n, p: (R.simple_moving_average, [_rec(r, n), _spk(r, n, 0), int(p.integers(1, 20))]),
    "r_ema": lambda r, n, p: (R.exponential_moving_average, [_rec(r, n), _spk(r, n, 0), par(p, 0.05, 0.95)]),
    "r_wma": lambda r, n, p: (R.weighted_moving_average, [_rec(r, n), _spk(r, n, 0, n - 20), int(p.integers(1, 20))]),
    "r_ssa": lambda r, n, p: (R.ssa, [_rec(r, n), _spk(r, n, 0), 50.0, one(p, 5.0, 8.0, 10.0, 12.0)]),
    "r_kalman": lambda r, n, p: (R.kalman_filter, [_rec(r, n), _spk(r, n, 0), *kal(p)]),
    "ema_d": lambda r, n, p: (series.exponential_moving_average, [_rec(r, n)]),
    "sma_d": lambda r, n, p: (series.moving_average, [_rec(r, n)]),
    "accel_d": lambda r, n, p: (acceleration.acceleration_thresholding, [_rec(r, n) * 9, one(p, 50.0, 100.0, 200.0), int(p.integers(1, 3))]),
    "pdf_d": lambda r, n, p: (normal.pdf, [r.normal(size=n)]),
    "skewtest_d": lambda r, n, p: (normal.skewtest, [_rec(r, n)]),
    "kurtotest_d": lambda r, n, p: (normal.kurtotest, [_rec(r, n)]),
    "spectra_d": lambda r, n, p: (spectrum.power_spectra, [np.tile(_rec(r, n), 3000 // n), 25.0]),
    "two_sided": lambda r, n, p: (spectrum.power_spectra, [_rec(r, n), 25.0, one(p, 0, 50), one(p, 8, 16, 32), False]),
    "butter_d": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 6)), [par(p, 0.1, 0.4), par(p, 0.5, 0.9)]]),
    "r_sma_d": lambda r, n, p: (R.simple_moving_average, [_rec(r, n), _spk(r, n, 0)]),
    "r_ema_d": lambda r, n, p: (R.exponential_moving_average, [_rec(r, n), _spk(r, n, 0)]),
    "r_poly_d": lambda r, n, p: (R.polynomial_replacement, [_rec(r, n), _spk(r, n, 0)]),
    "r_poly": lambda r, n, p: (R.polynomial_replacement, [_rec(r, n), _spk(r, n, 0), one(p, 10, 12, 20, 100), one(p, 1, 2, 3), one(p, 3, 4, 6)]),
}
NAMES = sorted(OPS)


def blow_up(t):
    raise ArithmeticError("the target has no value at %r" % t)


def fails_late(t):
    if abs(t) < 1e-3:
        raise ArithmeticError("the target has no value at %r" % t)
    return t


def broken(r, n):
    v = _rec(r, n).tolist()
    v[int(r.integers(n // 2, n))] = one(r, "gap", None)
    return v


# calls the library refuses or that a caller's function ends: they are part of a history too
BAD = {
    "x_min": lambda r, n, p: (descriptive.min, [np.array([])]),
    "x_max_s": lambda r, n, p: (descriptive.max, [broken(r, n)]),
    "x_variance": lambda r, n, p: (spread.variance, [[]]),
    "x_skew_s": lambda r, n, p: (moment.skewness, [broken(r, n)]),
    "x_sma": lambda r, n, p: (series.moving_average, [_rec(r, n), 0]),
    "x_ema": lambda r, n, p: (series.exponential_moving_average, [_rec(r, n), 1.5 + par(p, 0, 3)]),
    "x_wma": lambda r, n, p: (series.weighted_moving_average, [_rec(r, n), -1]),
    "x_pdf": lambda r, n, p: (normal.pdf, [r.normal(size=n), -par(p, 0.5, 3)]),
    "x_cdf_s": lambda r, n, p: (normal.cdf, [broken(r, n)]),
    "x_skewtest": lambda r, n, p: (normal.skewtest, [_rec(r, 5)]),
    "x_kurtotest": lambda r, n, p: (normal.kurtotest, [_rec(r, n), "both"]),
    "x_brentq": lambda r, n, p: (optimize.brentq, [math.cosh, -par(p, 0.1, 5), par(p, 0.1, 5)]),
    "x_brentq_f": lambda r, n, p: (optimize.brentq, [one(p, blow_up, fails_late), -par(p, 0.1, 5), par(p, 0.1, 5)]),
    "x_brentq_few": lambda r, n, p: (optimize.brentq, [math.sinh, -par(p, 0.1, 5), par(p, 0.1, 5), 2e-12, 8.9e-16, 2]),
    "x_fminbound": lambda r, n, p: (optimize.fminbound, [math.cosh, par(p, 0.1, 5), -par(p, 0.1, 5)]),
    "x_fminbound_f": lambda r, n, p: (optimize.fminbound, [one(p, blow_up, fails_late), -par(p, 0.1, 5), par(p, 0.1, 5)]),
    "x_butter": lambda r, n, p: (butter.butterworth, [int(p.integers(1, 6)), [0.4, 0.2], one(p, "bp", "bs")]),
    "x_butter_q": lambda r, n, p: (butter.butterworth, [-int(p.integers(1, 6)), 0.2, one(p, "lp", "hp"), bool(p.integers(2))]),
    "x_lp2bp": lambda r, n, p: (butter.low_to_band, [roots(r, 2), roots(r, 1), 1.0]),
    "x_sop": lambda r, n, p: (butter.xyz_to_sop, [roots(r, 1), np.append(roots(r, 2), 0.25 + 0.5j), 1.0]),
    "x_derivs": lambda r, n, p: (phasespace.calculate_derivatives, [broken(r, n)]),
    "x_pst": lambda r, n, p: (phasespace.phasespace_thresholding, [broken(r, n)]),
    "x_vc": lambda r, n, p: (correlation.velocity_correlation, [_rec(r, n), _rec(r, n), _rec(r, n + 1)]),
    "x_hold": lambda r, n, p: (R.last_valid_data, [_rec(r, n), np.array([n + 3])]),
    "x_cubic": lambda r, n, p: (R.cubic_12points_polynomial, [_rec(r, 8), _spk(r, 8)]),
    "x_poly": lambda r, n, p: (R.polynomial_replacement, [_rec(r, n), np.array([n + 3])]),
    "x_sma_r": lambda r, n, p: (R.simple_moving_average, [_rec(r, n), _spk(r, n), 0]),
    "x_ssa": lambda r, n, p: (series.ssa, [_rec(r, n), 50.0, 0.0]),
    "x_spectra": lambda r, n, p: (spectrum.power_spectra, [_rec(r, n), 25.0, 50, 4 * n]),
}
VALID = list(NAMES)
OPS.update(BAD)
NAMES = sorted(OPS)


def tweak(args, tw):
    """Nearly the same call: one interior sample of one record changed, or two swapped (same sum, ends, length)."""
    recs = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.ndim == 1 and a.dtype.kind == "f" and a.size >= 8]
    if not recs:
        return args
    rng = np.random.default_rng(tw)
    i = recs[int(rng.integers(len(recs)))]
    a = args[i].copy()
    j, k = (int(q) for q in rng.choice(np.arange(2, a.size - 2), 2, replace=False))
    if rng.random() < 0.5:
        a[j], a[k] = a[k], a[j]
    else:
        a[j] += 3.0
    return [a if q == i else b for q, b in enumerate(args)]


def make(op):
    f, args = OPS[op["op"]](np.random.default_rng(op["seed"]), op["n"], np.random.default_rng([op["seed"], 1] if "ps" not in op else op["ps"]))
    if op.get("tw"):
        args = tweak(args, op["tw"])
    if op["lay"] != "plain":
        args = [relayout(a, op["lay"]) for a in args]
    return f, args


def relayout(a, lay):
    if not (isinstance(a, np.ndarray) and a.size):
        return a
    if a.ndim == 1 and a.dtype.kind == "f":
        return g.as_kind(a, lay)
    if a.ndim == 2 and a.shape[0] > 1:
        return np.asfortranarray(a) if lay != "readonly" else frozen(a)
    if lay == "readonly":
        return frozen(a)
    return a


def frozen(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def flat(out):
    """Result as a nested tuple of plain arrays; exceptions are results too."""
    if isinstance(out, (tuple, list)):
        return tuple(flat(q) for q in out)
    if isinstance(out, dict):
        return tuple((k, flat(out[k])) for k in sorted(out))
    if isinstance(out, str) or out is None:
        return out
    return np.array(np.ma.filled(np.ma.asarray(out), np.nan), copy=True)


def owned(out):
    if isinstance(out, (tuple, list)):
        for q in out:
            yield from owned(q)
    elif isinstance(out, np.ndarray) and out.size:
        yield out


def same(a, b, path=""):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return "structure differs%s" % path
        for i, (p, q) in enumerate(zip(a, b)):
            r = same(p, q, path + "[%d]" % i)
            if r:
                return r
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if isinstance(a, type(b)) and a == b else "%.80r versus %.80r%s" % (a, b, path)
    if a.shape != b.shape:
        return "shape %s versus %s%s" % (a.shape, b.shape, path)
    if a.dtype.kind in "iub" and b.dtype.kind in "iub":
        return None if np.array_equal(a, b) else "%s versus %s%s" % (a.ravel()[:6].tolist(), b.ravel()[:6].tolist(), path)
    x, y = a.astype(complex), b.astype(complex)
    fin = np.isfinite(x) & np.isfinite(y)
    m = float(np.max(np.abs(x[fin]))) if fin.any() else 0.0
    bad = np.where(fin, ~(np.abs(np.where(fin, x - y, 0)) <= 1e-8 * (m + 1e-12)), ~((x == y) | (np.isnan(x) & np.isnan(y))))
    if np.any(bad):
        i = int(np.nonzero(np.ravel(bad))[0][0])
        return "%r versus %r at %d%s" % (np.ravel(a)[i].item(), np.ravel(b)[i].item(), i, path)
    return None


def env_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], hash(random.getstate())), tuple(sorted(os.environ.items())), tuple(sorted(np.geterr().items())), os.getcwd(), tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())), \
        tuple(map(repr, warnings.filters)), sys.getrecursionlimit(), str(decimal.getcontext())


class Unusual(UserWarning):
    pass


@contextlib.contextmanager
def settings(on):
    """Settings of the calling program that differ from every default, so that any change made by the library shows."""
    if not on:
        yield
        return
    with warnings.catch_warnings(), np.errstate(all="call", call=lambda kind, flag: None):
        warnings.simplefilter("ignore")
        warnings.simplefilter("error", Unusual)
        yield


class Store:
    """What a caller keeps between calls: input buffers that are refilled in place, and results."""

    def __init__(self, mode):
        self.mode, self.bufs, self.kept = mode, {}, []

    def inputs(self, op, args):
        if self.mode != "reuse":
            return args
        out = []
        for i, a in enumerate(args):
            if isinstance(a, np.ndarray) and a.size:
                b = self.bufs.setdefault((i, a.shape, a.dtype.str), np.empty_like(a))
                b[...] = a
                a = b
            out.append(a)
        return out

    def result(self, op, out, seen):
        if self.mode == "poison":
            for q in owned(out):
                if q.flags.writeable:
                    q[...] = 77
        else:
            self.kept.append((op["op"], out, seen))

    def close(self):
        for name, out, seen in self.kept:
            d = same(seen, flat(out))
            require(d is None, "an earlier result of %s was changed by later calls: %s", name, d)


def perform(op, audit, store=None, seeded=True):
    """Run one call; returns its outcome. With audit, also check arguments, aliasing and global state."""
    f, args = make(op)
    if store is not None and op["lay"] == "plain":
        args = store.inputs(op, args)
    before = [np.array(a, copy=True) if isinstance(a, np.ndarray) else copy.deepcopy(a) if isinstance(a, list) else a for a in args]
    if seeded:
        np.random.seed(op["seed"] & 0xFFFFFF)
    with settings(audit):
        st0 = env_state() if audit else None
        try:
            out = f(*args)
        except CaseTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            out = "raised " + type(e).__name__
        st1 = env_state() if audit else None
    if audit:
        for i, (a, b) in enumerate(zip(args, before)):
            if isinstance(b, np.ndarray):
                require(np.array_equal(a, b), "%s changed its argument %d", op["op"], i)
            elif isinstance(b, list):
                require(repr(a) == repr(b), "%s changed its argument %d: %.120r, was %.120r", op["op"], i, a, b)
            if isinstance(b, np.ndarray):
                for q in owned(out):
                    require(not np.shares_memory(q, a), "%s returns a view of its argument %d", op["op"], i)
        if op["op"] != "noise":
            require(st1[0] == st0[0], "%s consumed or reset numpy's global random state", op["op"])
        require(st1[1:] == st0[1:], "%s changed global settings (numpy, warnings, environment or working directory)", op["op"])
    seen = flat(out)
    if store is not None and not isinstance(out, str):
        store.result(op, out, seen)
    return seen


def in_child(fn):
    """Run fn in a forked child (a fresh library state: this process never calls the library)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = ("ok", fn())
            except Violation as v:
                data = ("violation", str(v))
            except BaseException as e:  # noqa: BLE001
                data = ("error", repr(e))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(data, fh)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    finally:
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child died")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise RuntimeError(val)
    return val


@st.composite
def one_call(draw, names=NAMES, lays=("plain", "plain", "strided", "readonly", "column", "int", "float32"), long=True):
    n = draw(st.integers(40, 120)) if not long or draw(st.integers(0, 3)) else draw(st.sampled_from([128, 150, 200, 256, 257, 300, 400, 600, 1100]))
    return {"op": draw(st.sampled_from(names)), "seed": draw(g.SEEDS), "n": n, "lay": draw(st.sampled_from(lays))}


@st.composite
def history_case(draw):
    few = draw(st.sampled_from([None, None, None, 2, 1, 1]))
    names = NAMES if few is None else draw(st.lists(st.sampled_from(NAMES), min_size=few, max_size=few))
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        if ops and draw(st.integers(0, 2)) == 0:
            # a relative of an earlier call: same records but one sample, other records of the same length, other length, other function, other parameters
            base, how = draw(st.sampled_from(ops)), draw(st.integers(0, 4))
            ops.append(dict(base, **([{"tw": draw(st.integers(1, 10 ** 6))}, {"seed": draw(g.SEEDS)}, {"n": base["n"] + draw(st.integers(1, 9))}, {"op": draw(st.sampled_from(names))}, {"ps": draw(g.SEEDS)}][how])))
        else:
            ops.append(draw(one_call(names)))
    return {"ops": ops, "shuffle": draw(g.SEEDS), "repeat": draw(st.booleans()), "mode": draw(st.sampled_from(["reuse", "poison", "keep"]))}


def check_history(case):
    ops = case["ops"]
    order = np.random.default_rng(case["shuffle"]).permutation(len(ops)).tolist()

    def first():
        keep = Store("keep")
        res = [perform(o, False, keep) for o in ops]
        keep.close()
        return res
    a = in_child(first)

    def second():
        store = Store(case["mode"])
        res = [None] * len(ops)
        for i in order:
            res[i] = perform(ops[i], False, store)
        if case["repeat"]:
            for i in order:
                d = same(res[i], perform(ops[i], False, store))
                require(d is None, "%s repeated later in the same history gives another answer: %s", ops[i]["op"], d)
        store.close()
        return res
    b = in_child(second)
    for i, (p, q) in enumerate(zip(a, b)):
        d = same(p, q)
        require(d is None, "%s (call %d of %s, mode %s) depends on the calls made before it: %s", ops[i]["op"], i, [o["op"] for o in ops], case["mode"], d)
    for i in sorted(set(order[-2:]) | {len(ops) - 1}):
        d = same(a[i], in_child(lambda: perform(ops[i], False)))       # noqa: B023 - called at once
        require(d is None, "%s (call %d of %s) differs from the same call made alone in a fresh process: %s", ops[i]["op"], i, [o["op"] for o in ops], d)
    return ["mixed" if len({o["op"] for o in ops}) > 2 else "few"] + (["raised"] if any(isinstance(q, str) and q.startswith("raised") for q in a) else [])


@st.composite
def thread_case(draw):
    names = [q for q in NAMES if q != "noise"]
    few = draw(st.sampled_from([None, 1, 1, 2]))
    if few:
        names = draw(st.lists(st.sampled_from(names), min_size=few, max_size=few))
    return {"ops": [draw(one_call(names, lays=("plain",), long=False)) for _ in range(draw(st.integers(2, 6)))], "rounds": draw(st.integers(1, 3))}


def check_threads(case):
    """The same calls, from several threads at once, give what they give one after another."""
    ops = case["ops"]
    a = in_child(lambda: [perform(o, False, seeded=False) for o in ops])

    def parallel():
        import sys
        import threading
        sys.setswitchinterval(2e-6)
        res, gate = [[] for _ in ops], threading.Barrier(len(ops))

        def work(i):
            gate.wait(30)
            for _ in range(case["rounds"]):
                try:
                    res[i].append(perform(ops[i], False, seeded=False))
                except Exception as e:  # noqa: BLE001
                    res[i].append("raised " + type(e).__name__)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(ops))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res
    b = in_child(parallel)
    for i, rounds in enumerate(b):
        require(len(rounds) == case["rounds"], "a thread died in %s", ops[i]["op"])
        for q in rounds:
            d = same(a[i], q)
            require(d is None, "%s gives another answer while %s run in other threads: %s", ops[i]["op"], [o["op"] for o in ops], d)
    return ["threads"]


@st.composite
def nested_case(draw):
    return {"outer": draw(st.sampled_from(["brentq", "fminbound", "tanroot"])), "a": draw(st.integers(1, 60)) / 16, "b": draw(st.integers(1, 60)) / 16, "f": draw(st.sampled_from(["atan", "sinh", "cubic"])),
            "ops": [draw(one_call(draw(st.sampled_from([NAMES, ["brentq", "fminbound", "tanroot", "x_brentq_f", "x_fminbound"]])), lays=("plain",), long=False)) for _ in range(draw(st.integers(1, 3)))]}


def check_nested(case):
    """A target function that itself uses the library changes nothing: neither the search around it nor the calls inside it."""
    ops, base = case["ops"], {"atan": math.atan, "sinh": math.sinh, "cubic": lambda t: t ** 3 + 0.5 * t}[case["f"]]

    def search(inside):
        seen = []

        def value(t):
            v = base(t) if case["outer"] == "brentq" else base(abs(t)) + 0.1 * t if case["outer"] == "fminbound" else t - 0.01 * case["a"]
            if inside and len(seen) < 40:
                seen.append(perform(ops[len(seen) % len(ops)], False, seeded=False))
            return v
        if case["outer"] == "brentq":
            res = optimize.brentq(value, -case["a"], case["b"], full_output=True)
        elif case["outer"] == "fminbound":
            res = optimize.fminbound(value, -case["a"], case["b"], detailed_output=True)
        else:
            res = kbiv.root(value, 60)
        return flat(res), seen
    plain, _ = in_child(lambda: search(False))
    alone = [in_child(lambda: perform(o, False, seeded=False)) for o in ops]       # noqa: B023 - called at once
    got, seen = in_child(lambda: search(True))
    names = [o["op"] for o in ops]
    d = same(plain, got)
    require(d is None, "%s gives another answer when its target uses %s: %s", case["outer"], names, d)
    for i, q in enumerate(seen):
        if ops[i % len(ops)]["op"] == "noise":
            continue
        d = same(alone[i % len(ops)], q)
        require(d is None, "%s called inside a target of %s gives another answer: %s", names[i % len(ops)], case["outer"], d)
    return ["nested"]


@st.composite
def long_case(draw):
    ops = draw(st.lists(one_call(lays=("plain",)), min_size=3, max_size=6, unique_by=lambda o: o["op"]))
    return {"ops": ops, "count": draw(st.sampled_from([40, 150, 300, 300])), "seed": draw(g.SEEDS), "n": draw(st.sampled_from(["same", "any", "few"])),
            "fixed": draw(st.sampled_from([None, None, "records"]))}


def check_long(case):
    """A call answers the same after hundreds of other calls of the same function as it does first thing."""
    ops, count = case["ops"], case["count"]
    rng = np.random.default_rng(case["seed"])
    late = [dict(o, seed=o["seed"] ^ 0x5A5A5A, n=o["n"] + 3) for o in ops]

    def lived():
        keep, made = Store("keep"), 0
        first = [perform(o, False, keep) for o in ops]
        for o in ops:
            t = time.time()
            for k in range(count):
                n = {"same": o["n"], "any": 40 + int(rng.integers(80)), "few": 40 + 7 * int(rng.integers(4))}[case["n"]]
                new = int(rng.integers(2 ** 31 - 1))
                perform(dict(o, n=n, ps=new) if case["fixed"] == "records" else dict(o, n=n, seed=new), False, keep if k < 20 else None)
                made = max(made, k + 1)
                if time.time() - t > 0.4:
                    break
        last = [perform(o, False, keep) for o in ops + late]
        keep.close()
        return first, last, made
    first, last, made = in_child(lived)
    alone = [in_child(lambda: perform(o, False)) for o in ops + late]       # noqa: B023 - called at once
    for o, a, q in zip(ops, alone, first):
        d = same(a, q)
        require(d is None, "%s: an early call of a process differs from the call made alone: %s", o["op"], d)
    for o, a, q in zip(ops + late, alone, last):
        d = same(a, q)
        require(d is None, "%s: a call after %d others of the same function differs from the call made alone: %s", o["op"], made, d)
    return ["long" if made >= 100 else "short"]


def check_pure(case):
    """Arguments untouched, results own their memory, no global side effects, layout does not matter."""
    op = case["op"]
    out = perform(op, True)
    base = perform(dict(op, lay="plain"), True)
    require(op["op"] in BAD or not (isinstance(base, str) and base.startswith("raised")), "%s %s on a valid input", op["op"], base)
    if op["lay"] not in ("int", "float32"):                   # those are other values, not another layout
        d = same(out, base)
        require(d is None, "%s depends on the memory layout (%s) of its arguments: %s", op["op"], op["lay"], d)
    again = perform(op, False)
    d = same(out, again)
    require(d is None, "%s gives different answers to the same call: %s", op["op"], d)
    return [op["op"]]


# ------------------------------------------------------------------ X02 pipelines

DETECT = ["accel1", "accel2", "pst", "vc", "sph"]
REPLACE = ["hold", "mean", "median", "linear", "sma", "ema", "kalman", "cubic", "wma", "ssa", "poly"]


@st.composite
def pipeline_case(draw):
    n = draw(st.one_of(st.integers(40, 160), st.integers(160, 700)))
    comps = [draw(g.generated(n, n, families=["white", "ar", "sine", "heavy", "skewed"], scales=[5.0, 20.0], offsets=[0.0, 10.0, -30.0], max_spikes=8, dec=False)) for _ in range(3)]
    steps = [{"d": draw(st.sampled_from(DETECT)), "r": draw(st.sampled_from(REPLACE)), "c": draw(st.integers(0, 2)), "smooth": draw(st.integers(0, 20)), "q": draw(st.sampled_from([0.7, 0.9, 0.97]))}
             for _ in range(draw(st.integers(1, 6)))]
    return {"x": comps, "steps": steps}


def pipe_detect(step, comps):
    """(observed, must, must_not or None)"""
    c = comps[step["c"]]
    n = c.size
    d = step["d"]
    if d in ("accel1", "accel2"):
        tag = int(d[-1])
        gr = 25.0 * float(np.quantile(np.abs(np.diff(c)), step["q"])) + 1e-6
        out = call(acceleration.acceleration_thresholding, c, 25.0, tag, gravity=gr, k_gravity=1.0, k_sigma=0.5)
        m = ref.ref_accel(c, 25.0, tag, gr, 1.0, 0.5)
    elif d == "pst":
        z = c - np.mean(c)
        out = call(phasespace.phasespace_thresholding, z)
        m = ref.ref_pst(z)
    elif d == "sph":
        out = call(spherical.spherical_phasespace_thresholding, c, 1, 0.0)
        m = ref.ref_spherical(c)
    else:
        out = call(correlation.velocity_correlation, *comps)
        v = ref.ref_vc(*comps)
        m = None if v is None else v[:2]
    return ref.index_set(out, n), m


def pipe_model(r, x, s):
    """(expected, tolerance) of one replacement."""
    n = x.size
    want, tol = x.copy(), np.zeros(n)
    if r == "hold":
        for i in s:
            want[i] = want[i - 1]
        return want, tol
    e = 1e-9 * max(1.0, ref.mag(x))
    if r == "ssa":
        series, amb, _, _ = ref.ref_ssa(x, 25.0, 2.5)
        want[s] = series[s]
        tol[s] = np.inf if amb else 5.1e-5 + 1e-7 * ref.mag(x)
        return want, tol
    if r in ("mean", "median"):
        want[s] = ref.fmean(x) if r == "mean" else ref.fmedian(x)
        tol[s] = e
    elif r == "linear":
        want = ref.ref_linear(x, s)
        tol[:] = 0.5e-4 * (1 + 1e-6) + e
    elif r == "cubic":
        want, t, _ = rp.ref_cubic(x, s, 4)
        tol = t + 0.5e-4 * (1 + 1e-6) + e
    else:
        m = {"sma": lambda: ref.ref_sma(x, 7), "ema": lambda: ref.ref_ema(x, 0.2), "kalman": lambda: ref.ref_kalman(x, x[0], 1.0, 0.1, 1.0), "wma": lambda: np.append(ref.ref_wma(x, 5), np.zeros(5))}[r]()
        want[s] = np.asarray(m)[s]
        tol[s] = e
    return want, tol


def pipe_replace(r, x, s):
    if r == "kalman":
        return call(R.kalman_filter, x, s, col(x[0]), col(1.0), col(0.1), col(1.0))
    if r == "wma":
        return call(R.weighted_moving_average, x, s, 5)
    if r == "ssa":
        return call(R.ssa, x, s, 25.0, 2.5)
    if r == "poly":
        return call(R.polynomial_replacement, x, s, 40, 2)
    if r == "sma":
        return call(R.simple_moving_average, x, s, 7)
    return call({"hold": R.last_valid_data, "mean": R.mean_value, "median": R.median_value, "linear": R.linear_interpolation, "ema": R.exponential_moving_average,
                 "cubic": R.cubic_12points_polynomial}[r], x, s)


def check_pipeline(case):
    comps = [g.signal(q) for q in case["x"]]
    n = comps[0].size
    originals = [q.copy() for q in comps]
    total = 0
    clean = [np.ones(n, bool) for _ in range(3)]
    for k, step in enumerate(case["steps"]):
        if min(ref.fstd(q) for q in comps) < 1e-3:
            break
        before = [q.copy() for q in comps]
        s, m = pipe_detect(step, comps)
        require(all(np.array_equal(p, q) for p, q in zip(before, comps)), "step %d: detection %s changed the record", k, step["d"])
        if m is not None:
            ref.verdict(s, n, m[0], m[1], "step %d of the pipeline: %s" % (k, step["d"]))
        c, r = step["c"], step["r"]
        if s.size == 0:
            continue
        if r == "hold" and s[0] == 0:
            s = s[1:]
            if s.size == 0:
                continue
        if r == "wma":
            s = s[s < n - 5]          # the weighted average has no value for the last samples
            if s.size == 0:
                continue
        if s.size >= n - 26 or ref.mag(comps[c]) > 1e6:
            break
        total += s.size
        # the detector's output is passed to the replacement as it is
        x = comps[c]
        y = ref.arr(pipe_replace(r, x, s), n, "step %d: %s replacement" % (k, r))
        if r == "poly":
            rp.judge_poly(y, x.copy(), s.tolist(), 40, 2, 4)
            clean[c][s] = False
            comps[c] = np.array(y)
            continue
        want, tol = pipe_model(r, x, s.tolist())
        ref.close(y, want, tol, "step %d: %s replacement after %s" % (k, r, step["d"]))
        clean[c][s] = False
        comps[c] = np.array(y)
        require(all(np.array_equal(p, q) for i, (p, q) in enumerate(zip(before, comps)) if i != c), "step %d changed another component", k)
    for c in range(3):
        d = np.abs(comps[c] - originals[c])[clean[c]]
        require(d.size == 0 or float(np.max(d)) <= 0.5e-4 * (1 + 1e-6) + 1e-9 * ref.mag(originals[c]), "samples never flagged drifted by %r over the pipeline", float(np.max(d)) if d.size else 0.0)
    return ["despiked" if total else "clean", "steps%d" % len(case["steps"])]


@st.composite
def loop_case(draw):
    n = draw(st.integers(60, 500))
    return {"x": draw(g.generated(n, n, families=["white", "ar", "sine", "heavy"], scales=[5.0, 20.0], offsets=[0.0, 20.0], max_spikes=8, dec=False)), "d": draw(st.sampled_from(["accel", "pst", "sph", "kde"])),
            "r": draw(st.sampled_from(["linear", "cubic", "mean"]))}


def check_loop(case):
    """The documented despiking loop: detect on fluctuations, replace, repeat; judged step by step."""
    x = g.signal(case["x"])
    if case["d"] == "kde":
        x = x[:90]
    n = x.size
    total = 0
    for it in range(4 if case["d"] != "kde" else 2):
        m = float(np.mean(x))
        f = x - m
        if ref.fstd(f) < 0.1:
            break
        if case["d"] == "accel":
            gr = 25.0 * 1.5 * ref.fstd(np.diff(x)) + 1e-9
            a = ref.index_set(call(acceleration.acceleration_thresholding, f, 25.0, 1, gravity=gr), n)
            b = ref.index_set(call(acceleration.acceleration_thresholding, f, 25.0, 2, gravity=gr), n)
            require(np.intersect1d(a, b).size == 0, "a sample is flagged both as rising and as falling")
            s = np.union1d(a, b)
            w = [ref.ref_accel(f, 25.0, t, gr, 1.5, 1) for t in (1, 2)]
            ref.verdict(s, n, w[0][0] | w[1][0], w[0][1] & w[1][1], "iteration %d: acceleration" % it)
        else:
            fn = {"pst": lambda: call(phasespace.phasespace_thresholding, f), "sph": lambda: call(spherical.spherical_phasespace_thresholding, f, it + 1, m),
                  "kde": lambda: call(trivariatekernel.three_dimensional_kernel, f, 12)}[case["d"]]
            s = ref.index_set(fn(), n)
            w = {"pst": lambda: ref.ref_pst(f), "sph": lambda: ref.ref_spherical(f), "kde": lambda: ref.ref_kde3d(f, 12)}[case["d"]]()
            if w is not None:
                ref.verdict(s, n, w[0], w[1], "iteration %d: %s" % (it, case["d"]))
        if s.size == 0 or s.size >= n - 26:
            break
        total += s.size
        y = ref.arr(pipe_replace(case["r"], f, s), n, "replacement")
        want, tol = pipe_model(case["r"], f, s.tolist())
        ref.close(y, want, tol, "iteration %d: %s replacement" % (it, case["r"]))
        x = y + m
    if not total:
        raise Reject()
    return [case["d"], case["r"]]


PROPERTIES = [
    Property("X01", [
        Facet("pure", st.builds(lambda o: {"op": o}, one_call()), check_pure, "every case", quick=2400),
        Facet("histories", history_case(), check_history, "every case: three or more calls", quick=700),
        Facet("endurance", long_case(), check_long, "at least 100 calls made in between", quick=60, nontrivial=lambda c, l: "long" in l),
        Facet("nested", nested_case(), check_nested, "every case: library calls inside a running search", quick=250),
        Facet("threads", thread_case(), check_threads, "every case: two or more threads", quick=150),
    ], ["results compared to 1e-8 relative; every history runs twice in freshly forked processes, in two orders, and its last calls alone; thread interleavings are sampled by the interpreter's switching, not enumerated"]),
    Property("X02", [
        Facet("pipelines", pipeline_case(), check_pipeline, "at least one sample replaced", quick=700, nontrivial=lambda c, l: "despiked" in l),
        Facet("loops", loop_case(), check_loop, "at least one sample replaced", quick=500),
    ], ["the reference detectors leave samples within rounding of a threshold unjudged; the observed flags are then used as they are"]),
]
