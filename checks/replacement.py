"""R01..R07: replacement of flagged samples."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gens as g
from lib import ref
from lib.harness import Facet, Property, Reject, call, expect_raises, require
from proadv.filtration.replacement import replacements as R

METHODS = ["hold", "mean", "median", "linear", "cubic", "sma", "ema", "wma", "ssa", "kalman", "poly"]
INDEX = ["int64", "int64", "int32", "list", "tuple"]
DECIMALS = [None, None, None, 4, 3, 2, 1, 0, 5, 6, 7, 8, 10, -1]


def col(v):
    return np.array([[float(v)]])


@st.composite
def params(draw, method, n):
    p = {}
    if method in ("linear", "cubic"):
        p["decimals"] = draw(st.sampled_from(DECIMALS))
    elif method == "sma":
        p["window"] = draw(st.one_of(st.sampled_from([1, min(2, n)] + ([n, max(1, n - 1)] if n <= 2000 else [257]) + ([None] * 2 if n >= 20 else [])),
                                     st.integers(1, min(n, 60)), st.integers(1, min(n, 2000))))
    elif method == "ema":
        p["alpha"] = draw(st.one_of(st.sampled_from([None, 1.0, 0.5, 0.2, 0.01]), st.integers(1, 999).map(lambda k: k / 1000), st.floats(1e-6, 1.0)))
    elif method == "wma":
        p["period"] = draw(st.one_of(st.sampled_from([1, max(1, min(2, n - 1))] + ([None] * 2 if n >= 21 else [])),
                                     st.integers(1, max(1, min(n - 1, 40))), st.integers(1, max(1, min(n - 1, 600)))))
    elif method == "ssa":
        L = draw(st.integers(3, max(3, min(n, 24))))
        f = draw(st.sampled_from([1.0, 2.5, 10.0, 0.5, 0.1, 60.0]))
        p["fs"], p["f"] = draw(st.sampled_from([L * f, (L - 0.4) * f])), f
        if math.ceil(p["fs"] / f) > n:
            p["fs"] = (L - 0.4) * f
    elif method == "kalman":
        p.update(draw(g.kalman_params()))
    elif method == "poly":
        p["window"] = draw(st.one_of(st.sampled_from([None, None, 100, 12]), st.integers(12, 150), st.integers(100, 500), st.integers(6, 12) if n <= 400 else st.just(100)))
        p["degree"] = draw(st.sampled_from([None, None, 2, 1, 3]))
        if (p["window"] or 100) < 12 and p["degree"] == 3:
            p["degree"] = 1
        p["decimals"] = draw(st.sampled_from([None, None, None, 4, 3, 6, 2, 1, 0, 8, 5, 7, -1]))
    return p


def apply(method, x, spikes, p):
    """Call the library's replacement function; None means 'leave the default'."""
    def kw(**m):
        return {a: p[b] for a, b in m.items() if p.get(b) is not None}
    if method == "hold":
        return call(R.last_valid_data, x, spikes)
    if method == "mean":
        return call(R.mean_value, x, spikes)
    if method == "median":
        return call(R.median_value, x, spikes)
    if method == "linear":
        return call(R.linear_interpolation, x, spikes, **kw(decimals="decimals"))
    if method == "cubic":
        return call(R.cubic_12points_polynomial, x, spikes, **kw(decimals="decimals"))
    if method == "sma":
        return call(R.simple_moving_average, x, spikes, **kw(window_size="window"))
    if method == "ema":
        return call(R.exponential_moving_average, x, spikes, **kw(alpha="alpha"))
    if method == "wma":
        return call(R.weighted_moving_average, x, spikes, **kw(period="period"))
    if method == "ssa":
        return call(R.ssa, x, spikes, p["fs"], p["f"])
    if method == "kalman":
        return call(R.kalman_filter, x, spikes, col(p["s0"]), col(p["p0"]), col(p["q"]), col(p["r"]))
    return call(R.polynomial_replacement, x, spikes, **kw(window="window", degree="degree", decimals="decimals"))


def limits(method, n, p):
    """Flaggable index range of a method: [lo, hi)."""
    if method == "hold":
        return 1, n
    if method == "wma":
        return 0, max(0, n - (p.get("period") or 20))
    return 0, n


MIN_N = {"hold": 2, "cubic": 2, "poly": 2, "wma": 2, "ssa": 6}


@st.composite
def replacement_case(draw, methods=METHODS, small=60, mid=260, big=1500, **rk):
    m = draw(st.sampled_from(methods))
    lo = MIN_N.get(m, 1)
    if m in ("cubic", "poly"):
        sig = draw(st.one_of(g.values(lo, 130), g.generated(lo, mid, scales=[1.0, 0.1, 5.0, 30.0])))
    else:
        sig = draw(g.record(lo=lo, small=small, mid=mid, big=big, **rk))
    n = g.size_of(sig)
    p = draw(params(m, n))
    a, b = limits(m, n, p)
    allow_all = m not in ("cubic", "poly")
    s = draw(g.spike_set(n, a, b, allow_all=allow_all))
    return {"m": m, "x": sig, "s": s, "p": p, "lay": draw(g.anykind), "it": draw(st.sampled_from(INDEX))}


def given_record(case):
    """The record as the caller holds it, and its values."""
    x = g.as_kind(g.signal(case["x"]), case["lay"])
    return x, np.array(x, dtype=float)


def rounding(method, p):
    if method in ("linear", "cubic", "poly"):
        return 4 if p.get("decimals") is None else p["decimals"]
    return None


def check_locality(case):
    x, x0 = given_record(case)
    n = x0.size
    s = g.idx(case["s"], case["it"])
    s_before = s.copy() if isinstance(s, np.ndarray) else type(s)(s)
    out = apply(case["m"], x, s, case["p"])
    require(np.array_equal(np.asarray(x), x0), "%s changed the caller's record", case["m"])
    require(np.array_equal(s, s_before), "%s changed the caller's spike indices", case["m"])
    require(not (isinstance(out, np.ndarray) and isinstance(x, np.ndarray) and np.shares_memory(out, x)), "%s returned the caller's own array", case["m"])
    y = ref.arr(out, n, case["m"] + " replacement")
    keep = np.ones(n, bool)
    keep[case["s"]] = False
    d = rounding(case["m"], case["p"])
    if d is None:
        require(np.array_equal(y[keep], x0[keep]), "%s altered unflagged samples at %s", case["m"],
                np.nonzero(keep & (y != x0))[0][:5].tolist())
    else:
        if keep.any():
            ref.check_rounded(y[keep], x0[keep], d, "%s: unflagged samples" % case["m"])
    # a second, identical call sees the same record and gives the same answer
    again = ref.arr(apply(case["m"], given_record(case)[0], s, case["p"]), n)
    require(np.array_equal(again, y), "%s is not repeatable", case["m"])
    return [case["m"], "empty" if not case["s"] else "flagged"]


def nontrivial(case, labels):
    return 0 < len(case["s"]) < g.size_of(case["x"])


# ------------------------------------------------------------------ R02 hold

@st.composite
def hold_case(draw):
    sig = draw(g.record(lo=1, small=50, mid=300, big=3000))
    return {"x": sig, "s": draw(g.spike_set(g.size_of(sig), 1)), "kind": draw(st.sampled_from(["plain", "list", "int", "int16", "uint8", "float32", "strided", "tuple", "readonly", "reversed", "column"])),
            "sk": draw(st.sampled_from(INDEX))}


def check_hold(case):
    x = g.as_kind(g.signal(case["x"]), case["kind"])
    base = np.asarray(x)
    s = case["s"]
    out = call(R.last_valid_data, x, g.idx(s, case["sk"]))
    y = ref.arr(out, base.size, "last-valid replacement")
    want = base.astype(float)
    flagged = set(s)
    last = None
    for i in range(base.size):
        if i in flagged:
            want[i] = last
        else:
            last = float(base[i])
    require(np.array_equal(y, want), "flagged samples do not hold the last unflagged value: at %s",
            np.nonzero(y != want)[0][:5].tolist())
    return [case["kind"], "run" if any(i + 1 in flagged for i in s) else "single"]


# ------------------------------------------------------------------ R03 mean / median

@st.composite
def fill_case(draw):
    sig = draw(g.record(lo=1, small=50, mid=300, big=3000))
    return {"x": sig, "s": draw(g.spike_set(g.size_of(sig), allow_all=True)), "m": draw(st.sampled_from(["mean", "median"])),
            "lay": draw(g.anykind), "it": draw(st.sampled_from(INDEX))}


def check_fill(case):
    x, x0 = given_record(case)
    y = ref.arr(apply(case["m"], x, g.idx(case["s"], case["it"]), {}), x0.size, case["m"] + " fill")
    v = ref.fmean(x0) if case["m"] == "mean" else ref.fmedian(x0)
    want = x0.copy()
    want[case["s"]] = v
    tol = np.zeros(x0.size)
    tol[case["s"]] = 1e-12 * max(ref.mag(x0), 1e-9) * 4
    ref.close(y, want, tol, "%s fill" % case["m"])
    return [case["m"], "even" if x0.size % 2 == 0 else "odd"]


# ------------------------------------------------------------------ R04 smoothers

def model_smooth(m, x, p):
    if m == "sma":
        return ref.ref_sma(x, p.get("window") or 20)
    if m == "ema":
        return ref.ref_ema(x, 0.2 if p.get("alpha") is None else p["alpha"])
    if m == "wma":
        return ref.ref_wma(x, p.get("period") or 20)
    return ref.ref_kalman(x, p["s0"], p["p0"], p["q"], p["r"])


def check_smooth(case):
    x, x0 = given_record(case)
    m, p = case["m"], case["p"]
    y = ref.arr(apply(m, x, g.idx(case["s"], case["it"]), p), x0.size, m + " substitution")
    want = x0.copy()
    tol = np.zeros(x0.size)
    if m == "ssa":
        if int(np.ceil(p["fs"] / p["f"])) > x0.size:
            raise Reject()
        series, amb, _, _ = ref.ref_ssa(x0, p["fs"], p["f"])
        if amb:
            raise Reject()
        t = 5.1e-5 + 1e-7 * ref.mag(x0)
    else:
        series = model_smooth(m, x0, p)
        t = 1e-9 * max(ref.mag(x0), abs(p.get("s0", 0)), 1e-6)
    for i in case["s"]:
        want[i] = series[i]
        tol[i] = t
    ref.close(y, want, tol, "%s substitution" % m)
    return [m]


# ------------------------------------------------------------------ R05 linear interpolation

@st.composite
def linear_case(draw):
    sig = draw(g.record(lo=1, small=40, mid=300, big=3000))
    n = g.size_of(sig)
    return {"x": sig, "s": draw(g.spike_set(n, allow_all=True)), "d": draw(st.sampled_from(DECIMALS)),
            "nan": draw(st.sampled_from(["no", "no", "some"])), "lay": draw(g.anykind), "it": draw(st.sampled_from(INDEX))}


def check_linear(case):
    lay = "plain" if case["nan"] == "some" and "int" in case["lay"] else case["lay"]
    x0 = given_record(dict(case, lay=lay))[1]
    s = case["s"]
    if case["nan"] == "some":
        # dropouts stored as NaN in flagged samples; at least one number stays in the record
        k = s[::2] if len(s[::2]) < x0.size else s[1::2]
        x0[k] = np.nan
    d = 4 if case["d"] is None else case["d"]
    y = ref.arr(apply("linear", g.as_kind(x0, lay), g.idx(s, case["it"]), {"decimals": case["d"]}), x0.size, "linear interpolation")
    want = ref.ref_linear(x0, s)
    ref.check_rounded(y, want, d, "linear interpolation", extra=1e-11 * max(1.0, ref.mag(x0)))
    # values stored in flagged samples must not leak into interior or leading replacements
    rr = [r for r in ref.runs(s) if r[1] != x0.size - 1]
    if rr:
        alt = x0.copy()
        alt[s] = np.linspace(-9999, 9999, len(s))
        z = ref.arr(apply("linear", alt, g.idx(s), {"decimals": case["d"]}), x0.size, "linear interpolation")
        for a, b in rr:
            require(np.allclose(z[a:b + 1], y[a:b + 1], rtol=0, atol=2 * 10.0 ** -d * 1e-6 + 1e-9 * max(1, ref.mag(want))
                                + (10.0 ** -d if d < 12 else 0)),
                    "values of flagged samples leak into the interpolation of %d..%d", a, b)
    lab = []
    for a, b in ref.runs(s):
        lab.append("whole" if a == 0 and b == x0.size - 1 else "tail" if b == x0.size - 1 else "head" if a == 0 else
                   "single" if a == b else "run")
    return sorted(set(lab)) + (["nan"] if case["nan"] == "some" and s else [])


# ------------------------------------------------------------------ R06 cubic

def ref_cubic(x, s, decimals):
    """Model and tolerance of the 12-point cubic replacement."""
    from scipy.interpolate import CubicSpline
    n = x.size
    y = np.array(x, float)
    tol = np.zeros(n)
    flagged = np.zeros(n, bool)
    flagged[s] = True
    t = np.array(list(range(1, 13)) + list(range(14, 26)), float)
    labs = set()
    for i in s:
        good = [j for j in range(i + 1, n) if not flagged[j]][:12]
        if i <= 30 or i >= n - 30 or len(good) < 12:
            nb = ([y[i - 1]] if i > 0 else []) + ([y[good[0]]] if good else [])
            y[i] = sum(nb) / len(nb)
            tol[i] = 5.1e-5 + (tol[i - 1] if i > 0 else 0.0) / len(nb)
            labs.add("edge")
        else:
            yy = np.concatenate([y[i - 12:i], y[good]])
            y[i] = float(CubicSpline(t, yy, bc_type="not-a-knot")(13.0))
            tol[i] = 4 * float(np.max(tol[i - 12:i])) + 1e-10 * max(1.0, ref.mag(yy))
            labs.add("fit")
    return y, tol, sorted(labs)


@st.composite
def some_spikes(draw, n):
    """Any set in records of ordinary length; in long ones, sets confined to a stretch of 300 samples."""
    if n <= 1500:
        return draw(g.spike_set(n))
    at = draw(st.one_of(st.sampled_from([0, n - 300]), st.integers(0, n - 300)))
    return [at + k for k in draw(g.spike_set(300))]


@st.composite
def cubic_case(draw):
    sig = draw(st.one_of(g.values(62, 160), g.values(2, 64), g.generated(26, 61, scales=[1.0, 5.0, 30.0]), g.generated(70, 400, scales=[1.0, 0.1, 5.0, 30.0]), g.generated(26, 200),
                         g.generated(400, 1500, scales=[1.0, 30.0])) if draw(st.integers(0, 29)) else g.generated(1500, 20000, scales=[1.0, 30.0]))
    n = g.size_of(sig)
    return {"x": sig, "s": draw(some_spikes(n)), "d": draw(st.sampled_from(DECIMALS)),
            "lay": draw(g.anykind), "it": draw(st.sampled_from(INDEX))}


def check_cubic(case):
    x, x0 = given_record(case)
    d = 4 if case["d"] is None else case["d"]
    y = ref.arr(apply("cubic", x, g.idx(case["s"], case["it"]), {"decimals": case["d"]}), x0.size, "12-point cubic")
    want, tol, labs = ref_cubic(x0, case["s"], d)
    step = 10.0 ** -d
    ref.close(y, want, 0.5 * step * (1 + 1e-9) + tol + 1e-11 * max(1, ref.mag(x0)), "12-point cubic")
    off = np.abs(y - np.around(y, d))
    require(np.all(off <= 1e-12 * max(1.0, ref.mag(y))), "12-point cubic: result not rounded to %d decimals", d)
    return labs


@st.composite
def cubic_exact_case(draw):
    n = draw(st.integers(70, 220))
    c = [draw(st.integers(-40, 40)) / 8 for _ in range(4)]
    k = draw(st.integers(1, 5))
    pos = sorted(set(draw(st.lists(st.integers(31, n - 31), min_size=1, max_size=k))))
    iso = []
    for q in pos:
        if not iso or q - iso[-1] > 13:
            iso.append(q)
    return {"n": n, "c": c, "s": iso, "bad": draw(st.integers(-900, 900)) / 1.0}


def check_cubic_exact(case):
    t = np.arange(case["n"]) / 40.0
    c = case["c"]
    truth = c[0] + c[1] * t + c[2] * t ** 2 + c[3] * t ** 3
    x = truth.copy()
    x[case["s"]] = case["bad"]
    y = ref.arr(apply("cubic", x, g.idx(case["s"]), {"decimals": 8}), x.size, "12-point cubic")
    ref.close(y, truth, 0.6e-8 + 1e-9 * max(1, ref.mag(truth)), "12-point cubic does not reproduce a cubic record at isolated spikes")
    return ["cubic"]


@st.composite
def cubic_bad_case(draw):
    n = draw(st.integers(30, 120))
    kind = draw(st.sampled_from(["negative", "beyond", "twod", "mixed"]))
    good = sorted(draw(st.lists(st.integers(0, n - 1), max_size=3)))
    v = draw(st.integers(1, n)) if kind in ("negative", "mixed") else draw(st.integers(0, 40))
    return {"n": n, "kind": kind, "good": good, "v": v}


def check_cubic_bad(case):
    n = case["n"]
    x = np.sin(np.arange(n) / 3.0)
    if case["kind"] == "twod":
        expect_raises(ValueError, R.cubic_12points_polynomial, np.vstack([x, x]), np.array([1]))
    else:
        bad = -case["v"] if case["kind"] in ("negative", "mixed") else n + case["v"]
        s = ([bad] + case["good"]) if bad < 0 else (case["good"] + [bad])
        expect_raises(ValueError, R.cubic_12points_polynomial, x, np.array(s))
    return [case["kind"]]


# ------------------------------------------------------------------ R07 polynomial

@st.composite
def poly_case(draw):
    sig = draw(st.one_of(g.values(26, 150), g.values(2, 30), g.generated(26, 400, scales=[1.0, 0.1, 5.0, 30.0]), g.generated(26, 200),
                         g.generated(200, 1500, scales=[1.0, 5.0])) if draw(st.integers(0, 29)) else g.generated(1500, 20000, scales=[1.0, 5.0]))
    n = g.size_of(sig)
    p = draw(params("poly", n))
    if p["degree"] == 3 and n > 800:
        p["degree"] = 2
    s = draw(st.one_of(some_spikes(n), g.spike_set(n, 0, 14), g.spike_set(n, max(0, min(90, n - 20)), 115, allow_empty=n > 2)))
    return {"x": sig, "s": s, "p": p, "lay": draw(g.anykind), "it": draw(st.sampled_from(INDEX))}


def check_poly(case):
    x, x0 = given_record(case)
    n, s, p = x0.size, case["s"], case["p"]
    w = 100 if p["window"] is None else p["window"]
    deg = 2 if p["degree"] is None else p["degree"]
    d = 4 if p["decimals"] is None else p["decimals"]
    return judge_poly(ref.arr(apply("poly", x, g.idx(s, case["it"]), p), n, "polynomial replacement"), x0, s, w, deg, d)


def judge_poly(y, x0, s, w, deg, d):
    """y must be the replacement of samples s of x0, step by step."""
    n, step = x0.size, 10.0 ** -d
    off = np.abs(y - np.around(y, d))
    require(np.all(off <= 1e-12 * max(1.0, ref.mag(y))), "polynomial replacement: result not rounded to %d decimals", d)
    # history as the method sees it: unflagged samples exactly, flagged ones as observed (known to half a step)
    hist = x0.copy()
    hist[s] = y[s]
    flagged = np.zeros(n, bool)
    flagged[s] = True
    labs = set()
    early = None
    for i in s:
        base = 1e-9 * max(1.0, ref.mag(x0))
        if i == 0:
            want, tol = ref.fmean(x0), base
            labs.add("first")
        elif i <= 10:
            if early is None:
                z = x0.copy()
                if flagged[0]:
                    z[0] = ref.fmean(x0)
                early = ref.ref_linear(z, [k for k in s if k > 0])
            want, tol = early[i], base + 0.5 * step
            labs.add("early")
        else:
            if float(np.max(np.abs(y[:i]))) > 30 * max(1.0, ref.mag(x0)):
                labs.add("diverged")          # chained extrapolation left the data's range: nothing to pin down
                break
            want, wt, lo = ref.ref_poly_step(hist, i, w, deg)
            unc = float(np.sum(np.abs(wt) * flagged[lo:i])) * 0.5 * step
            tol = unc + 5e-6 * max(1.0, float(np.max(np.abs(hist[lo:i])))) * max(1.0, float(np.sum(np.abs(wt))))
            labs.add("window" if i >= w else "short")
        if not abs(y[i] - want) <= tol + 0.5 * step * (1 + 1e-9):
            require(False, "sample %d replaced by %r, the model gives %r (tolerance %.3g)", i, float(y[i]), float(want), tol + 0.5 * step)
    keep = ~flagged
    ref.check_rounded(y[keep], x0[keep], d, "unflagged samples")
    return sorted(labs)


@st.composite
def poly_exact_case(draw):
    n = draw(st.integers(40, 300))
    deg = draw(st.integers(1, 3))
    return {"n": n, "deg": deg, "c": [draw(st.integers(-16, 16)) / 8 for _ in range(deg + 1)],
            "s": draw(g.spike_set(n, 11)), "w": draw(st.integers(6 if deg < 3 else 12, 120)), "bad": draw(st.integers(-500, 500))}


def check_poly_exact(case):
    t = np.arange(case["n"]) / 50.0
    truth = sum(c * t ** k for k, c in enumerate(case["c"]))
    truth = np.asarray(truth, float) + 0 * t
    x = truth.copy()
    x[case["s"]] = case["bad"]
    y = ref.arr(call(R.polynomial_replacement, x, g.idx(case["s"]), window=case["w"], degree=case["deg"], decimals=3), x.size)
    rr = ref.runs(case["s"])
    longest = max([b - a + 1 for a, b in rr], default=0)
    if longest > 3:
        raise Reject()
    ref.close(y, truth, 0.51e-3 + 1e-4, "record that is a polynomial of the fitted degree is not reproduced")
    return ["deg%d" % case["deg"]]


# ------------------------------------------------------------------ known finding probe

def wma_known():
    what = "weighted-moving-average replacement of index 50 in a 60-sample record, period 20, raises %s "
    why = "(the smoothed series has n - period samples, so a spike in the last `period` samples has no value)"
    try:
        R.weighted_moving_average(np.sin(np.arange(60) / 4.0), np.array([50]), period=20)
    except IndexError:
        return [("wma-tail", what % "IndexError" + why)]
    except Exception as e:  # noqa: BLE001
        return [("wma-tail-other", what % type(e).__name__)]
    return []


PROPERTIES = [
    Property("R01", [
        Facet("locality", replacement_case(), check_locality, "some but not all samples flagged", quick=2400, nontrivial=nontrivial),
        Facet("locality-short", replacement_case(small=8, mid=30, big=0), check_locality, "some but not all samples flagged", quick=1200, nontrivial=nontrivial),
    ], ["flagged indices are sorted, unique and in range; for hold the first sample is unflagged; for the weighted moving average flagged "
        "indices lie before n - period; for the 12-point cubic and the polynomial at least one sample is unflagged"]),
    Property("R02", [Facet("hold", hold_case(), check_hold, "at least one flagged sample", quick=2500, nontrivial=lambda c, l: len(c["s"]) > 0)],
             ["sample 0 is unflagged and indices ascend"]),
    Property("R03", [Facet("fill", fill_case(), check_fill, "at least one flagged sample", quick=2500, nontrivial=lambda c, l: len(c["s"]) > 0)]),
    Property("R04", [
        Facet("smoothers", replacement_case(methods=["sma", "ema", "wma", "kalman"]), check_smooth, "some samples flagged", quick=2400, nontrivial=nontrivial),
        Facet("ssa", replacement_case(methods=["ssa"], small=40, mid=120, big=600, families=["white", "ar", "walk", "sine"], scales=[0.01, 1.0, 5.0, 5.0, 300.0, 1e5, 1e6, 1e7]), check_smooth,
              "some samples flagged and the eigen-decomposition is unambiguous", quick=700, nontrivial=nontrivial),
    ], ["SSA cases with (nearly) repeated eigenvalues or a mobility on the threshold are skipped"], known=wma_known),
    Property("R05", [Facet("linear", linear_case(), check_linear, "at least one flagged sample", quick=4000, nontrivial=lambda c, l: len(c["s"]) > 0)]),
    Property("R06", [
        Facet("model", cubic_case(), check_cubic, "at least one flagged sample", quick=2000, nontrivial=lambda c, l: len(c["s"]) > 0),
        Facet("cubic-records", cubic_exact_case(), check_cubic_exact, "an interior isolated spike", quick=800),
        Facet("refusals", cubic_bad_case(), check_cubic_bad, "every case", quick=400),
    ], ["indices ascend and at least one sample is unflagged"]),
    Property("R07", [
        Facet("model", poly_case(), check_poly, "at least one flagged sample", quick=1600, nontrivial=lambda c, l: len(c["s"]) > 0),
        Facet("poly-records", poly_exact_case(), check_poly_exact, "runs of at most three flagged samples", quick=500, nontrivial=lambda c, l: len(c["s"]) > 0),
    ], ["window >= 6 (12 for degree 3), degree 1..3, at least one sample unflagged"]),
]
