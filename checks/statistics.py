"""S01..S10: descriptive statistics and smoothing series."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gens as g
from lib import ref
from lib.harness import Facet, Property, Reject, call, expect_raises, require
from proadv.statistics import descriptive as D
from proadv.statistics import moment as M
from proadv.statistics import series as S
from proadv.statistics import spread as P

KINDS = ["plain", "list", "tuple", "int", "int32", "int16", "uint8", "uint16", "float32", "strided", "reversed", "column", "readonly"]
ARRAYS = ["plain", "plain", "plain", "int", "int16", "uint8", "uint16", "strided", "reversed", "column", "readonly"]
EXTREME = [1.0, 1e-6, 30.0, 1e6, 1e-3]
OFFS = [0.0, 0.0, 1.0, -25.0, 1e3, -1e5]


def rec(lo=1, small=40, mid=300, big=3000, kinds=KINDS, **kw):
    return st.builds(lambda x, k: {"x": x, "kind": k}, g.record(lo=lo, small=small, mid=mid, big=big, **kw), st.sampled_from(kinds))


def get(case):
    x = g.as_kind(g.signal(case["x"]), case["kind"])
    return x, np.asarray(x)


def varied(case, labels):
    return "varied" in labels


def tag(a):
    return ["varied" if a.size > 1 and np.any(a != a[0]) else "flat"]


def bad_text(draw):
    return draw(st.sampled_from(["abc", "", "x1", "3,5", "--", "1.2.3", "None", "one", " ", "0x1g"]))


# ------------------------------------------------------------------ S01 extremes

@st.composite
def ext_case(draw):
    c = draw(rec())
    c["shape"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    c["inf"] = draw(st.sampled_from(["", "", "", "+", "-"]))
    c["at"] = draw(st.integers(0, 10 ** 6))
    return c


def check_ext(case):
    x, a = get(case)
    if case["inf"] and a.dtype.kind == "f":
        a = a.copy()
        a[case["at"] % a.size] = math.inf if case["inf"] == "+" else -math.inf
        x = g.as_kind(a, case["kind"]) if case["kind"] not in ("int", "int32") else a
    if isinstance(x, np.ndarray) and case["shape"] > 1 and a.size >= 6:
        k = a.size // 6 * 6
        x = x[:k].reshape((2, k // 2) if case["shape"] == 2 else (2, 3, k // 6))
        a = np.asarray(x).ravel()
    for f, want in ((D.min, sorted(a.tolist())[0]), (D.max, sorted(a.tolist())[-1])):
        v = ref.scalar(call(f, x), f.__name__, finite=False)
        require(v == want, "%s returned %r, the extreme sample is %r", f.__name__, v, want)
    return tag(a)


@st.composite
def bigint_case(draw):
    """Integers (and mixtures of numbers) too large for a double to tell apart."""
    b = draw(st.sampled_from([2 ** 53, 2 ** 60, -2 ** 62, 2 ** 62, 10 ** 15]))
    return {"v": [b + q for q in draw(st.lists(st.integers(-40, 40), min_size=1, max_size=20))], "c": draw(st.sampled_from(["list", "tuple", "array"]))}


def check_bigint(case):
    v = case["v"]
    x = {"list": list(v), "tuple": tuple(v), "array": np.array(v, dtype=np.int64)}[case["c"]]
    for f, want in ((D.min, sorted(v)[0]), (D.max, sorted(v)[-1])):
        r = call(f, x)
        ref.scalar(r, f.__name__)
        require(int(r) == want, "%s returned %r, the extreme sample is %r", f.__name__, r, want)
    return ["varied" if len(set(v)) > 1 else "flat"]


def check_nested(case):
    """Rows given as nested Python sequences."""
    rows = case["rows"]
    a = np.array(rows, float)
    x = tuple(tuple(r) for r in rows) if case["t"] else rows
    for f, want in ((D.min, a.min()), (D.max, a.max())):
        r = ref.scalar(call(f, x), f.__name__)
        require(r == want, "%s of nested rows is %r, expected %r", f.__name__, r, want)
    return ["varied"]


nested = st.builds(lambda k, v, d, t: {"rows": [[q / d if d > 1 else q for q in v[i * k:(i + 1) * k]] for i in range(len(v) // k)], "t": t},
                   st.integers(1, 4), st.lists(st.integers(-99, 99), min_size=4, max_size=24), st.sampled_from([1, 4]), st.booleans())


@st.composite
def refuse_case(draw, what):
    """Inputs that must be refused: strings, NaN, empty, wrong dimension."""
    kind = draw(st.sampled_from(what))
    v = draw(st.lists(st.integers(-50, 50), min_size=1, max_size=12))
    return {"kind": kind, "v": v, "at": draw(st.integers(0, len(v))), "s": draw(st.sampled_from(["a", "7", "", "nan"])),
            "c": draw(st.sampled_from(["list", "array", "tuple"])), "fl": draw(st.booleans()),
            "pad": draw(st.one_of(st.just([0, 0]), st.just([0, 0]), st.tuples(st.integers(0, 3000), st.integers(0, 3000)).map(list))), "rows": draw(st.sampled_from([0, 0, 2, 3]))}


def refused(case, f):
    v = [q / 2 for q in case["v"]] if case["fl"] else list(case["v"])
    # the offending item may sit deep inside a long record
    before, after = [case["v"][0]] * case["pad"][0], [case["v"][-1]] * case["pad"][1]
    kind = case["kind"]
    if kind == "string":
        v.insert(case["at"], case["s"])
        v = before + v + after
        x = {"list": v, "tuple": tuple(v), "array": np.array([str(q) for q in v])}[case["c"]]
        expect_raises(TypeError, f, x)
    elif kind == "strarray":
        expect_raises(TypeError, f, np.array([str(q) for q in v]))
    elif kind == "objarray":
        v.insert(case["at"], case["s"])
        expect_raises(TypeError, f, np.array(before + v + after, dtype=object))
    elif kind == "nan":
        v.insert(case["at"], float("nan"))
        v = before + v + after
        k = case["rows"]
        if k and len(v) % k == 0:
            expect_raises(ValueError, f, np.array(v).reshape(k, -1))
        expect_raises(ValueError, f, {"list": v, "tuple": tuple(v), "array": np.array(v)}[case["c"]])
    elif kind == "empty":
        expect_raises(ValueError, f, {"list": [], "tuple": (), "array": np.array([])}[case["c"]])
    elif kind == "emptyarray":
        expect_raises(ValueError, f, np.array([]))
    elif kind == "twod":
        expect_raises(ValueError, f, np.array([v, v], float))
    elif kind == "zerod":
        expect_raises(ValueError, f, np.array(float(v[0])))


def check_ext_refused(case):
    for f in (D.min, D.max):
        refused(case, f)
    return [case["kind"]]


# ------------------------------------------------------------------ S02 mean

def sum_tol(a):
    return (3e-4 if a.dtype == np.float32 else 1e-11) * max(float(np.mean(np.abs(a.astype(float)))), 1e-300)


@st.composite
def mean_case(draw):
    c = draw(rec(scales=EXTREME, offsets=OFFS))
    c["shape"] = draw(st.sampled_from([1, 1, 1, 2]))
    return c


def check_mean(case):
    x, a = get(case)
    if case["shape"] == 2 and isinstance(x, np.ndarray) and a.size >= 4:
        k = a.size // 2 * 2
        x = x[:k].reshape(2, k // 2)
        a = np.asarray(x).ravel()
    v = ref.scalar(call(D.mean, x), "mean")
    want = ref.fmean(a.astype(float))
    require(abs(v - want) <= sum_tol(a), "mean is %r, expected %r", v, want)
    return tag(a)


@st.composite
def mixed_case(draw):
    items = []
    wide = draw(st.sampled_from([st.integers(-2000, 2000)] * 4 + [st.integers(-2 ** 45, 2 ** 45)]))
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["int", "float", "num", "num", "bad", "npf", "npi", "bool"]))
        n = draw(wide)
        if k == "int":
            items.append(["v", n])
        elif k == "float":
            items.append(["v", n / 8])
        elif k == "num":
            items.append(["s", draw(st.sampled_from(["%d" % n, "%.3f" % (n / 8), " %d " % n, "%de1" % n, "+%d" % abs(n), "%d." % n]))])
        elif k == "bad":
            items.append(["s", bad_text(draw)])
        elif k == "bool":
            items.append(["v", bool(n % 2)])
        else:
            items.append([k, n])
    return {"items": items, "tuple": draw(st.booleans()), "rep": draw(st.sampled_from([1] * 9 + [40]))}


def check_mixed(case):
    vals, nums, strings, bad = [], [], 0, 0
    for k, v in case["items"] * case["rep"]:
        if k == "s":
            strings += 1
            vals.append(v)
            try:
                nums.append(float(v))
            except ValueError:
                bad += 1
        elif k == "npf":
            vals.append(np.float64(v))
            nums.append(float(v))
        elif k == "npi":
            vals.append(np.int64(v))
            nums.append(float(v))
        else:
            vals.append(v)
            nums.append(float(v))
    r = call(D.mean, tuple(vals) if case["tuple"] else list(vals))
    if not nums:
        require(isinstance(r, str) and r == "Invalid input.", "nothing numeric, but mean returned %.80r", r)
        return ["invalid"]
    v = ref.scalar(r, "mean of a mixed list")
    want = math.fsum(nums) / len(nums)
    require(abs(v - want) <= 1e-11 * max(1.0, max(abs(q) for q in nums)), "mean of %.300r is %r, expected %r", vals, v, want)
    return ["varied" if strings else "numeric"] + (["ignored"] if bad else [])


def check_mean_int(case):
    """Whole numbers beyond 32 bits, in lists, tuples and arrays."""
    v = [case["b"] + q for q in case["q"]]
    r = ref.scalar(call(D.mean, {"list": v, "tuple": tuple(v), "array": np.array(v, dtype=np.int64), "mixed": v + [float(v[0])]}[case["c"]]), "mean")
    w = v + [v[0]] if case["c"] == "mixed" else v
    want = sum(w) / len(w)
    require(abs(r - want) <= 1e-11 * max(abs(q) for q in w + [1]), "mean of %d whole numbers around %r is %r, expected %r", len(w), case["b"], r, want)
    return ["varied" if len(set(v)) > 1 else "flat"]


whole_mean = st.builds(lambda b, q, c: {"b": b, "q": q, "c": c}, st.sampled_from([0, 2 ** 31 - 5, -2 ** 31, 10 ** 10, -2 ** 40, 2 ** 50, 30000, 200]), st.lists(st.integers(-99, 99), min_size=1, max_size=60), st.sampled_from(["list", "tuple", "array", "mixed"]))


def check_mean_scalar(case):
    k, n = case["k"], case["n"]
    if k == "empty":
        for e in ([], (), np.array([]), np.zeros((0, 3))):
            r = call(D.mean, e)
            require(isinstance(r, str) and r == "Invalid input.", "mean of an empty input is %.80r", r)
    else:
        v = {"int": n, "float": n / 7, "np": np.float64(n / 7)}[k]
        r = ref.scalar(call(D.mean, v), "mean of a number")
        require(r == v, "mean of the single number %r is %r", v, r)
    return [k]


# ------------------------------------------------------------------ S03 median and mode

def check_median(case):
    x, a = get(case)
    keep = a.copy()
    v = ref.scalar(call(D.median, x), "median")
    require(np.array_equal(np.asarray(x), keep), "median reordered or changed the caller's data")
    want = ref.fmedian(a)
    tol = (1e-6 if a.dtype == np.float32 else 4e-15) * ref.mag(a)
    require(abs(v - want) <= tol, "median is %r, expected %r", v, want)
    y = a.astype(float)
    require(2 * np.sum(y < v - tol) <= y.size and 2 * np.sum(y > v + tol) <= y.size, "more than half of the samples on one side of the median %r", v)
    return tag(a) + ["even" if a.size % 2 == 0 else "odd"]


def check_mode(case):
    x, a = get(case)
    keep = a.copy()
    r = call(D.mode, x)
    require(np.array_equal(np.asarray(x), keep), "mode reordered or changed the caller's data")
    require(isinstance(r, tuple) and len(r) == 2, "mode returned %.80r instead of (value, frequency)", r)
    v, k = ref.scalar(r[0], "mode"), ref.scalar(r[1], "frequency")
    cnt = {}
    for q in a.tolist():
        cnt[q] = cnt.get(q, 0) + 1
    top = max(cnt.values())
    want = min(q for q, c in cnt.items() if c == top)
    require(k == top, "frequency %r, the most common value occurs %d times", k, top)
    require(v == want, "mode %r, expected %r (occurs %d times)", v, want, top)
    return ["varied" if top > 1 and len(cnt) > 1 else "flat"]


def check_median_refused(case):
    refused(case, D.median)
    return [case["kind"]]


# ------------------------------------------------------------------ S04 variance and standard deviation

@st.composite
def spread_case(draw):
    c = draw(rec(kinds=ARRAYS + ["float32"], scales=EXTREME, offsets=OFFS))
    c["off"] = draw(st.sampled_from([0, 0, 1, -7, 100, 4096, -65536, 10 ** 6]))
    c["seed"] = draw(g.SEEDS)
    return c


def check_spread(case):
    x, a = get(case)
    f32 = a.dtype == np.float32
    y = a.astype(float)
    s = ref.fstd(y)
    rel = 2e-4 if f32 else 1e-8
    floor = (1e-5 if f32 else 1e-12) * ref.mag(y)
    v, d = ref.scalar(call(P.variance, x), "variance"), ref.scalar(call(P.std, x), "standard deviation")
    require(v >= 0 and d >= 0, "negative spread: variance %r, standard deviation %r", v, d)
    if f32 and s < 1e-2 * ref.mag(y):
        return tag(a)
    require(abs(v - s * s) <= rel * s * s + floor * floor, "variance is %r, expected %r", v, s * s)
    require(abs(d - s) <= rel * s + floor, "standard deviation is %r, expected %r", d, s)
    if not f32 and s > 0:
        # shifting and reordering do not change the spread; scaling scales it
        z = np.random.default_rng(case["seed"]).permutation(y) + case["off"] * s
        d2 = ref.scalar(call(P.std, z), "standard deviation")
        require(abs(d2 - s) <= 1e-8 * s + 1e-10 * ref.mag(z), "shifting the record by %d deviations changed the standard deviation from %r to %r", case["off"], s, d2)
        v2 = ref.scalar(call(P.variance, z), "variance")
        require(abs(v2 - s * s) <= 1e-7 * s * s + 1e-9 * ref.mag(z) * s, "shifting the record by %d deviations changed the variance from %r to %r", case["off"], s * s, v2)
        d3 = ref.scalar(call(P.std, -4.0 * y), "standard deviation")
        require(abs(d3 - 4 * s) <= 1e-8 * s + 4 * floor, "scaling by -4 changed the standard deviation from %r to %r", s, d3)
    return tag(a)


def check_spread_refused(case):
    for f in (P.variance, P.std):
        refused(case, f)
    return [case["kind"]]


# ------------------------------------------------------------------ S05 moments

@st.composite
def moment_case(draw):
    c = draw(rec(lo=2, kinds=ARRAYS, scales=[1.0, 1.0, 1e-3, 30.0, 1e4, 1e-6, 1e-9, 1e7], offsets=[0.0, 0.0, 5.0, -300.0]))
    c["shape"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["list"] = draw(st.booleans())
    c["a"], c["b"] = draw(st.sampled_from([1.0, -1.0, 2.0, -0.5, 1000.0])), draw(st.sampled_from([0.0, 1.0, -20.0]))
    return c


def std_moment(y, k):
    m, s = ref.fmean(y), ref.fstd(y)
    d = (y - m) / s
    return math.fsum((d ** k).tolist()) / y.size, math.fsum((np.abs(d) ** k).tolist()) / y.size


def check_moment(case):
    x, a = get(case)
    y = a.astype(float)
    s, m = ref.fstd(y), ref.mag(y)
    if s <= 1e-7 * m or s == 0:
        raise Reject()
    e = 1e-9 + 1e-13 * m / s
    w3, abs3 = std_moment(y, 3)
    w4, _ = std_moment(y, 4)
    sk = ref.scalar(call(M.skewness, x), "skewness")
    require(abs(sk - w3) <= e * (abs3 + 1), "skewness is %r, expected %r", sk, w3)
    z = x
    if case["shape"] > 1 and y.size % case["shape"] == 0:
        z = np.asarray(x).reshape(case["shape"], -1)
    if case["list"]:
        z = np.asarray(z).tolist()
    ku = ref.scalar(call(M.kurtosis, z), "kurtosis")
    require(abs(ku - w4) <= e * (w4 + 1), "kurtosis is %r, expected %r", ku, w4)
    require(ku >= 1 + sk * sk - 1e-6 * (1 + ku), "kurtosis %r below 1 + skewness^2 = %r", ku, 1 + sk * sk)
    t = case["a"] * y + case["b"] * abs(case["a"]) * s
    e2 = 1e-8 + 1e-12 * ref.mag(t) / (abs(case["a"]) * s)
    sk2, ku2 = ref.scalar(call(M.skewness, t), "skewness"), ref.scalar(call(M.kurtosis, t), "kurtosis")
    require(abs(sk2 - math.copysign(1, case["a"]) * w3) <= e2 * (abs3 + 1), "skewness changed from %r to %r under x -> %r x + c", w3, sk2, case["a"])
    require(abs(ku2 - w4) <= e2 * (w4 + 1), "kurtosis changed from %r to %r under x -> %r x + c", w4, ku2, case["a"])
    return tag(a)


def check_moment_nan(case):
    v = [q / 2 for q in case["v"]]
    v.insert(case["at"], float("nan"))
    r = call(M.kurtosis, np.array(v) if case["c"] == "array" else v)
    require(math.isnan(ref.scalar(r, "kurtosis", finite=False)), "kurtosis of data holding NaN is %r instead of NaN", r)
    return ["nan"]


# ------------------------------------------------------------------ S06..S08 moving averages

@st.composite
def sma_case(draw):
    c = draw(rec(kinds=ARRAYS + ["float32"]))
    n = g.size_of(c["x"])
    c["w"] = draw(st.one_of(st.sampled_from([1, min(2, n)] + ([n, max(1, n - 1)] if n <= 2000 else [257]) + ([None, None] if n >= 20 else [])), st.integers(1, min(n, 80)), st.integers(1, min(n, 2500))))
    return c


def series_result(out, n, what):
    return ref.arr(out, n, what)


def check_sma(case):
    x, a = get(case)
    y = a.astype(float)
    w = case["w"] or 20
    before = y.copy()
    r = series_result(call(S.moving_average, x, *([] if case["w"] is None else [w])), y.size, "moving average")
    require(np.array_equal(np.asarray(x).astype(float), before), "moving_average changed the caller's data")
    m = ref.mag(y)
    tol = (1e-3 if a.dtype == np.float32 else 1e-10) * max(m, 1e-300)
    ref.close(r, ref.ref_sma(y, w), tol, "moving average (window %d)" % w)
    return tag(a) + ["w=1" if w == 1 else "w=n" if w == y.size else "w"]


@st.composite
def series_refuse(draw):
    n = draw(st.integers(1, 30))
    return {"n": n, "k": draw(st.sampled_from(["zero", "neg", "big", "twod", "empty"])), "d": draw(st.integers(1, 40))}


def check_sma_refused(case):
    x = np.arange(case["n"], dtype=float)
    k = case["k"]
    if k == "empty":
        r = call(S.moving_average, np.array([]), case["d"])
        require(np.asarray(r).size == 0, "moving average of an empty record is %.60r", r)
        expect_raises(ValueError, S.moving_average, np.array([]), -case["d"])
    elif k == "twod":
        expect_raises(ValueError, S.moving_average, np.vstack([x, x]), 1)
    else:
        expect_raises(ValueError, S.moving_average, x, {"zero": 0, "neg": -case["d"], "big": case["n"] + case["d"]}[k])
    return [k]


@st.composite
def ema_case(draw):
    c = draw(rec(kinds=["plain", "plain", "strided", "reversed", "column", "readonly", "float32"]))
    c["alpha"] = draw(st.one_of(st.sampled_from([None, 1.0, 1, 0.5, 0.2, 0.001]), st.integers(1, 1000).map(lambda k: k / 1000), st.floats(1e-6, 1.0)))
    return c


def check_ema(case):
    x, a = get(case)
    y = a.astype(float)
    al = 0.2 if case["alpha"] is None else case["alpha"]
    r = series_result(call(S.exponential_moving_average, x, *([] if case["alpha"] is None else [al])), y.size, "exponential moving average")
    require(np.array_equal(np.asarray(x).astype(float), y), "exponential_moving_average changed the caller's data")
    want = ref.ref_ema(y, al)
    ref.close(r, want, (1e-4 + 2e-7 * y.size if a.dtype == np.float32 else 1e-11) * ref.mag(y), "exponential moving average (alpha %r)" % al)
    return tag(a)


@st.composite
def ema_int_case(draw):
    n = draw(st.integers(1, 40))
    return {"v": [draw(st.integers(-500, 500)) for _ in range(n)], "alpha": draw(st.sampled_from([1, 0.5, 0.25, 0.75, 0.125]))}


def check_ema_int(case):
    """Integer records keep their dtype (documented example), so each step truncates."""
    v = case["v"]
    r = series_result(call(S.exponential_moving_average, np.array(v), case["alpha"]), len(v), "exponential moving average")
    lo = hi = v[0]
    require(r[0] == v[0], "the first value is %r, not the first sample %r", r[0], v[0])
    for i in range(1, len(v)):
        # either integer truncation or full precision is consistent with the documentation
        t = int(case["alpha"] * v[i] + (1 - case["alpha"]) * lo)
        hi = case["alpha"] * v[i] + (1 - case["alpha"]) * hi
        lo = t
        require(r[i] == lo or abs(r[i] - hi) < 1e-9, "step %d gives %r, recursion gives %r (integer) or %r", i, r[i], lo, hi)
    return ["varied" if len(set(v)) > 1 else "flat"]


def check_ema_refused(case):
    x = np.arange(case["n"], dtype=float)
    a = {"zero": 0, "neg": -case["d"] / 8, "big": 1 + case["d"] / 8, "twod": 1.0000001, "empty": -1e-9}[case["k"]]
    expect_raises(ValueError, S.exponential_moving_average, x, a)
    return [case["k"]]


@st.composite
def wma_case(draw):
    c = draw(rec(kinds=ARRAYS + ["float32"], big=1500))
    n = g.size_of(c["x"])
    c["p"] = draw(st.one_of(st.sampled_from([1, min(2, n)] + ([n, max(1, n - 1)] if n <= 2000 else [257]) + ([None, None] if n >= 20 else [])), st.integers(1, min(n, 60)), st.integers(1, min(n, 1200))))
    return c


def check_wma(case):
    x, a = get(case)
    y = a.astype(float)
    p = case["p"] or 20
    r = series_result(call(S.weighted_moving_average, x, *([] if case["p"] is None else [p])), y.size - p, "weighted moving average")
    require(np.array_equal(np.asarray(x).astype(float), y), "weighted_moving_average changed the caller's data")
    ref.close(r, ref.ref_wma(y, p), (1e-3 if a.dtype == np.float32 else 1e-10) * max(ref.mag(y), 1e-300), "weighted moving average (period %d)" % p)
    return tag(a) if y.size > p else ["flat"]


def check_wma_refused(case):
    x = np.arange(case["n"], dtype=float)
    p = {"zero": 0, "neg": -case["d"], "big": case["n"] + case["d"], "twod": case["n"] + 1, "empty": -1}[case["k"]]
    expect_raises(ValueError, S.weighted_moving_average, x, p)
    return [case["k"]]


# ------------------------------------------------------------------ S09 SSA

@st.composite
def ssa_case(draw):
    L = draw(st.integers(3, 30) if draw(st.integers(0, 4)) else st.integers(3, 90) if draw(st.integers(0, 3)) else st.integers(91, 260))
    n = draw(st.one_of(st.integers(L, 2 * L + 3), st.integers(L, max(L, 150)), st.integers(L, max(L, 150)), st.integers(L, 600), st.integers(L, L + 3)) if L > 20 or draw(st.integers(0, 19)) else st.integers(600, 4000) if draw(st.integers(0, 3)) else st.integers(4097, 12000))
    f = draw(st.one_of(st.sampled_from([1.0, 2.5, 0.1, 10.0]), st.floats(0.01, 50.0), st.integers(1, 60), st.floats(50.0, 2000.0)))
    sig = draw(g.generated(n, n, families=["white", "ar", "walk", "sine", "skewed", "ramp"], scales=[1.0, 5.0, 40.0, 0.02, 3e4, 1e6, 2e7], offsets=[0.0, 1.0, -20.0, 1e5], max_spikes=3, dec=False))
    return {"x": sig, "L": L, "f": f, "frac": draw(st.sampled_from([0.0, 0.25, 0.5, 0.9])), "lay": draw(st.sampled_from(g.LAYOUTS * 2 + ["int", "int16"]))}


def check_ssa(case):
    x = np.array(g.as_kind(g.signal(case["x"]), case["lay"]), dtype=float)
    fs, f = (case["L"] - (case["frac"] if isinstance(case["f"], float) else 0)) * case["f"], case["f"]      # whole numbers stay whole
    if int(math.ceil(fs / f)) > x.size:
        raise Reject()
    want, amb, kept, L = ref.ref_ssa(x, fs, f)
    if amb:
        raise Reject()
    r = series_result(call(S.ssa, g.as_kind(x, case["lay"]), fs, f), x.size, "SSA")
    ref.close(r, want, 5.1e-5 + 1e-7 * ref.mag(x), "singular-spectrum smoothing (window %d of %d samples)" % (L, x.size))
    return ["some" if 0 < kept < L else "all" if kept else "none", "short" if x.size < 2 * L else "long"]


# ------------------------------------------------------------------ S10 Kalman

@st.composite
def kalman_case(draw):
    return dict(draw(g.kalman_params()), x=draw(g.record(lo=1, small=30, mid=150, big=2500)), form=draw(st.sampled_from(["matrix", "matrix", "vector", "list", "whole"])),
                kind=draw(st.sampled_from(["plain", "list", "int", "strided", "int16", "uint8", "readonly", "reversed", "column", "tuple"])))


def check_kalman(case):
    x = g.as_kind(g.signal(case["x"]), case["kind"])
    y = np.asarray(x).astype(float)
    m = lambda v: np.array([[v if case["form"] == "whole" else float(v)]])                     # noqa: E731
    if case["form"] == "whole":
        case = dict(case, s0=int(round(case["s0"])), p0=int(math.ceil(case["p0"])), q=int(math.ceil(case["q"])), r=int(math.ceil(case["r"])))
    s0 = m(case["s0"]) if case["form"] == "whole" else {"matrix": m(case["s0"]), "vector": np.array([case["s0"]]), "list": [[case["s0"]]]}[case["form"]]
    out = call(S.kalman_filter, x, s0, m(case["p0"]), m(case["q"]), m(case["r"]))
    require(len(out) == y.size, "%d filtered values for %d samples", len(out), y.size)
    r = np.array([ref.scalar(q, "filtered value") for q in out])
    want = ref.ref_kalman(y, case["s0"], case["p0"], case["q"], case["r"])
    mg = max(ref.mag(y), abs(case["s0"]), 1e-9)
    ref.close(r, want, 1e-9 * mg, "Kalman filter")
    prev = np.concatenate([[case["s0"]], r[:-1]])
    lo, hi = np.minimum(prev, y), np.maximum(prev, y)
    require(np.all((r >= lo - 1e-9 * mg) & (r <= hi + 1e-9 * mg)), "an estimate lies outside the interval between the previous estimate and the sample")
    return tag(y)


PROPERTIES = [
    Property("S01", [
        Facet("extremes", ext_case(), check_ext, "samples not all equal", quick=3500, nontrivial=varied),
        Facet("refusals", refuse_case(["string", "nan", "empty"]), check_ext_refused, "every case", quick=600),
        Facet("big-integers", bigint_case(), check_bigint, "not all equal", quick=300, nontrivial=varied),
        Facet("nested", nested, check_nested, "every case", quick=300),
    ]),
    Property("S02", [
        Facet("numeric", mean_case(), check_mean, "samples not all equal", quick=3000, nontrivial=varied),
        Facet("mixed", mixed_case(), check_mixed, "the list holds at least one string", quick=3000, nontrivial=varied),
        Facet("whole-numbers", whole_mean, check_mean_int, "not all equal", quick=600, nontrivial=varied),
        Facet("scalars-empty", st.builds(lambda k, n: {"k": k, "n": n}, st.sampled_from(["int", "float", "np", "empty"]), st.integers(-999, 999)), check_mean_scalar, "every case", quick=150),
    ], ["one-character strings passed alone, and the strings nan and inf, are not generated"]),
    Property("S03", [
        Facet("median", rec(kinds=ARRAYS + ["float32"]), check_median, "samples not all equal", quick=3000, nontrivial=varied),
        Facet("mode", rec(kinds=KINDS, families=["lattice", "white", "square"], scales=[1.0, 2.0]), check_mode, "a repeated value among several distinct ones", quick=2500, nontrivial=varied),
        Facet("refusals", refuse_case(["strarray", "objarray", "emptyarray", "twod", "zerod"]), check_median_refused, "every case", quick=300),
    ]),
    Property("S04", [
        Facet("spread", spread_case(), check_spread, "samples not all equal", quick=3500, nontrivial=varied),
        Facet("refusals", refuse_case(["strarray", "objarray", "emptyarray", "twod", "zerod"]), check_spread_refused, "every case", quick=300),
    ], ["offsets up to 1e6 standard deviations (two-pass accuracy)"]),
    Property("S05", [
        Facet("moments", moment_case(), check_moment, "samples not all equal", quick=2500, nontrivial=varied),
        Facet("nan", refuse_case(["nan"]), check_moment_nan, "every case", quick=150),
    ], ["standard deviation above 1e-7 of the largest magnitude"]),
    Property("S06", [
        Facet("model", sma_case(), check_sma, "samples not all equal", quick=2500, nontrivial=varied),
        Facet("refusals", series_refuse(), check_sma_refused, "every case", quick=400),
    ]),
    Property("S07", [
        Facet("model", ema_case(), check_ema, "samples not all equal", quick=2000, nontrivial=varied),
        Facet("integers", ema_int_case(), check_ema_int, "samples not all equal", quick=800, nontrivial=varied),
        Facet("refusals", series_refuse(), check_ema_refused, "every case", quick=300),
    ]),
    Property("S08", [
        Facet("model", wma_case(), check_wma, "samples not all equal and period < n", quick=2000, nontrivial=varied),
        Facet("refusals", series_refuse(), check_wma_refused, "every case", quick=300),
    ]),
    Property("S09", [Facet("model", ssa_case(), check_ssa, "some but not all components kept", quick=1500, nontrivial=lambda c, l: "some" in l)],
             ["cases with nearly repeated eigenvalues or a component on the cutoff are skipped: the decomposition is not unique there"]),
    Property("S10", [Facet("model", kalman_case(), check_kalman, "samples not all equal", quick=1800, nontrivial=varied)], ["measurement noise > 0, other covariances at most 1e5 times it"]),
]
