"""S11..S14: normal distribution, normality tests, root finding, bounded minimisation."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gens as g
from lib import ref
from lib.harness import Facet, Property, Reject, Violation, call, expect_raises, require
from proadv.statistics.distributions import normal as N
from proadv.statistics.optimize import optimize as O

SQ2 = math.sqrt(2.0)


# ------------------------------------------------------------------ S11 normal distribution

@st.composite
def points(draw, lo=-9.0, hi=9.0, inf=True):
    """Evaluation points with their container and shape."""
    n = draw(st.integers(1, 14))
    v = []
    for _ in range(n):
        k = draw(st.sampled_from(["i", "f", "f", "f", "edge"] + (["inf"] if inf else [])))
        if k == "i":
            v.append(float(draw(st.integers(math.ceil(lo), math.floor(hi)))))
        elif k == "f":
            v.append(draw(st.one_of(st.integers(int(lo * 4096), int(hi * 4096)).map(lambda q: q / 4096), st.floats(lo, hi))))
        elif k == "edge":
            v.append(draw(st.sampled_from([0.0, 1.0, -1.0, 0.999999999, -0.999999999, 1.0000000001, -1.0000000001, 0.5, 1e-12, -1e-300])))
        else:
            v.append(draw(st.sampled_from(["inf", "-inf"])))
    form = draw(st.sampled_from(["array", "array", "list", "2d", "3d", "scalar", "np0", "int", "intlist", "float32", "strided", "tuple", "readonly", "fortran", "0d", "intscalar", "single",
                                 "int8", "uint8", "int16", "int32"]))
    case = {"v": v, "form": form}
    if form in ("array", "list", "2d", "strided", "fortran") and draw(st.integers(0, 7)) == 0:
        # a long array of the same points and many more
        case["more"] = [draw(g.SEEDS), draw(st.integers(20, 5000)), lo, hi]
    return case


def build(case):
    v = [float(q) for q in case["v"]]
    f = case["form"]
    if case.get("more"):
        sd, n, lo, hi = case["more"]
        v += np.random.default_rng(sd).uniform(lo, hi, n).tolist()
    if f in ("int", "intlist"):
        v = [int(q) if math.isfinite(q) else 3 for q in v]
        return (np.array(v) if f == "int" else list(v)), np.array(v, float), (len(v),)
    if f == "intscalar":
        q = int(v[0]) if math.isfinite(v[0]) else 3
        return q, np.array([float(q)]), ()
    if f == "single":
        return np.array(v[:1]), np.array(v[:1]), (1,)
    if f == "scalar":
        return v[0], np.array(v[:1]), ()
    if f == "np0":
        return np.float64(v[0]), np.array(v[:1]), ()
    if f in g.NARROW:
        a = g.as_kind(np.array([q if math.isfinite(q) else 3.0 for q in v]), f)
        return a, a.astype(float), a.shape
    a = np.array(v)
    if f == "0d":
        return np.array(v[0]), a[:1], ()
    if f == "readonly":
        return g.as_kind(a, f), a, a.shape
    if f == "fortran":
        a = np.asfortranarray(np.array([v, v[::-1], v]))
        return a, a.ravel(), a.shape
    if f == "list":
        return v, a, a.shape
    if f == "tuple":
        return tuple(v), a, a.shape
    if f == "2d":
        a = np.array([v, v[::-1]])
        return a, a.ravel(), a.shape
    if f == "3d":
        a = np.array([[v, v[::-1]], [v[1:] + v[:1], v]])
        return a, a.ravel(), a.shape
    if f == "float32":
        a = a.astype(np.float32)
        return a, a.astype(float), a.shape
    if f == "strided":
        return g.as_kind(a, "strided"), a, a.shape
    return a, a, a.shape


def result(out, shape, what):
    r = ref.arr(out, None, what, finite=False, ndim=None)
    require(r.shape == shape, "%s has shape %s instead of %s", what, r.shape, shape)
    return r.ravel()


def phi(x):
    return 0.5 * math.erfc(-x / SQ2)


def check_cdf(case):
    x, v, shape = build(case)
    keep = np.array(x, copy=True)
    f32 = case["form"] == "float32"
    c = result(call(N.cdf, x), shape, "cdf")
    s = result(call(N.sf, x), shape, "sf")
    require(np.array_equal(np.asarray(x), keep), "the caller's data were changed")
    for i, q in enumerate(v):
        want = phi(q)
        # relative accuracy in the lower tail, absolute elsewhere
        require(abs(c[i] - want) <= ((1e-13 + 2e-15 * q * q) * want if -40 < q < 0 else 1e-13 if q > 0 else 1e-300) + 1e-300 + (1e-6 * want * (1 + abs(q)) if f32 and math.isfinite(q) else 0), "cdf(%r) = %r, expected %r", q, c[i], want)
        require(abs(s[i] - phi(-q)) <= 4e-16 + 1e-13 * phi(-q) + (1e-6 if f32 else 0), "sf(%r) = %r, expected %r", q, s[i], phi(-q))
        require(0 <= c[i] <= 1 and 0 <= s[i] <= 1, "probability outside [0, 1] at %r", q)
    o = np.argsort(v, kind="stable")
    require(np.all(np.diff(c[o]) >= -(1e-6 if f32 else 2e-16)), "cdf decreases")
    return [case["form"]]


@st.composite
def pdf_case(draw):
    c = draw(points(-30.0, 30.0))
    c["std"] = draw(st.one_of(st.sampled_from([None, 1, 1.0, 2, 0.5, 3.75, 10.0, 300, 1000]), st.integers(-16, 16).map(lambda k: 10.0 ** (k / 4)), st.integers(-9, 9).map(lambda k: 10.0 ** k)))
    c["mean"] = draw(st.one_of(st.sampled_from([None, 0, 1, -2.5, 4.0, 200, -1000]), st.floats(-50, 50)))
    c["kw"] = draw(st.booleans())
    return c


def check_pdf(case):
    x, v, shape = build(case)
    sd, mu = 1.0 if case["std"] is None else float(case["std"]), 0.0 if case["mean"] is None else float(case["mean"])
    kw = {k: case[k] for k in ("std", "mean") if case[k] is not None}
    args = ()
    if not case["kw"] and len(kw) == 2:
        args, kw = (case["std"], case["mean"]), {}
    f32 = case["form"] == "float32"
    keep = np.array(x, copy=True)
    p = result(call(N.pdf, x, *args, **kw), shape, "pdf")
    lp = result(call(N.log_pdf, x, *args, **kw), shape, "log_pdf")
    require(np.array_equal(np.asarray(x), keep), "the caller's data were changed")
    for i, q in enumerate(v):
        z = (q - mu) / sd
        want = math.exp(-0.5 * z * z) / (sd * math.sqrt(2 * math.pi)) if math.isfinite(z) else 0.0
        rel = (1e-12 + 1e-14 * z * z) if math.isfinite(z) else 0
        if f32:
            rel = 3e-6 * (1 + z * z) if math.isfinite(z) else 0
            if want < 1e-30:
                continue
        require(abs(p[i] - want) <= rel * want + 1e-300, "pdf(%r, std=%r, mean=%r) = %r, expected %r", q, sd, mu, p[i], want)
        if math.isfinite(z) and abs(z) < (35 if not f32 else 9):
            lw = -0.5 * z * z - math.log(sd) - 0.5 * math.log(2 * math.pi)
            require(abs(lp[i] - lw) <= (1e-5 if f32 else 1e-11) * (1 + abs(lw)), "log_pdf(%r, std=%r, mean=%r) = %r, expected %r", q, sd, mu, lp[i], lw)
    return [case["form"]]


def check_logs(case):
    x, v, shape = build(case)
    f32 = case["form"] == "float32"
    lc = result(call(N.log_cdf, x), shape, "log_cdf")
    keep = np.array(x, copy=True)
    ls = result(call(N.log_sf, x), shape, "log_sf")
    require(np.array_equal(np.asarray(x), keep), "the caller's data were changed")
    for i, q in enumerate(v):
        c, s = phi(q), phi(-q)
        lw = math.log1p(-s) if q > 0 else math.log(c)
        require(abs(lc[i] - lw) <= 1e-15 + 1e-12 * (1 + abs(lw)) + (1e-5 * (1 + abs(lw)) if f32 else 0), "log_cdf(%r) = %r, expected %r", q, lc[i], lw)
        if q <= 5:
            sw = math.log1p(-c) if q < 0 else math.log(s)
            require(abs(ls[i] - sw) <= 1e-12 * (1 + abs(sw)) + 1e-15 / s + ((1e-5 + 1e-6 / s) * (1 + abs(sw)) if f32 else 0), "log_sf(%r) = %r, expected %r", q, ls[i], sw)
    return [case["form"]]


@st.composite
def normal_bad(draw):
    return {"v": draw(st.lists(st.integers(-4, 4), min_size=0, max_size=6)), "at": draw(st.integers(0, 6)), "k": draw(st.sampled_from(["empty", "nan", "nan"])),
            "c": draw(st.sampled_from(["array", "list", "2d"])), "pad": draw(st.one_of(st.just(0), st.just(0), st.integers(0, 3000)))}


def check_normal_bad(case):
    for f in (N.cdf, N.pdf, N.sf, N.log_cdf, N.log_pdf, N.log_sf):
        if case["k"] == "empty":
            expect_raises(ValueError, f, {"array": np.array([]), "list": [], "2d": np.zeros((0, 2))}[case["c"]])
        else:
            v = [float(q) for q in case["v"]]
            v.insert(min(case["at"], len(v)), float("nan"))
            v = [0.5] * case["pad"] + v
            expect_raises(TypeError, f, {"array": np.array(v), "list": v, "2d": np.array([v, v])}[case["c"]])
    return [case["k"]]


# ------------------------------------------------------------------ S12 normality tests

@st.composite
def test_case(draw):
    sig = draw(st.one_of(g.values(8, 40), g.generated(8, 30, max_spikes=2), g.generated(8, 400), g.generated(400, 3000)) if draw(st.integers(0, 29)) else g.generated(3000, 20000))
    return {"x": sig, "alt": draw(st.sampled_from([None, "two-sided", "less", "greater"])), "kind": draw(st.sampled_from(["plain", "list", "int", "strided", "readonly", "reversed", "column", "tuple", "int16", "uint8"]))}


def skew_z(y):
    """D'Agostino (1970)."""
    n = float(y.size)
    b1 = moment(y, 3)
    t = b1 * math.sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    beta2 = 3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * (beta2 - 1)) - 1
    delta, alpha = 1 / math.sqrt(math.log(math.sqrt(w2))), math.sqrt(2 / (w2 - 1))
    return delta * math.asinh(t / alpha), b1


def kurt_z(y):
    """Anscombe and Glynn (1983)."""
    n = float(y.size)
    b2 = moment(y, 4)
    e = 3 * (n - 1) / (n + 1)
    v = 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    x = (b2 - e) / math.sqrt(v)
    sb = 6 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6 + 8 / sb * (2 / sb + math.sqrt(1 + 4 / sb ** 2))
    d = 1 + x * math.sqrt(2 / (a - 4))
    if abs(d) < 1e-6:
        return None, d
    root = math.copysign(((1 - 2 / a) / abs(d)) ** (1 / 3), d)
    return (1 - 2 / (9 * a) - root) / math.sqrt(2 / (9 * a)), d


def moment(y, k):
    m, s = ref.fmean(y), ref.fstd(y)
    return math.fsum((((y - m) / s) ** k).tolist()) / y.size


def judge_test(name, res, z, alt, ztol):
    require(isinstance(res, tuple) and len(res) == 2, "%s returned %.80r instead of (z, p)", name, res)
    gz, gp = ref.scalar(res[0], "statistic"), ref.scalar(res[1], "p-value")
    require(abs(gz - z) <= ztol * (1 + abs(z)), "%s statistic is %r, expected %r", name, gz, z)
    p = {"two-sided": 2 * phi(-abs(gz)), "greater": phi(-gz), "less": phi(gz)}[alt or "two-sided"]
    require(abs(gp - p) <= 1e-12, "%s p-value (%s) is %r for z = %r, expected %r", name, alt or "two-sided", gp, gz, p)
    require(-1e-15 <= gp <= 1 + 1e-15, "%s p-value is %r", name, gp)


def check_tests(case):
    x = g.as_kind(g.signal(case["x"]), case["kind"])
    y = np.asarray(x).astype(float)
    s = ref.fstd(y)
    if s <= 1e-6 * ref.mag(y) or s == 0:
        raise Reject()
    kw = {} if case["alt"] is None else {"alternative": case["alt"]}
    tol = 1e-7 + 1e-11 * ref.mag(y) / s
    labs = [case["alt"] or "default"]
    z, b1 = skew_z(y)
    if abs(b1) > 1e-9:
        judge_test("skewness test", call(N.skewtest, x, **kw), z, case["alt"], tol)
        labs.append("left" if b1 < 0 else "right")
    k, d = kurt_z(y)
    if k is not None:
        judge_test("kurtosis test", call(N.kurtotest, x, **kw), k, case["alt"], tol / min(1.0, abs(d)) ** 2)
        labs.append("neg-denominator" if d < 0 else "pos-denominator")
    return labs


@st.composite
def test_bad(draw):
    return {"k": draw(st.sampled_from(["short-skew", "short-kurt", "alt"])), "n": draw(st.integers(2, 7)), "alt": draw(st.sampled_from(["two_sided", "Greater", "", "both", "smaller", "LESS"])),
            "seed": draw(g.SEEDS), "c": draw(st.booleans())}


def check_test_bad(case):
    rng = np.random.default_rng(case["seed"])
    if case["k"] == "alt":
        x = rng.exponential(size=30)
        expect_raises(ValueError, N.skewtest, x, case["alt"])
        expect_raises(ValueError, N.kurtotest, x, case["alt"])
    elif case["k"] == "short-skew":
        x = rng.normal(size=case["n"])
        expect_raises(ValueError, N.skewtest, x if case["c"] else list(x))
    else:
        x = rng.normal(size=min(case["n"], 4))
        expect_raises(ValueError, N.kurtotest, x if case["c"] else list(x))
    return [case["k"]]


def check_test_edge(case):
    """The smallest accepted samples: 8 for skewness, 5 for kurtosis."""
    rng = np.random.default_rng(case["seed"])
    a, b = rng.exponential(size=case["ns"]), rng.exponential(size=case["nk"])
    judge_test("skewness test", call(N.skewtest, a), skew_z(a)[0], None, 1e-7)
    k, d = kurt_z(b)
    if k is not None and abs(d) > 1e-3:
        judge_test("kurtosis test", call(N.kurtotest, b), k, None, 1e-6 / d ** 2 if abs(d) < 1 else 1e-6)
    return ["edge"]


# ------------------------------------------------------------------ S13 root finding

class Probe:
    """A function of one variable that records every evaluation."""

    def __init__(self, f):
        self.f, self.xs, self.fs = f, [], []

    def __call__(self, x, *args):
        v = self.f(x, *args)
        self.xs.append(float(x))
        self.fs.append(float(v))
        return v


ROOT_SHAPES = ["linear", "cubic", "odd9", "atan", "exp", "tanh", "sine", "log", "kinked", "quintic", "sqrt", "flat"]


def shape_fn(k, r, s, sg):
    """A continuous function with a sign change at r."""
    h = {
        "linear": lambda t: t, "cubic": lambda t: t ** 3, "odd9": lambda t: t ** 9, "atan": math.atan, "exp": lambda t: math.expm1(max(min(t, 500), -500)),
        "tanh": math.tanh, "sine": lambda t: math.sin(t) + 1.1 * t, "log": lambda t: math.copysign(math.log1p(abs(t)), t),
        "kinked": lambda t: t if t < 0 else 30 * t, "quintic": lambda t: t ** 5 - 2 * t ** 3 + 3 * t, "sqrt": lambda t: math.copysign(math.sqrt(abs(t)), t),
        "flat": lambda t: 0.0 if abs(t) < 1e-3 else math.copysign(abs(t) - 1e-3, t),
    }[k]
    return lambda x: sg * h((x - r) * s)


# magnitudes of the function values: most near one, some where products of two values under- or overflow
FMAG = st.sampled_from([1.0] * 6 + [1e-9, 1e9, 1e-60, 1e60, 1e-170, 1e-250])


@st.composite
def root_case(draw):
    r = draw(st.one_of(st.integers(-4000, 4000).map(lambda q: q / 64), st.integers(-4000, 4000).map(lambda q: q / 64), st.floats(-3.0, 3.0), st.sampled_from([1e3, -2e4, 1e-4, -3e-6, 0.0])))
    a = r - draw(st.one_of(st.integers(1, 4000).map(lambda q: q / 128), st.sampled_from([1e-3, 1e-6, 500.0])))
    b = r + draw(st.one_of(st.integers(1, 4000).map(lambda q: q / 128), st.sampled_from([1e-3, 1e-6, 500.0])))
    end = draw(st.sampled_from(["", "", "", "", "", "a", "b"]))
    if draw(st.integers(0, 9)) == 0:
        a, b = a - draw(st.sampled_from([0.0, 4e3, 1e5])), b + draw(st.sampled_from([0.0, 4e3, 1e5]))
    if draw(st.integers(0, 5)) == 0:
        a, b = int(math.floor(a)), int(math.ceil(b))
    tol = draw(st.sampled_from([None, None, None, (1e-6, 1e-6), (1e-3, 1e-10), (1e-12, 1e-12), (1e-9, 1e-4), (1e-9, 1e-2), (0.1, 1e-9), (1e-12, 1e-14)]))
    return {"mi": draw(st.sampled_from([None, None, 600, 3000])), "k": draw(st.sampled_from(ROOT_SHAPES)), "r": r, "a": a if end != "a" else r, "b": b if end != "b" else r, "s": draw(st.sampled_from([1.0, 0.1, 7.0])),
            "sg": draw(st.sampled_from([1, -1])) * draw(FMAG), "tol": tol, "full": draw(st.booleans())}


def check_root(case):
    if not case["a"] < case["b"]:
        raise Reject()
    f = Probe(shape_fn(case["k"], case["r"], case["s"], case["sg"]))
    kw = {} if case["tol"] is None else {"xtol": case["tol"][0], "rtol": case["tol"][1]}
    xt, rt = case["tol"] or (1.48e-8, 1.48e-8)
    a, b = case["a"], case["b"]
    if case["mi"] is not None:
        kw["maxiter"] = case["mi"]
    res = call(O.brentq, f, a, b, full_output=case["full"], **kw)
    calls = len(f.xs)
    root = unpack_root(res, case["full"], calls, True)
    require(a <= root <= b, "root %r outside the bracket [%r, %r]", root, a, b)
    require(all(a <= x <= b for x in f.xs), "the function was evaluated outside the bracket [%r, %r]: %r", a, b, [x for x in f.xs if not a <= x <= b][:3])
    g_ = shape_fn(case["k"], case["r"], case["s"], case["sg"])
    d = (xt + rt * abs(root)) * (1 + 1e-9)
    lo, hi = g_(max(a, root - d)), g_(min(b, root + d))
    require(g_(root) == 0 or lo == 0 or hi == 0 or (lo < 0) != (hi < 0), "no sign change within xtol + rtol*|root| = %.3g of the reported root %r (true root %r)", d, root, case["r"])
    if case["full"]:
        plain = ref.scalar(call(O.brentq, g_, a, b, **kw), "root")
        require(plain == root, "full_output changes the root from %r to %r", plain, root)
        enough = ref.scalar(call(O.brentq, g_, a, b, **dict(kw, maxiter=int(res["iterations"]) + 1)), "root")
        require(enough == root, "the iteration limit changes the root from %r to %r", root, enough)
    return [case["k"], "end" if case["r"] in (a, b) else "interior"]


def unpack_root(res, full, calls, converged):
    if not full:
        return ref.scalar(res, "root")
    require(isinstance(res, dict) and set(res) == {"root", "function_calls", "iterations", "converged", "flag"}, "full output is %.200r", res)
    require(int(res["function_calls"]) == calls, "function_calls is %r, the function was called %d times", res["function_calls"], calls)
    require(bool(res["converged"]) is converged, "converged is %r", res["converged"])
    require(res["flag"] == "converged" if converged else res["flag"] != "converged", "flag is %r", res["flag"])
    require(0 <= int(res["iterations"]) <= calls, "%r iterations with %d calls", res["iterations"], calls)
    return ref.scalar(res["root"], "root")


@st.composite
def root_poly(draw):
    """Several roots in the bracket: any one of them will do."""
    return {"r": sorted(draw(st.lists(st.integers(-300, 300), min_size=1, max_size=5))), "a": draw(st.integers(-400, 0)), "b": draw(st.integers(1, 400)), "tol": draw(st.sampled_from([None, (1e-5, 1e-5)]))}


def check_root_poly(case):
    def p(x):
        v = 1.0
        for r in case["r"]:
            v *= (x - r / 16) / 20
        return v
    a, b = case["a"] / 8, case["b"] / 8
    f = Probe(p)
    fa, fb = p(a), p(b)
    if fa * fb > 0:
        expect_raises(ValueError, O.brentq, p, a, b)
        return ["same-sign"]
    kw = {} if case["tol"] is None else {"xtol": case["tol"][0], "rtol": case["tol"][1]}
    xt, rt = case["tol"] or (1.48e-8, 1.48e-8)
    x = ref.scalar(call(O.brentq, f, a, b, **kw), "root")
    d = xt + rt * abs(x)
    require(any(abs(x - r / 16) <= d * (1 + 1e-9) for r in case["r"]) or p(x) == 0 or p(x - d) * p(x + d) <= 0, "%r is not within %.3g of any root %r", x, d, [r / 16 for r in case["r"]])
    require(all(a <= q <= b for q in f.xs), "evaluated outside the bracket")
    return ["sign-change"]


@st.composite
def root_bad(draw):
    return {"k": draw(st.sampled_from(["order", "equal", "sign", "maxiter", "maxiter-full"])), "a": draw(st.integers(-50, 50)) / 4, "w": draw(st.integers(1, 80)) / 4,
            "sg": draw(st.sampled_from([1, -1])) * draw(FMAG), "m": draw(st.integers(1, 4)), "c": draw(st.integers(1, 30)) / 8}


def check_root_bad(case):
    a, b, sg = case["a"], case["a"] + case["w"], case["sg"]
    f = lambda x: sg * (x - a - 0.37 * case["w"])            # noqa: E731
    if case["k"] == "order":
        expect_raises(ValueError, O.brentq, f, b, a)
    elif case["k"] == "equal":
        expect_raises(ValueError, O.brentq, f, a, a)
    elif case["k"] == "sign":
        expect_raises(ValueError, O.brentq, lambda x: sg * (case["c"] + (x - a) ** 2), a, b)
    else:
        # |x - r|^9-like flat function: cannot reach the tolerance in a handful of steps
        h = Probe(lambda x: sg * ((x - a) / case["w"] - 0.613) ** 9)
        if case["k"] == "maxiter":
            expect_raises(ValueError, O.brentq, h, a, b, xtol=1e-13, rtol=1e-13, maxiter=case["m"])
        else:
            res = call(O.brentq, h, a, b, xtol=1e-13, rtol=1e-13, maxiter=case["m"], full_output=True)
            unpack_root(res, True, len(h.xs), False)
    return [case["k"]]


# ------------------------------------------------------------------ S14 bounded minimisation

MIN_SHAPES = ["quad", "quartic", "abs", "hyper", "logq", "skewq", "sqrtabs", "huber"]


def min_fn(k, m, s, c):
    h = {
        "quad": lambda t: t * t, "quartic": lambda t: t ** 4 + t * t, "abs": abs, "hyper": lambda t: math.sqrt(1 + t * t),
        "logq": lambda t: math.log1p(t * t), "skewq": lambda t: t * t if t < 0 else 9 * t * t, "sqrtabs": lambda t: math.sqrt(abs(t)),
        "huber": lambda t: 0.5 * t * t if abs(t) < 1 else abs(t) - 0.5,
    }[k]
    return lambda x: c + h((x - m) * s)


@st.composite
def min_case(draw):
    lo = draw(st.one_of(st.integers(-1600, 1600).map(lambda q: q / 32), st.integers(-1600, 1600).map(lambda q: q / 32), st.floats(-2.0, 2.0), st.sampled_from([2e3, -5e3])))
    w = draw(st.one_of(st.integers(1, 3200).map(lambda q: q / 32), st.sampled_from([1e-3, 400.0]), st.floats(0.01, 30.0)))
    return {"k": draw(st.sampled_from(MIN_SHAPES)), "lo": lo, "w": w, "p": draw(st.integers(-40, 140)) / 100, "s": draw(st.sampled_from([1.0, 0.2, 5.0])),
            "c": draw(st.sampled_from([0.0, 1.0, -100.0])), "tol": draw(st.sampled_from([None, None, 1e-5, 1e-8, 1e-3, 0.1])), "args": draw(st.sampled_from([0, 0, 1, 2, 2, 3, 4, 6])), "det": draw(st.booleans()),
            "me": draw(st.sampled_from([None, None, None, 2, 3, 4, 5, 8, 12, 20, 35, 300, 900])), "ints": draw(st.integers(0, 5)) == 0}


def check_min(case):
    lo, hi = case["lo"], case["lo"] + case["w"]
    if case["ints"]:
        lo, hi = int(math.floor(lo)), int(math.ceil(hi))
    m = lo + case["p"] * (hi - lo)
    base = min_fn(case["k"], m, case["s"], case["c"])
    given = tuple([2.0, 3.0, -1.0, 0.5, 4.0, 1.0][:case["args"]])

    def target(x, *extra):
        require(extra == given, "the target got the extra parameters %r, given %r", extra, given)
        return base(x) * (extra[0] if extra else 1.0) + sum(extra[1:])
    f = Probe(target)
    kw = {"detailed_output": case["det"]}
    if case["args"]:
        kw["parameters"] = given
    if case["tol"] is not None:
        kw["tolerance"] = case["tol"]
    if case["me"] is not None:
        kw["max_evaluations"] = case["me"]
    x = unpack_min(call(O.fminbound, f, lo, hi, **kw), case["det"], f, lo, hi, 500 if case["me"] is None else case["me"])
    if case["me"] is None or case["me"] >= 300:
        best = min(max(m, lo), hi)
        xt = case["tol"] if case["tol"] is not None else 1e-5
        t = 3 * (1.5e-8 * abs(x) + xt / 3) + 1e-9
        # near a smooth minimum values are equal to working precision inside this radius
        flat = 1e-6 * math.sqrt(1 + abs(case["c"])) / case["s"] if case["k"] not in ("abs", "sqrtabs") else 1e-11 * (1 + abs(case["c"]))
        if case["k"] == "sqrtabs":
            flat = 1e-9
        require(abs(x - best) <= t + flat, "minimum of a unimodal function at %r, reported %r (tolerance %r)", best, x, xt)
    return ["edge" if not lo < m < hi else "interior", case["k"]]


def unpack_min(res, det, f, lo, hi, limit):
    if det:
        require(isinstance(res, tuple) and len(res) == 4, "detailed output is %.200r", res)
        x, fv, flag, cnt = ref.scalar(res[0], "minimiser"), ref.scalar(res[1], "minimum value"), res[2], res[3]
        require(int(cnt) == len(f.xs), "reported %r evaluations, the target was evaluated %d times", cnt, len(f.xs))
        at = [v for q, v in zip(f.xs, f.fs) if q == x]
        require(at and at[0] == fv, "reported minimum value %r is not the target's value %r at the reported point", fv, at[:1])
        require(int(flag) == (1 if len(f.xs) >= limit else 0), "status flag is %r after %d of %d evaluations", flag, len(f.xs), limit)
    else:
        x = ref.scalar(res, "minimiser")
    require(lo <= x <= hi, "minimiser %r outside [%r, %r]", x, lo, hi)
    require(all(lo <= q <= hi for q in f.xs), "the target was evaluated outside [%r, %r]", lo, hi)
    require(len(f.xs) <= limit, "%d evaluations, at most %d allowed", len(f.xs), limit)
    best = min(f.fs)
    got = [v for q, v in zip(f.xs, f.fs) if q == x]
    require(got and got[0] == best, "reported point has value %r, but %r was seen at %r", got[:1], best, f.xs[f.fs.index(best)])
    return x


@st.composite
def min_any(draw):
    """Multimodal targets: the result is the best point evaluated."""
    lo = draw(st.integers(-200, 200)) / 8
    return {"lo": lo, "w": draw(st.integers(0, 400)) / 8, "amp": [draw(st.integers(-8, 8)) / 2 for _ in range(3)], "freq": [draw(st.integers(1, 40)) / 4 for _ in range(3)],
            "tol": draw(st.sampled_from([None, 1e-7, 0.01])), "me": draw(st.sampled_from([None, None, 2, 4, 8, 20]))}


def check_min_any(case):
    f = Probe(lambda x: sum(a * math.sin(q * x) for a, q in zip(case["amp"], case["freq"])) + 0.01 * x * x)
    lo, hi = case["lo"], case["lo"] + case["w"]
    kw = {k: v for k, v in (("tolerance", case["tol"]), ("max_evaluations", case["me"])) if v is not None}
    unpack_min(call(O.fminbound, f, lo, hi, detailed_output=True, **kw), True, f, lo, hi, 500 if case["me"] is None else case["me"])
    return ["point" if lo == hi else "interval"]


@st.composite
def min_bad(draw):
    return {"k": draw(st.sampled_from(["order", "inf", "-inf", "nan"])), "a": draw(st.integers(-50, 50)), "w": draw(st.integers(1, 40)) / 4, "side": draw(st.booleans())}


def check_min_bad(case):
    f = lambda x: x * x                                       # noqa: E731
    if case["k"] == "order":
        expect_raises(ValueError, O.fminbound, f, case["a"] + case["w"], case["a"])
    else:
        v = float(case["k"])
        expect_raises(ValueError, O.fminbound, f, *((v, case["a"]) if case["side"] else (case["a"], v)))
    return [case["k"]]


PROPERTIES = [
    Property("S11", [
        Facet("cdf-sf", points(-37.0, 37.0), check_cdf, "every case", quick=2500),
        Facet("pdf", pdf_case(), check_pdf, "every case", quick=2000),
        Facet("logs", points(-36.0, 36.0, inf=False), check_logs, "every case", quick=1500),
        Facet("refusals", normal_bad(), check_normal_bad, "every case", quick=250),
    ], ["log_sf is judged up to x = 5 and log_pdf up to 35 deviations: the logarithm is taken of a floating-point probability"]),
    Property("S12", [
        Facet("reference", test_case(), check_tests, "every judged case", quick=2500),
        Facet("smallest-samples", st.builds(lambda s, a, b: {"seed": s, "ns": a, "nk": b}, g.SEEDS, st.integers(8, 10), st.integers(5, 8)), check_test_edge, "every case", quick=300),
        Facet("refusals", test_bad(), check_test_bad, "every case", quick=200),
    ], ["non-constant samples; skewness closer to 0 than 1e-9 is not judged"]),
    Property("S13", [
        Facet("one-root", root_case(), check_root, "every case", quick=4000),
        Facet("several-roots", root_poly(), check_root_poly, "opposite signs at the ends", quick=1500, nontrivial=lambda c, l: "sign-change" in l),
        Facet("refusals", root_bad(), check_root_bad, "every case", quick=400),
    ]),
    Property("S14", [
        Facet("unimodal", min_case(), check_min, "every case", quick=3000),
        Facet("multimodal", min_any(), check_min_any, "every case", quick=1500),
        Facet("refusals", min_bad(), check_min_bad, "every case", quick=200),
    ], ["finite targets; max_evaluations >= 2"]),
]
