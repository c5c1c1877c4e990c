"""D01..D10: spike detectors, kernel density, pollution rate."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gens as g
from lib import ref
from lib.harness import Facet, Property, Reject, call, expect_raises, helper, require
from proadv.filtration.detection import (acceleration, bivariatekernel, correlation, phasespace,
                                         poincare, pollution, spherical, trivariatekernel)
from proadv.kernel import bivariate as kbiv

SMOOTH = ["real", "white", "ar", "sine", "heavy", "skewed", "uniform", "walk", "ramp", "square", "lattice"]


def flux(lo=8, mid=300, big=3000, scales=(1.0, 5.0, 30.0, 250.0), offsets=(0.0,), families=None, spikes=6):
    """Velocity-like records large enough (in units of the 4-decimal rounding) for the detectors."""
    opts = [g.generated(lo, mid, families=families or SMOOTH, scales=list(scales), offsets=list(offsets), max_spikes=spikes)] * 5
    if big:
        opts.append(g.generated(mid, big, families=families or SMOOTH, scales=list(scales), offsets=list(offsets), max_spikes=spikes))
    mixed = st.one_of(*opts)
    if not big:
        return mixed
    long = g.generated(big, 20000, families=families or SMOOTH, scales=list(scales), offsets=list(offsets), max_spikes=4 * spikes)
    return st.integers(0, 29).flatmap(lambda k: mixed if k < 29 else long)


def some(case, labels):
    return "flags" in labels


def tags(must, must_not):
    return ["flags" if must.any() else "none", "borderline" if np.any(~must & ~must_not) else "clear"]


# ------------------------------------------------------------------ D01 acceleration

@st.composite
def accel_case(draw):
    sig = draw(g.record(lo=1, small=40, mid=300, big=3000))
    return {"x": sig, "fs": draw(st.one_of(st.sampled_from([1.0, 2, 25.0, 50.0, 100, 200.0, 1]), st.floats(0.1, 500.0))), "tag": draw(st.sampled_from([1, 2])),
            "g": draw(st.sampled_from([None, None, 980, 9.81, 1.0, 100.0])), "kg": draw(st.sampled_from([None, None, 1.5, 1.0, 0.5, 0.1, 0.01, 0.0, 3.0, 12.0, 40])),
            "ks": draw(st.one_of(st.sampled_from([None, None, 1.0, 0.0, 0.5, 1.5, 2.0, 1]), st.floats(0, 3), st.sampled_from([4.5, 7, 12.0, 30.0, -0.5, -2.0]))), "kind": draw(g.anykind),
            "fit": draw(st.integers(0, 40)), "near": draw(st.sampled_from([1.0005, 0.9995, 1.00001, 1.1]))}


def check_accel(case):
    x = g.as_kind(g.signal(case["x"]), case["kind"])
    xs = np.asarray(x, float)
    fs, gr = case["fs"], case["g"]
    if case["fit"] <= 5 and xs.size > 2 and np.any(np.diff(xs)):
        # the rate at which the default (or drawn) threshold falls next to one of this record's jumps
        a = np.sort(np.abs(np.diff(xs)))
        a = a[a > 0]
        t = (980 if gr is None else gr) * (1.5 if case["kg"] is None else case["kg"]) or 1.0
        fs = t / float(a[(case["fit"] * 7) % a.size]) * case["near"]
    elif case["fit"] > 12 and xs.size > 2:
        # choose the gravity so that the threshold falls among the accelerations of this record
        a = np.sort(np.abs(np.diff(xs))) * fs
        gr = float(a[(case["fit"] * 7) % a.size]) * 0.97
    kw = {k: v for k, v in (("gravity", gr), ("k_gravity", case["kg"]), ("k_sigma", case["ks"])) if v is not None}
    out = ref.index_set(call(acceleration.acceleration_thresholding, x, fs, case["tag"], **kw), xs.size)
    must, must_not = ref.ref_accel(xs, fs, case["tag"], 980 if gr is None else gr, 1.5 if case["kg"] is None else case["kg"],
                                   1 if case["ks"] is None else case["ks"])
    ref.verdict(out, xs.size, must, must_not, "acceleration thresholding tag %d" % case["tag"])
    return tags(must, must_not) + ["tag%d" % case["tag"]]


@st.composite
def accel_exact_case(draw):
    """Integer records where both thresholds are met exactly at some samples."""
    n = draw(st.integers(2, 30))
    return {"v": [draw(st.integers(-6, 6)) for _ in range(n)], "fs": draw(st.sampled_from([1, 2, 4])), "tag": draw(st.sampled_from([1, 2])),
            "thr": draw(st.integers(0, 16)), "two": draw(st.booleans()), "ks": draw(st.sampled_from([0, 1]))}


def check_accel_exact(case):
    v = list(case["v"])
    if case["two"]:
        v = [3 if a > 0 else -3 for a in v]
        v += [-a for a in v]                   # mean 0 and deviation 3, both exact
        ks = case["ks"]
        mean, dev = 0, 3 * ks
    else:
        m = sum(v)
        v += [-m]                              # mean 0 exactly
        ks, mean, dev = 0, 0, 0
    sg = 1 if case["tag"] == 1 else -1
    want = [i for i in range(1, len(v)) if sg * (v[i] - v[i - 1]) * case["fs"] > case["thr"] and sg * (v[i] - mean) > dev]
    out = ref.index_set(call(acceleration.acceleration_thresholding, np.array(v, float), case["fs"], case["tag"], gravity=case["thr"], k_gravity=1, k_sigma=ks), len(v))
    require(out.tolist() == want, "exact thresholds: flagged %s, strictly exceeding samples are %s", out.tolist(), want)
    return ["flags" if want else "none"]


def check_accel_tag(case):
    x = np.array(case["v"], float)
    expect_raises(ValueError, acceleration.acceleration_thresholding, x, 100, case["tag"])
    return ["refused"]


# ------------------------------------------------------------------ D02 phase space

@st.composite
def pst_case(draw):
    return {"x": draw(flux(lo=5, mid=250, big=2500, scales=(1.0, 5.0, 30.0, 250.0, 0.02, 0.003, 0.2, 4e3, 1e5, 3e6), offsets=(0.0, 0.0, 0.5, -2.0, 60.0))), "centre": draw(st.booleans()),
            "lay": draw(g.anykind)}


def check_pst(case):
    c = g.signal(case["x"])
    if case["centre"]:
        c = c - np.mean(c)
    x = g.as_kind(c, case["lay"])
    c = np.array(x, dtype=float)
    r = ref.ref_pst(c)
    if r is None:
        raise Reject()
    out = ref.index_set(call(phasespace.phasespace_thresholding, x), c.size)
    ref.verdict(out, c.size, r[0], r[1], "phase-space thresholding")
    return tags(*r)


def check_pst_axes(case):
    """The reported ellipse parameters satisfy the defining equations."""
    c = g.signal(case["x"])
    c = c - np.mean(c)
    n = c.size
    x = g.as_kind(c, case["lay"])
    c = np.array(x, dtype=float)
    dc, dc2 = call(phasespace.calculate_derivatives, x)
    dc, dc2 = ref.arr(dc, n, "first derivative"), ref.arr(dc2, n, "second derivative")
    w1 = ref.central(c, False)
    ref.check_rounded(dc, w1, 4, "first derivative")
    ref.check_rounded(dc2, ref.central(dc, False), 4, "second derivative")
    if min(ref.fstd(c), ref.fstd(dc), ref.fstd(dc2)) < 1e-4:
        raise Reject()
    p = call(phasespace.calculate_parameters, c, dc, dc2)
    require(len(p) == 11, "expected 11 parameters, got %d", len(p))
    sc, sdc, sdc2, lam, th, a1, b1, a2, b2, a3, b3 = [ref.scalar(q, "ellipse parameter", finite=False) for q in p]
    L = math.sqrt(2 * math.log(n))
    for name, got, want in (("std", sc, ref.fstd(c)), ("std of first derivative", sdc, ref.fstd(dc)), ("std of second derivative", sdc2, ref.fstd(dc2)),
                            ("universal threshold", lam, L), ("a1", a1, L * ref.fstd(c)), ("b1", b1, L * ref.fstd(dc)), ("a2", a2, L * ref.fstd(dc)),
                            ("b2", b2, L * ref.fstd(dc2)), ("theta", th, math.atan(float(np.sum(c * dc2)) / float(np.sum(c * c))))):
        require(abs(got - want) <= 1e-9 * max(1.0, abs(want)), "%s is %r, expected %r", name, got, want)
    ax, marginal = ref.ellipse_axes(L * ref.fstd(c), L * ref.fstd(dc2), th)
    if ax and marginal > 1e-6:
        t = 1e-8 / marginal
        require(abs(a3 - ax[0]) <= t * ax[0] and abs(b3 - ax[1]) <= t * ax[1], "rotated ellipse has semi-axes (%r, %r), expected %r", a3, b3, ax)
    return ["flags" if ax else "no-ellipse"]


@st.composite
def triple_case(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(12, 300)))
    one = lambda: draw(g.generated(n, n, scales=[1.0, 1.0, 0.1, 30.0, 1e3, 1e-3], offsets=[0.0, 0.0, 2.0, -50.0]))   # noqa: E731
    return {"c": one(), "dc": one(), "dc2": one(), "mix": draw(st.sampled_from([0.0, -0.3, 0.9, -1.0, -2.2])), "flat": draw(st.sampled_from([False] * 7 + [True])), "lay": [draw(g.anykind) for _ in range(3)]}


def check_pst_triple(case):
    """The ellipse equations hold for any record and derivatives handed in, however they were obtained."""
    c, dc, dc2 = (g.signal(case[k]) for k in ("c", "dc", "dc2"))
    dc2 = dc2 + case["mix"] * c
    if case["flat"]:
        dc = np.full(c.size, 0.5)
    raw = [g.as_kind(q, k) for q, k in zip((c, dc, dc2), case["lay"])]
    c, dc, dc2 = (np.array(q, float) for q in raw)
    n, cc = c.size, math.fsum((c * c).tolist())
    L, s = math.sqrt(2 * math.log(n)), [ref.fstd(q) for q in (c, dc, dc2)]
    if cc < 1e-8 or min(s[0], s[2]) < 1e-6:
        raise Reject()
    slope = math.fsum((c * dc2).tolist()) / cc
    th = math.atan(slope)
    ax, marginal = ref.ellipse_axes(L * s[0], L * s[2], th)
    if marginal < 1e-5:
        raise Reject()
    p = call(phasespace.calculate_parameters, *raw)
    require(len(p) == 11, "expected 11 parameters, got %d", len(p))
    got = [ref.scalar(q, "ellipse parameter", finite=False) for q in p]
    et = 1e-10 * (1 + math.sqrt(cc * math.fsum((dc2 * dc2).tolist())) / cc)
    e = [1e-10 * (a + ref.mag(q) * 1e-2) for a, q in zip(s, (c, dc, dc2))]
    for name, o, w, t in zip(("std", "std of first derivative", "std of second derivative", "universal threshold", "theta", "a1", "b1", "a2", "b2"), got,
                             s + [L, th, L * s[0], L * s[1], L * s[1], L * s[2]], e + [1e-12 * L, et] + [L * e[0], L * e[1], L * e[1], L * e[2]]):
        require(abs(o - w) <= t + 1e-12 * abs(w), "%s is %r, expected %r", name, o, w)
    if ax is None:
        return ["no-ellipse"]
    t = (1e-9 + et + max(a / b for a, b in zip(e[::2], s[::2]))) * 10 / marginal
    require(abs(got[9] - ax[0]) <= t * ax[0] and abs(got[10] - ax[1]) <= t * ax[1], "rotated ellipse has semi-axes (%r, %r), expected %r", got[9], got[10], ax)
    return ["flags"]


# ------------------------------------------------------------------ D03 premodification

@st.composite
def premod_case(draw):
    sig = draw(g.record(lo=2, small=40, mid=300, big=2000, offsets=[0.0, 0.0, 0.0, 1.0, -3.0]))
    c = draw(st.one_of(st.sampled_from([None, None, (1.5, 1.35), (1.0, 1.0), (0.5, 0.25), (2.0, 0.5), (1.0, 2.0), (0.0, 0.125), (12.0, 0.5), (0.25, 6.0), (40, 1)]), st.tuples(st.floats(0.1, 4), st.floats(0.1, 4))))
    return {"x": sig, "c": c, "kind": draw(g.anykind)}


def check_premod(case):
    x0 = g.signal(case["x"])
    c1, c2 = case["c"] or (1.5, 1.35)

    def stats(v):
        th = ref.fmedian(np.abs(v - ref.fmedian(v)))
        return th, c2 * th * math.sqrt(2 * math.log(v.size))
    x0 = np.array(g.as_kind(x0, case["kind"]), float)
    # the first sample has no predecessor: keep it below the threshold
    for _ in range(6):
        th, thr = stats(x0)
        if abs(x0[0]) <= thr * (1 - 1e-6) or x0[0] == 0:
            break
        x0[0] = 0.0
    th, thr = stats(x0)
    if thr > 0 and np.any(np.abs(np.abs(x0) - thr) <= 1e-9 * thr):
        raise Reject()
    if abs(x0[0]) > thr:
        raise Reject()
    x = g.as_kind(x0, case["kind"])
    kw = {} if case["c"] is None else {"c1": c1, "c2": c2}
    res = call(phasespace.phasespace_thresholding_premodification, x, **kw)
    require(isinstance(res, tuple) and len(res) == 2, "expected (data, indices), got %.80r", res)
    require(np.array_equal(np.asarray(x, float), x0), "the caller's record was changed")
    y = ref.arr(res[0], x0.size, "premodified record")
    want = x0.copy()
    rem = np.abs(x0) > thr
    for i in np.nonzero(rem)[0]:
        want[i] = want[i - 1]
    require(np.array_equal(y, want), "premodified record differs at %s: got %s want %s", np.nonzero(y != want)[0][:4].tolist(),
            y[y != want][:4].tolist(), want[y != want][:4].tolist())
    un = ref.index_set(res[1], x0.size, "unremovable indices")
    lim = c1 * th
    d = np.abs(x0) - lim
    e = 0.0 if (c1 in (0.0, 0.5, 1.0, 1.5, 2.0) and np.all(np.abs(x0 * 64 - np.rint(x0 * 64)) == 0) and ref.mag(x0) < 1e6) else 1e-9 * max(lim, 1e-12)
    ref.verdict(un, x0.size, d <= -e if e else d <= 0, d > e, "unremovable samples")
    return ["flags" if rem.any() else "none", "run" if np.any(rem[1:] & rem[:-1]) else "single"]


# ------------------------------------------------------------------ D04 velocity correlation

@st.composite
def vc_case(draw):
    n = draw(st.one_of(st.integers(3, 60), st.integers(60, 400), st.integers(400, 2500)) if draw(st.integers(0, 29)) else st.integers(2500, 20000))
    return {"n": n, "seed": draw(g.SEEDS), "fam": draw(st.sampled_from(["real", "white", "heavy", "skewed", "ar", "uniform"])),
            "sc": [draw(st.sampled_from([1.0, 0.1, 3.0, 20.0, 1.0, 0.1, 3.0, 20.0, 1e-3, 700.0, 1e5])) for _ in range(3)], "off": [draw(st.sampled_from([0.0, 5.0, -40.0, 900.0])) for _ in range(3)],
            "corr": [draw(st.sampled_from([0.0, 0.0, 0.2, -0.4, 0.8, -2.0, 2.0])) for _ in range(2)], "spikes": draw(st.integers(0, 5)), "lay": [draw(g.anykind) for _ in range(3)],
            "int": draw(st.sampled_from([False, False, False, True])), "mag": draw(st.sampled_from([1.0] * 8 + [1e-6, 1e-4, 1e-2, 1e5, 1e7])), "post": draw(st.sampled_from([None] * 9 + ["up", "down", "twice", "period"]))}


def vc_components(case):
    rng = np.random.default_rng(case["seed"])
    base = [g.signal({"k": case["fam"], "seed": case["seed"] + 7 * k + 1, "n": case["n"], "spikes": case["spikes"], "post": case["post"]}) for k in range(3)]
    u = base[0]
    v = base[1] * (1 if abs(case["corr"][0]) < 1 else 0.15) + case["corr"][0] * u
    w = base[2] * (1 if abs(case["corr"][1]) < 1 else 0.15) + case["corr"][1] * (u if rng.random() < 0.5 else v)
    out = [q * s + o for q, s, o in zip((u, v, w), case["sc"], case["off"])]
    if case.get("int"):
        out = [np.rint(q * 20) for q in out]
    return [q * case["mag"] for q in out]


def check_vc(case):
    a = [g.as_kind(q, k) for q, k in zip(vc_components(case), case["lay"])]
    u, v, w = (np.array(q, float) for q in a)
    r = ref.ref_vc(u, v, w)
    if r is None:
        raise Reject()
    must, must_not, fallback = r
    out = ref.index_set(call(correlation.velocity_correlation, *a), u.size)
    ref.verdict(out, u.size, must, must_not, "velocity correlation")
    # adding constants and reordering time must not change which samples are spikes
    rng = np.random.default_rng(case["seed"] + 1)
    perm = rng.permutation(u.size)
    o2 = ref.index_set(call(correlation.velocity_correlation, u[perm] + 3.25 * case["mag"], v[perm] - 11.5 * case["mag"], w[perm] + 0.75 * case["mag"]), u.size)
    inv = np.zeros(u.size, bool)
    inv[perm[o2]] = True
    ref.verdict(np.nonzero(inv)[0], u.size, must, must_not, "velocity correlation after shifting and reordering the record")
    return tags(must, must_not) + ["fallback" if fallback else "regular"]


def check_vc_params(case):
    """The reported threshold and deviations are sqrt(2 ln n) and the population standard deviations."""
    a = [g.as_kind(q, k if k not in ("list", "tuple", "intlist") else "plain") for q, k in zip(vc_components(case), case["lay"])]
    res = call(correlation.calculate_parameters, *a)
    require(len(res) == 4, "expected (lambda, std_u, std_v, std_w), got %.80r", res)
    got = [ref.scalar(q, "velocity-correlation parameter") for q in res]
    for name, o, w, m in zip(("universal threshold", "std of u", "std of v", "std of w"), got, [math.sqrt(2 * math.log(case["n"]))] + [ref.fstd(q) for q in a],
                             [1.0] + [ref.mag(q) for q in a]):
        require(abs(o - w) <= 1e-10 * (w + m), "%s is %r, expected %r", name, o, w)
    return ["flags"]


@st.composite
def ellipse_case(draw):
    return {"s": [draw(st.integers(1, 4000)) / 64, draw(st.integers(1, 4000)) / 64], "same": draw(st.booleans()), "th": draw(st.integers(-1570, 1570)) / 1000,
            "lam": draw(st.one_of(st.sampled_from([1.0, 1.5, 2.1459, 3.0348, 4.4]), st.floats(0.5, 6)))}


def check_ellipse(case):
    """a and b are the semi-axes of the ellipse that has these projections after a rotation by theta."""
    s1, s2 = case["s"]
    if case["same"]:
        s2 = s1 * (1 + (s2 - 31) / 600)
    th, lam = case["th"], case["lam"]
    res = call(poincare.calculate_ab, s1, s2, th, lam)
    require(isinstance(res, tuple) and len(res) == 2, "expected (a, b), got %.80r", res)
    a, b = (ref.scalar(q, "ellipse coefficient") for q in res)
    ax, marginal = ref.ellipse_axes(lam * s1, lam * s2, th)
    if abs(abs(th) - math.pi / 4) < 1e-3 or marginal < 1e-7:
        raise Reject()
    if ax is None:
        require(a == b and a >= 1e9, "degenerate ellipse gives coefficients (%r, %r)", a, b)
        return ["degenerate"]
    t = 1e-9 / min(1.0, marginal) / abs(math.cos(2 * th))
    require(abs(a - ax[0]) <= t * ax[0] and abs(b - ax[1]) <= t * ax[1], "semi-axes (%r, %r), expected %r", a, b, ax)
    return ["flags"]


@st.composite
def rho_case(draw):
    return {"x": draw(g.record(lo=1, small=20, mid=200, big=0)), "y": draw(g.SEEDS), "th": draw(st.integers(-1570, 1570)) / 1000, "a": draw(st.integers(1, 500)) / 16 * draw(st.sampled_from([1, 1, 1, 1e-4, 1e4])), "b": draw(st.integers(1, 500)) / 16 * draw(st.sampled_from([1, 1, 1, 1e-4, 1e4])),
            "kind": draw(st.sampled_from(["plain", "plain", "int", "int32", "strided", "readonly", "point", "int64 point", "swapped"]))}


def check_rho(case):
    x = g.signal(case["x"])
    y = np.random.default_rng(case["y"]).normal(size=x.size) * (1 + ref.fstd(x))
    th, a, b = case["th"], case["a"], case["b"]
    kind = case.get("kind", "plain")
    if kind in ("int", "int32", "int64 point"):
        x, y = (np.rint(np.clip(q * 8, -4e4, 4e4)) for q in (x, y))
    if kind.endswith("point"):                  # one point, as plain numbers
        x, y = x[:1], y[:1]
        r = ref.scalar(call(poincare.calculate_rho, *((int(q[0]) if kind[0] == "i" else float(q[0])) for q in (x, y)), th, a, b), "rho")
        got = np.array([r])
    else:
        one, two = (g.as_kind(q, k) for q, k in zip((x, y), ("int", "plain") if kind == "swapped" and np.all(x == np.rint(x)) else (kind if kind != "swapped" else "plain",) * 2))
        got = ref.arr(call(poincare.calculate_rho, one, two, th, a, b), x.size, "rho")
    w = (x + 1j * y) * complex(math.cos(th), -math.sin(th))       # the point turned back by theta
    want = (w.real / a) ** 2 + (w.imag / b) ** 2
    m = (np.abs(w) / min(a, b)) ** 2
    ref.close(got, want, 1e-10 * m + 1e-300, "normalised distance from the ellipse centre")
    return ["flags" if np.any(want > 1) else "none"]


# ------------------------------------------------------------------ D05 spherical

@st.composite
def sph_case(draw):
    small = draw(st.integers(0, 11)) == 0
    return {"x": draw(flux(lo=2, mid=8, big=0, scales=(1.0, 10.0, 150.0, 0.1)) if small else flux(lo=8, mid=200, big=1200, scales=(1.0, 3.0, 10.0, 40.0, 150.0, 0.1, 900.0, 2e4, 1e6), offsets=(0.0, 2.0, -30.0))),
            "it": draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(10, 200))), "m": draw(st.one_of(st.integers(-50, 50), st.integers(-50, 50).map(lambda k: k / 2), st.integers(-50, 50).map(lambda k: k / 2000), st.integers(-50, 50).map(lambda k: k * 500.0))), "lay": draw(g.anykind), "smooth": draw(st.sampled_from([0, 0, 0, 4, 12]))}


def check_sph(case):
    c = g.signal(case["x"])
    if case["smooth"] and c.size > 3 * case["smooth"]:
        k = case["smooth"]
        c = np.convolve(c, np.ones(k) / k, "same")
    x = g.as_kind(c, case["lay"])
    c = np.array(x, float)
    r = ref.ref_spherical(c)
    if r is None:
        raise Reject()
    out = ref.index_set(call(spherical.spherical_phasespace_thresholding, x, case["it"], case["m"]), c.size)
    ref.verdict(out, c.size, r[0], r[1], "three-dimensional phase-space thresholding")
    o2 = ref.index_set(call(spherical.spherical_phasespace_thresholding, c, 1, 0.0), c.size)
    require(np.array_equal(out, o2), "the result depends on the iteration counter or the running mean")
    return tags(*r)


# ------------------------------------------------------------------ D06 trivariate KDE

@st.composite
def kde_case(draw):
    lo, hi, grids = draw(st.sampled_from([(20, 140, [12, 16, 20, 25, 32])] * 8 + [(5, 20, [8, 12, 33, 50]), (140, 900, [10, 16, 21, 24]), (900, 4000, [8, 10, 12]), (4097, 20000, [6, 8, 9]), (30, 90, [40, 48, 64]), (20, 50, [80, 100, 128])]))
    lay = draw(g.anykind)
    whole = lay not in g.LAYOUTS + ["list", "tuple"]
    sig = draw(g.generated(lo, hi, families=["real", "white", "ar", "sine", "heavy", "skewed", "uniform"], scales=[8.0, 40.0] if whole else [0.05, 0.2, 1.0, 3.0, 12.0, 60.0, 0.004, 800.0, 2e5, 1e-4, 1e-6, 1e7],
                                  offsets=[0.0, 1.0, -4.0], max_spikes=5, dec=False))
    if sig["scale"] < 0.04:
        sig["offset"] *= sig["scale"]
    return {"x": sig, "grid": draw(st.sampled_from(grids)), "lay": lay, "ratio": draw(st.sampled_from([1, 1, 1, 40, 300, 0.02]))}


def check_kde(case):
    x = g.as_kind(g.signal(case["x"]), case["lay"])
    c = np.array(x, float)
    r = ref.ref_kde3d(c, case["grid"])
    if r is None:
        raise Reject()
    out = ref.index_set(call(trivariatekernel.three_dimensional_kernel, x, case["grid"]), c.size)
    ref.verdict(out, c.size, r[0], r[1], "three-dimensional kernel density detection")
    return tags(*r)


def check_kde_pair(case):
    x = g.as_kind(g.signal(case["x"]), case["lay"])
    c = np.array(x, float)
    y = g.as_kind((ref.central(c, False) if case["grid"] % 2 else 3 * np.roll(c, 1) - 0.5 * c) * case["ratio"], case["lay"])
    w = np.array(y, float)
    r = ref.ref_kde_pair(c, w, case["grid"])
    if r is None:
        raise Reject()
    res = call(trivariatekernel.kernel, x, y, case["grid"])
    require(isinstance(res, tuple) and len(res) == 2, "expected (indices, estimation), got %.80r", res)
    out = ref.index_set(res[0], c.size)
    ref.verdict(out, c.size, r[0], r[1], "kernel density detection on one projection")
    est = ref.arr(res[1], case["grid"] ** 2, "estimated density", ndim=2)
    ref.close(est, r[2], 1e-7 * r[2].max() * (1 + r[3] * 1e-6), "density reported on the grid")
    return tags(*r[:2])


# ------------------------------------------------------------------ D07 building blocks of the bivariate method

@st.composite
def profile_case(draw):
    n = draw(st.integers(4, 64) if draw(st.integers(0, 9)) else st.integers(65, 300))
    b = draw(st.binary(min_size=n, max_size=n))
    return {"f": [1 + z for z in b], "peak": draw(st.sampled_from(["max", "any"])), "pi": draw(st.integers(0, n - 1)),
            "shape": draw(st.sampled_from(["raw", "bell", "bell", "bimodal"])), "c1": draw(st.one_of(st.sampled_from([0.4, 0.1, 0.7, 1.0, 0.05, 0.0, 0.002]), st.floats(0.01, 1.3))),
            "c2": draw(st.one_of(st.sampled_from([0.4, 0.1, 2.0, 10.0, 0.01, 0.0, 0.001]), st.floats(0.01, 20))), "grid": draw(st.sampled_from([n, n, 64, 256])), "v0": draw(st.integers(-40, 40)) / 4, "amp": draw(st.sampled_from([1, 1, 1, 1e-3, 1e-5, 500.0]))}


def check_cutoff(case):
    f = np.array(case["f"], float) / 64
    n = f.size
    t = np.linspace(-1, 1, n)
    if case["shape"] == "bell":
        f = 0.003 * f + np.exp(-4 * (t - (case["pi"] / n - 0.5)) ** 2 * 3)
    elif case["shape"] == "bimodal":
        f = 0.003 * f + np.exp(-30 * (t - 0.4) ** 2) + 0.7 * np.exp(-40 * (t + 0.5) ** 2)
    f = f * case["amp"]
    p = int(np.argmax(f)) if case["peak"] == "max" else case["pi"]
    vel = case["v0"] + np.arange(n) * 0.375
    dp = float(f.max())
    lo, up, amb = ref.ref_cutoff(dp, vel, case["c1"], case["c2"], f, p, case["grid"])
    if amb:
        raise Reject()
    for mod in (bivariatekernel, trivariatekernel):
        res = helper(mod, "_cutoff", dp, vel, case["c1"], case["c2"], f, p, case["grid"])
        require(len(res) == 2, "expected (lower, upper), got %.80r", res)
        got = [ref.scalar(q, "cutoff velocity") for q in res]
        require(got == [lo, up], "cutoff velocities %r, expected %r (peak at %r)", got, [lo, up], float(vel[p]))
    return ["flags" if lo != vel[1] or up != vel[-1] else "default"]


def check_derivative(case):
    x = np.asarray(g.as_kind(g.signal(case["x"]), case["kind"]))
    d = ref.arr(helper(bivariatekernel, "_derivative", x), x.size, "derivative")
    want = np.zeros(x.size)
    for i in range(1, x.size - 1):
        b, f = x[i] - x[i - 1], x[i + 1] - x[i]
        want[i] = f if abs(b) > abs(f) else b
    require(np.array_equal(d, want), "derivative differs at %s", np.nonzero(d != want)[0][:5].tolist())
    return ["flags" if np.any(want) else "none"]


@st.composite
def rot_case(draw):
    sig = draw(flux(lo=2, mid=200, big=1500, scales=(0.1, 1.0, 30.0), offsets=(0.0, 5.0, -60.0)) if draw(st.integers(0, 9)) else flux(lo=2, mid=4, big=0))
    return {"x": sig, "slope": draw(st.integers(-30, 30)) / 8, "noise": draw(st.sampled_from([0.0, 0.3, 2.0])), "sc": draw(st.sampled_from([0.5, 1.0, 4.0])), "same": draw(st.integers(0, 19)) == 0}


def check_rotation(case):
    x = g.signal(case["x"])
    rng = np.random.default_rng(case["x"]["seed"] + 5)
    sx = ref.fstd(x)
    if sx < 1e-6:
        raise Reject()
    y = case["slope"] * (x - np.mean(x)) + case["noise"] * sx * rng.normal(size=x.size) + case["sc"]
    if case.get("same"):
        y = x
    xm, ym = x - ref.fmean(x), y - ref.fmean(y)
    want = math.atan2(float(np.sum(xm * ym)), float(np.sum(xm * xm)))
    tol = 1e-9 + 1e-13 * (ref.mag(x) / sx) * ((ref.mag(x) + ref.mag(y)) / sx + 1)      # cancellation in the two sums
    for m in (kbiv, trivariatekernel):
        t = ref.scalar(helper(m, "_rotation", x, y), "rotation angle")
        require(abs(t - want) <= tol, "rotation angle %r, expected %r (regression slope %r)", t, want, case["slope"])
    return ["flags" if case["slope"] else "none"]


# ------------------------------------------------------------------ D08 bivariate kernel density

@st.composite
def biv_case(draw):
    grid = draw(st.sampled_from([32, 32, 64, 48, 64, 40, 96, 16, 24]) if draw(st.integers(0, 15)) else st.sampled_from([128, 256]))
    lo = 2.0 / grid
    h = st.one_of(st.sampled_from([lo, lo * 1.5, lo * 2, 0.15, 0.3]), st.floats(lo, 0.4), st.floats(lo, 0.4), st.floats(0.4, 1.2))
    return {"n": draw(st.one_of(st.integers(2, 40), st.integers(40, 400)) if draw(st.integers(0, 15)) or grid > 64 else st.integers(400, 4000)), "seed": draw(g.SEEDS), "fam": draw(st.sampled_from(["white", "skewed", "uniform", "ar", "walk"])), "rho": draw(st.sampled_from([0.0, 0.6, -0.9])),
            "sc": [draw(st.sampled_from([1.0, 0.05, 20.0])), draw(st.sampled_from([1.0, 0.3, 8.0]))], "off": [draw(st.sampled_from([0.0, -7.0, 50.0])), draw(st.sampled_from([0.0, 3.0]))],
            "hx": draw(h), "hy": draw(h), "grid": grid, "kind": draw(st.sampled_from(["plain", "plain", "plain", "int", "fortran", "readonly", "part"]))}


def check_biv(case):
    a = g.signal({"k": case["fam"], "seed": case["seed"], "n": case["n"], "spikes": 0})
    b = g.signal({"k": case["fam"], "seed": case["seed"] + 1, "n": case["n"], "spikes": 0}) + case["rho"] * a
    data = np.vstack([a * case["sc"][0] + case["off"][0], b * case["sc"][1] + case["off"][1]])
    if case["kind"] == "int":
        data = np.rint(10 * data).astype(np.int64)
    if np.ptp(data[0]) == 0 or np.ptp(data[1]) == 0:
        raise Reject()
    G, hx, hy = case["grid"], case["hx"], case["hy"]
    keep = data.copy()
    if case["kind"] == "fortran":
        data = np.asfortranarray(data)
    elif case["kind"] == "readonly":
        data.flags.writeable = False
    elif case["kind"] == "part":
        data = np.vstack([data, 777 + 0 * data])[[0, 1, 2], ::1][:2][:, ::-1]
        keep = data.copy()
    res = call(kbiv.bivariate_kernel, data, hx, hy, G)
    require(len(res) == 3, "expected (density, x, y)")
    f, X, Y = (ref.arr(q, G * G, "density grid", ndim=2) for q in res)
    require(np.array_equal(data, keep), "the caller's data were changed")
    require(f.shape == X.shape == Y.shape == (G, G), "density and meshes are not %d x %d", G, G)
    mn, rg = data.min(1), np.ptp(data, axis=1)
    xs, ys = mn[0] + rg[0] * np.arange(G) / (G - 1), mn[1] + rg[1] * np.arange(G) / (G - 1)
    ref.close(X, np.tile(xs, (G, 1)), 1e-8 * (rg[0] + abs(mn[0])), "x mesh")
    ref.close(Y, np.tile(ys[:, None], (1, G)), 1e-8 * (rg[1] + abs(mn[1])), "y mesh")
    require(np.all(f >= 0), "negative density")
    vol = float(f.sum()) * rg[0] * rg[1] / (G * G)
    require(abs(vol - 1) < 0.02, "density integrates to %r", vol)
    # reference: Gaussian kernels of width (hx, hy)*range reflected at the edges of the data range
    t = (data - mn[:, None]) / rg[:, None]

    # each sample may sit up to two cells away (binning, and the mesh spanning the range with G points)
    def kern(t, h):
        ks = []
        for sc, s in [(a / G, b / G) for a in (-0.5, 0.0, 0.5) for b in (-1.5, -0.75, 0.0, 0.75, 1.5)]:
            c, ts = np.clip(np.arange(G) / (G - 1) + sc, 0, 1), np.clip(t + s, 0, 1)
            k = np.zeros((G, t.size))
            far = 1 + math.ceil(3.5 * h)
            for m in range(-far if h > 0.3 else -1, far + 1 if h > 0.3 else 2):
                k += np.exp(-0.5 * ((c[:, None] - (ts + 2 * m)) / h) ** 2) + np.exp(-0.5 * ((c[:, None] - (2 * m - ts)) / h) ** 2)
            ks.append(k / (h * math.sqrt(2 * math.pi)))
        return np.min(ks, axis=0), np.max(ks, axis=0)
    (x0, x1), (y0, y1) = kern(t[0], hx), kern(t[1], hy)
    z = t.shape[1] * rg[0] * rg[1]
    lo, hi = y0 @ x0.T / z, y1 @ x1.T / z
    slack = 0.01 * hi + 0.005 * hi.max()
    bad = (f < lo - slack) | (f > hi + slack)
    if np.any(bad):
        i = np.argwhere(bad)[0]
        require(False, "density %r at (x=%r, y=%r), kernel sum lies in [%r, %r] (%d cells off)", float(f[tuple(i)]), float(X[tuple(i)]), float(Y[tuple(i)]),
                float(lo[tuple(i)]), float(hi[tuple(i)]), int(bad.sum()))
    return ["grid%d" % G]


def check_biv_symmetry(case):
    """The order of the samples is irrelevant, and exchanging the components transposes the density."""
    a = g.signal({"k": case["fam"], "seed": case["seed"], "n": case["n"], "spikes": 0})
    b = g.signal({"k": case["fam"], "seed": case["seed"] + 1, "n": case["n"], "spikes": 0}) + case["rho"] * a
    data = np.vstack([a * case["sc"][0] + case["off"][0], b * case["sc"][1] + case["off"][1]])
    if np.ptp(data[0]) == 0 or np.ptp(data[1]) == 0:
        raise Reject()
    G, hx, hy = case["grid"], case["hx"], case["hy"]
    f = ref.arr(call(kbiv.bivariate_kernel, data, hx, hy, G)[0], G * G, "density", ndim=2)
    p = np.random.default_rng(case["seed"]).permutation(data.shape[1])
    f1 = ref.arr(call(kbiv.bivariate_kernel, np.ascontiguousarray(data[:, p]), hx, hy, G)[0], G * G, "density", ndim=2)
    ref.close(f1, f, 1e-9 * f.max(), "density after reordering the samples")
    f2 = ref.arr(call(kbiv.bivariate_kernel, np.ascontiguousarray(data[::-1]), hy, hx, G)[0], G * G, "density", ndim=2)
    ref.close(f2.T, f, 1e-9 * f.max(), "density after exchanging the components")
    return ["grid%d" % G]


@st.composite
def root_case(draw):
    return {"r": draw(st.one_of(st.integers(0, 1000), st.integers(0, 100), st.integers(0, 4000))) / 1e4, "n": draw(st.one_of(st.integers(2, 60), st.integers(60, 1200), st.integers(1, 20000))),
            "shape": draw(st.sampled_from(["line", "tanh", "exp", "cubic"])), "sgn": draw(st.sampled_from([1, -1])), "amp": draw(st.sampled_from([1.0, 0.01, 50.0]))}


def check_root(case):
    """For a monotone function the search on [0, 0.1] returns the point where it is closest to zero."""
    r, s = case["r"], case["sgn"] * case["amp"]
    fun = {"line": lambda t: s * (t - r), "tanh": lambda t: s * math.tanh(20 * (t - r)), "exp": lambda t: s * (math.exp(10 * t) - math.exp(10 * r)),
           "cubic": lambda t: s * ((t - r) + 40 * (t - r) ** 3)}[case["shape"]]
    t = ref.scalar(call(kbiv.root, fun, case["n"]), "root")
    want = min(r, 0.1)
    require(0 <= t <= 0.1 and abs(t - want) <= 1e-4, "root search returned %r, the function is closest to zero at %r", t, want)
    return ["root" if r <= 0.1 else "none"]


# ------------------------------------------------------------------ D09 pollution

@st.composite
def poll_case(draw):
    sig = draw(g.record(lo=1, small=40, mid=300, big=2000))
    return {"x": sig, "k": draw(st.one_of(st.sampled_from([0, 0.25, 0.5, 1, 1.5, 2, 3]), st.floats(0, 6), st.sampled_from([8, 10.0, 15, 40.0]))), "ref": draw(st.sampled_from(["mean", "smooth", "zero", "shift", "self", "double", "one"])), "lay": draw(st.sampled_from(g.LAYOUTS * 2 + ["int", "int16", "uint8"]))}


def check_poll(case):
    given = g.as_kind(g.signal(case["x"]), case["lay"])
    x = np.array(given, float)
    n = x.size
    one = x.copy()
    one[n // 2] += 1 + 4 * ref.fstd(x)
    f = {"one": one, "mean": np.full(n, ref.fmean(x)), "zero": np.zeros(n), "shift": x + np.where(np.arange(n) % 3 == 0, 1.0, -0.3) * (ref.fstd(x) + 0.1),
         "self": x.copy(), "double": 2 * x}.get(case["ref"])
    if f is None:
        f = np.convolve(x, np.ones(3) / 3, "same")[:n]
    sd = ref.fstd(x)
    d = np.abs(x - f) - case["k"] * sd
    e = 1e-10 * (ref.mag(x) + ref.mag(f) + 1e-9) if case["k"] else 0.0
    lo, hi = int(np.sum(d > e)), int(np.sum(d > -e)) if e else int(np.sum(d > 0))
    v = ref.scalar(call(pollution.pollution_rate, given, f, case["k"]), "pollution rate")
    require(100.0 * lo / n - 1e-9 <= v <= 100.0 * hi / n + 1e-9, "pollution rate %r, but %d..%d of %d samples deviate by more than k sigma", v, lo, hi, n)
    return ["flags" if lo else "none"]


@st.composite
def poll_exact_case(draw):
    return {"h": draw(st.lists(st.sampled_from([-2, 2]), min_size=1, max_size=20)), "xf": draw(st.integers(-3, 3)), "k": draw(st.sampled_from([0.5, 1, 1.5, 2]))}


def check_poll_exact(case):
    """Deviation exactly k sigma is not pollution: mean 0 and deviation 2 are exact here."""
    v = case["h"] + [-q for q in case["h"]]
    x, f = np.array(v, float), np.full(len(v), float(case["xf"]))
    want = 100.0 * sum(1 for q in v if abs(q - case["xf"]) > 2 * case["k"]) / len(v)
    got = ref.scalar(call(pollution.pollution_rate, x, f, case["k"]), "pollution rate")
    require(abs(got - want) < 1e-9, "pollution rate %r, strictly exceeding samples give %r", got, want)
    return ["flags" if want else "none"]


# ------------------------------------------------------------------ D10 all detectors

@st.composite
def detector_case(draw):
    d = draw(st.sampled_from(["accel", "pst", "vc", "sph", "kde"]))
    big = 120 if d == "kde" else 1500 if draw(st.integers(0, 19)) else 20000
    lay = draw(st.sampled_from(g.LAYOUTS * 2 + ["list", "tuple", "int", "int16", "intlist"]))
    sc = [5.0, 40.0] if "int" in lay else [1.0, 5.0, 40.0, 0.2, 700.0]
    return {"d": d, "x": draw(g.generated(24, 100 if d == "kde" else 250, families=SMOOTH[:7], scales=sc, offsets=[0.0], max_spikes=6, dec=False) if draw(st.integers(0, 5)) else
                              g.generated(24, big, families=SMOOTH[:7], scales=sc, offsets=[0.0], max_spikes=6, dec=False)),
            "tag": draw(st.sampled_from([1, 2])), "lay": lay}


def three(c, lay):
    """The record and two correlated companions."""
    q = [c, np.roll(c, 5) * 0.7 + 0.2 * c, np.roll(c, 11) * 1.3]
    return [np.rint(v) for v in q] if "int" in lay else q


def run_detector(d, c, tag, lay, extra=None):
    k = (lambda q: g.as_kind(q, lay))
    if d == "accel":
        return call(acceleration.acceleration_thresholding, k(c), 100.0, tag, gravity=extra)
    if d == "pst":
        return call(phasespace.phasespace_thresholding, k(c))
    if d == "sph":
        return call(spherical.spherical_phasespace_thresholding, k(c), 1, 0.0)
    if d == "kde":
        return call(trivariatekernel.three_dimensional_kernel, k(c), 16)
    return call(correlation.velocity_correlation, *[k(q) for q in three(c, lay)])


def check_detectors(case):
    c = g.signal(case["x"])
    c = np.around(c - np.mean(c), 3)          # on the detectors' own 4-decimal lattice
    if "int" in case["lay"]:
        c = np.rint(c)
    d = case["d"]
    if ref.fstd(c) < 0.05:
        raise Reject()
    gr = 100.0 * float(np.quantile(np.abs(np.diff(c)), 0.9)) / 1.5001
    before = c.copy()
    raw = run_detector(d, c, case["tag"], case["lay"], gr)
    require(getattr(raw, "dtype", np.dtype(float)).kind in "iu", "%s returns %.60r, which cannot be used as indices", d, raw)
    a = ref.index_set(raw, c.size, "indices of " + d)
    require(np.array_equal(c, before), "%s changed the caller's record", d)
    lab = [d, "flags" if a.size else "none"]
    if d == "kde":
        return lab
    tag2 = case["tag"] if d != "accel" else 3 - case["tag"]
    b = ref.index_set(run_detector(d, -c, tag2, case["lay"] if "int" in case["lay"] else "plain", gr), c.size, "indices of " + d)
    if not np.array_equal(a, b):
        # only samples numerically on a threshold may differ
        m = {"pst": lambda: ref.ref_pst(c), "vc": lambda: ref.ref_vc(*three(c, case["lay"])),
             "sph": lambda: ref.ref_spherical(c), "accel": lambda: ref.ref_accel(c, 100.0, case["tag"], gr, 1.5, 1)}[d]()
        if m is None:
            raise Reject()
        diff = np.setxor1d(a, b)
        sure = m[0] | m[1]
        require(not np.any(sure[diff]), "%s flags %s for a record and %s for its mirror image", d, np.setdiff1d(a, b)[:5].tolist(), np.setdiff1d(b, a)[:5].tolist())
    return lab


PROPERTIES = [
    Property("D01", [
        Facet("model", accel_case(), check_accel, "at least one sample clearly exceeds both thresholds", quick=3500, nontrivial=some),
        Facet("exact-thresholds", accel_exact_case(), check_accel_exact, "at least one sample flagged", quick=1500, nontrivial=some),
        Facet("bad-tag", st.builds(lambda v, t: {"v": v, "tag": t}, st.lists(st.integers(-9, 9), min_size=1, max_size=8), st.sampled_from([0, 3, -1, 5, 12, 2.5, 1.5, -2, None, '1', '2', 'positive', 1e9, -1.0])),
              check_accel_tag, "every case", quick=120),
    ], ["k_gravity*gravity >= 0; samples within rounding error of a threshold are not judged, except on integer records built to meet thresholds exactly"]),
    Property("D02", [
        Facet("ellipses", pst_case(), check_pst, "at least one sample clearly outside", quick=2500, nontrivial=some),
        Facet("parameters", pst_case(), check_pst_axes, "the rotated ellipse exists", quick=1200, nontrivial=some),
        Facet("ellipse equations", triple_case(), check_pst_triple, "the rotated ellipse exists", quick=800, nontrivial=some),
    ], ["float records whose values and derivatives have a spread well above the 4-decimal rounding of derivatives; samples whose verdict depends on that rounding are not judged"]),
    Property("D03", [Facet("model", premod_case(), check_premod, "at least one removable sample", quick=4000, nontrivial=some)],
             ["the first sample does not exceed the removal threshold (it has no predecessor)"]),
    Property("D04", [
        Facet("ellipses", vc_case(), check_vc, "at least one sample clearly outside", quick=2500, nontrivial=some),
        Facet("semi-axes", ellipse_case(), check_ellipse, "a non-degenerate ellipse", quick=1500, nontrivial=some),
        Facet("parameters", vc_case(), check_vc_params, "every case", quick=300),
        Facet("distance", rho_case(), check_rho, "a point outside the ellipse", quick=800, nontrivial=some),
    ],
             ["no component is constant; cases within rounding of a degenerate ellipse are not judged"]),
    Property("D05", [Facet("ellipsoid", sph_case(), check_sph, "at least one sample clearly outside", quick=1500, nontrivial=some)],
             ["ellipsoid semi-axes at least 0.02; the effect of the 4-decimal rounding on the verdict is computed per sample and such samples are not judged"]),
    Property("D06", [
        Facet("three-projections", kde_case(), check_kde, "at least one sample clearly outside", quick=500, nontrivial=some),
        Facet("one-projection", kde_case(), check_kde_pair, "at least one sample clearly outside", quick=500, nontrivial=some),
    ], ["cases with tied density peaks, or a cutoff criterion met with equality, are not judged"]),
    Property("D07", [
        Facet("cutoff", profile_case(), check_cutoff, "a cutoff is found before the end of the profile", quick=3000, nontrivial=some),
        Facet("derivative", st.builds(lambda x, k: {"x": x, "kind": k}, g.record(lo=1, small=40, mid=200, big=1500), st.sampled_from(["plain", "strided", "int", "readonly"])),
              check_derivative, "a non-zero derivative", quick=1500, nontrivial=some),
        Facet("rotation", rot_case(), check_rotation, "non-zero slope", quick=1200, nontrivial=some),
    ]),
    Property("D08", [
        Facet("density", biv_case(), check_biv, "every case (two non-constant components)", quick=500),
        Facet("symmetry", biv_case(), check_biv_symmetry, "every case (two non-constant components)", quick=150),
        Facet("root", root_case(), check_root, "the function has a root in [0, 0.1]", quick=800, nontrivial=lambda c, l: "root" in l),
    ],
             ["even grid, bandwidths of at least 2 cells; the mesh and the histogram are aligned only to two cells, and the comparison allows that much"]),
    Property("D09", [
        Facet("rate", poll_case(), check_poll, "at least one polluted sample", quick=3000, nontrivial=some),
        Facet("exact", poll_exact_case(), check_poll_exact, "at least one polluted sample", quick=600, nontrivial=some),
    ], ["k >= 0"]),
    Property("D10", [Facet("detectors", detector_case(), check_detectors, "at least one sample flagged", quick=1600, nontrivial=some)]),
]
