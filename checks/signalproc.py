"""S15..S21: fluid statistics, synthetic noise, spectra, Butterworth filters."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gens as g
from lib import ref
from lib.harness import Facet, Property, Reject, call, expect_raises, require
from proadv.statistics.signal import butter as B
from proadv.statistics.signal import fluid, spectrum, synthetic

# ------------------------------------------------------------------ S15 turbulence statistics


@st.composite
def fluid_case(draw):
    n = draw(st.one_of(st.integers(1, 30), st.integers(30, 300), st.integers(300, 2500)) if draw(st.integers(0, 29)) else st.integers(2500, 20000))
    one = lambda: draw(g.generated(n, n, scales=[1.0, 0.01, 30.0, 3000.0, 1e-5, 4e6], offsets=[0.0, 5.0, -120.0, 2e4]))   # noqa: E731
    return {"u": one(), "v": one(), "w": one(), "mix": draw(st.sampled_from([0.0, 0.7, -1.5])), "kind": draw(st.sampled_from(["plain", "plain", "int", "strided", "readonly", "column", "float32", "list", "tuple", "intlist", "int16", "uint8", "reversed"])),
            "kinds": draw(st.one_of(st.none(), st.none(), st.tuples(*[st.sampled_from(["plain", "int", "int16", "list", "strided", "float32"])] * 3))),
            "same": draw(st.sampled_from([None] * 8 + ["uv", "vw", "uw", "uvw"])), "seed": draw(g.SEEDS)}


def check_fluid(case):
    u, v, w = (g.signal(case[k]) for k in "uvw")
    v = v + case["mix"] * u
    raw = [g.as_kind(q, k) for q, k in zip((u, v, w), case.get("kinds") or [case["kind"]] * 3)]
    same = case.get("same") or ""
    for i in range(1, 3):                       # the same array object may be passed for two components
        if "uvw"[i] in same and len(same) > 1 and same[0] != "uvw"[i]:
            raw[i] = raw["uvw".index(same[0])]
    u, v, w = (np.asarray(q).astype(float) for q in raw)
    d = [q - ref.fmean(q) for q in (u, v, w)]
    d = [q - ref.fmean(q) for q in d]
    pairs = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    want = [math.fsum((d[i] * d[j]).tolist()) / u.size for i, j in pairs]
    res = call(fluid.reynolds_stresses, *raw)
    require(len(res) == 6, "expected six stresses, got %d", len(res))
    got = [ref.scalar(q, "Reynolds stress") for q in res]
    f32 = "float32" in [case["kind"]] + list(case.get("kinds") or [])
    e = 2e-4 if f32 else 1e-9
    s = [ref.fstd(q) for q in (u, v, w)]
    m = [(3e-6 if f32 else 1e-12) * ref.mag(q) for q in (u, v, w)]
    for (i, j), a, b in zip(pairs, got, want):
        tol = e * s[i] * s[j] + m[i] * m[j] + m[i] * s[j] + s[i] * m[j]
        require(abs(a - b) <= tol, "stress of components %d and %d is %r, expected %r", i, j, a, b)
        require(abs(a) <= math.sqrt(max(got[i], 0) * max(got[j], 0)) * (1 + 1e-6) + tol + 1e-12, "stress %r of components %d and %d exceeds the product of deviations", a, i, j)
    k = ref.scalar(call(fluid.kinetic_turbulent_energy, *raw), "kinetic turbulent energy")
    kw = 0.5 * (want[0] + want[1] + want[2])
    tol = e * kw + sum(2 * a * b + a * a for a, b in zip(m, s))
    require(k >= 0 and abs(k - kw) <= tol, "kinetic turbulent energy is %r, expected %r", k, kw)
    # constants and common reordering change nothing
    p = np.random.default_rng(case["seed"]).permutation(u.size)
    k2 = ref.scalar(call(fluid.kinetic_turbulent_energy, u[p] + 8.0, v[p] - 3.0, w[p] + 0.5), "kinetic turbulent energy")
    require(abs(k2 - kw) <= tol + 1e-10 * (kw + 10) * 1e-2 + sum(1e-11 * q for q in s), "kinetic turbulent energy changed from %r to %r after adding constants", kw, k2)
    r2 = [ref.scalar(q, "Reynolds stress") for q in call(fluid.reynolds_stresses, u[p] + 8.0, v[p] - 3.0, w[p] + 0.5)]
    for (i, j), a, b in zip(pairs, r2, want):
        require(abs(a - b) <= 1e-9 * s[i] * s[j] + m[i] * m[j] + m[i] * s[j] + s[i] * m[j] + 1e-10 * (s[i] + s[j]) + 1e-12, "stress of components %d and %d changed from %r to %r after adding constants", i, j, b, a)
    k3 = ref.scalar(call(fluid.kinetic_turbulent_energy, *(-3.0 * q for q in (u, v, w))), "kinetic turbulent energy")
    require(abs(k3 - 9 * kw) <= 9 * tol, "kinetic turbulent energy changed from %r to %r after scaling by -3", kw, k3)
    return ["varied" if max(s) > 0 else "flat"]


# ------------------------------------------------------------------ S16 synthetic noise

@st.composite
def noise_case(draw):
    big = draw(st.integers(0, 29)) == 0
    n = draw(st.integers(900, 5000) if big and draw(st.integers(0, 3)) else st.integers(10001, 20000) if big else st.one_of(st.integers(1, 40), st.integers(40, 400), st.integers(400, 900)))
    sig = draw(g.generated(n, n, scales=[0.05, 1.0, 12.0, 1e-4, 1e5], offsets=[3.0, -2.0, 40.0, 0.5, 1e4], max_spikes=2))
    return {"x": sig, "p": draw(st.sampled_from([0.1, 0.3, 0.05]) if n > 10000 else st.sampled_from([0.1, 1, 3, 5.5]) if big else st.one_of(st.sampled_from([0, 1, 2, 5, 10, 50, 99, 100, 0.5, 2.5, 33.3]), st.integers(0, 100), st.floats(0.01, 100))), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "kind": draw(st.sampled_from(["plain", "plain", "strided", "readonly", "int", "int16", "uint8", "reversed", "column"]))}


def check_noise(case):
    x = g.as_kind(g.signal(case["x"]), case["kind"])
    y = np.asarray(x).astype(float)
    n, p = y.size, case["p"]
    m = ref.fmean(y)
    np.random.seed(case["seed"])
    r = ref.arr(call(synthetic.synthetic_noise, x, p), n, "polluted record")
    require(np.array_equal(np.asarray(x).astype(float), y), "synthetic_noise changed the caller's data")
    np.random.seed(case["seed"])
    r2 = ref.arr(call(synthetic.synthetic_noise, x, p), n, "polluted record")
    require(np.array_equal(r, r2), "not reproducible with the same numpy seed")
    want = int(n * p / 100)
    diff = r - y
    idx = np.nonzero(diff)[0]
    if p == 0:
        require(idx.size == 0, "zero percent pollution changed samples %s", idx[:5].tolist())
        return ["none"]
    if abs(m) * min(p, 1) < 1e-6 * max(ref.mag(y), 1e-9):
        raise Reject()
    require(idx.size == want, "%d samples perturbed, %r %% of %d is %d", idx.size, p, n, want)
    ratio = diff[idx] / m
    e = 1e-9 + 1e-12 * ref.mag(y) / abs(m) + 1e-12 * p
    sign = np.where(np.arange(want) % 2 == 0, 1.0, -1.0)
    require(np.all(ratio * sign > 0), "the perturbations do not alternate in sign (starting upwards for a positive mean)")
    a = np.abs(ratio) - p
    off = (a < -e) | (a > 0.5)
    require(not np.any(off), "perturbations of %s times the mean, expected %r plus the magnitude of a 0.05-deviation normal", ratio[off][:3].tolist(), p)
    if want > 1 and e < 1e-6:
        require(np.ptp(a) > 0, "all perturbations have the same random part")
    if want >= 60:
        # mean of |N(0, 0.05)| is 0.0399; deviation of the mean is 0.030 / sqrt(count)
        require(abs(float(np.mean(a)) - 0.0399) <= 7 * 0.0302 / math.sqrt(want) + e, "mean random part %r, expected about 0.0399 (count %d)", float(np.mean(a)), want)
    return ["perturbed"]


@st.composite
def noise_place_case(draw):
    return {"n": draw(st.integers(2, 12)), "p": draw(st.sampled_from([25, 50, 75])), "seed": draw(st.integers(0, 2 ** 31 - 1))}


def check_noise_place(case):
    """Every position is equally likely to be perturbed (fixed seed, 300 draws, 7-sigma bounds)."""
    n, k, T = case["n"], int(case["n"] * case["p"] / 100), 300
    if k == 0:
        raise Reject()
    x = np.full(n, 2.0)
    np.random.seed(case["seed"])
    hits = np.zeros(n)
    for _ in range(T):
        hits += ref.arr(call(synthetic.synthetic_noise, x, case["p"]), n, "polluted record") != 2.0
    q = k / n
    sd = math.sqrt(T * q * (1 - q))
    require(np.all(np.abs(hits - T * q) <= 7 * sd + 1e-9), "positions are perturbed %s times in %d draws, expected about %.0f each", hits.astype(int).tolist(), T, T * q)
    return ["placed"]


# ------------------------------------------------------------------ S17 spectra

@st.composite
def spec_case(draw):
    big = draw(st.integers(0, 19)) == 0
    block = draw(st.one_of(st.integers(257, 3000), st.sampled_from([512, 1000, 1024, 1999, 4096])) if big else st.one_of(st.integers(4, 40), st.sampled_from([64, 100, 128, 256]), st.integers(41, 256)))
    n = draw(st.one_of(st.integers(block, 4 * block), st.integers(block, block + 600))) if draw(st.integers(0, 39)) else draw(st.integers(max(block, 4000), 20000))
    return {"x": draw(g.generated(n, n, scales=[1.0, 0.1, 30.0, 1e-5, 1e6], offsets=[0.0, 4.0, -50.0], max_spikes=2)), "block": block, "fs": draw(st.one_of(st.sampled_from([1.0, 25, 50.0, 100, 200.0, 0.5]), st.floats(0.01, 5000))),
            "ov": draw(st.one_of(st.sampled_from([None, 0, 25, 50, 75, 90, 33.3]), st.integers(0, 95) if big or block < 20 else st.integers(0, 99), st.floats(0, 95))), "one": draw(st.sampled_from([None, True, False])),
            "kind": draw(st.sampled_from(["plain", "list", "strided", "readonly", "reversed", "column", "tuple", "int"])), "default": draw(st.integers(0, 30)) == 0}


def welch(y, fs, block, noverlap, one):
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(block) / (block - 1))
    step = block - noverlap
    acc, k = np.zeros(block), 0
    for a in range(0, y.size - block + 1, step):
        seg = y[a:a + block]
        f = np.fft.fft((seg - np.mean(seg)) * w)
        acc += np.abs(f) ** 2
        k += 1
    p = acc / k / (fs * float(np.sum(w * w)))
    if not one:
        return np.fft.fftfreq(block, 1 / fs), p
    h = block // 2 + 1
    q = p[:h].copy()
    if block % 2 == 0:
        q[1:-1] *= 2
    else:
        q[1:] *= 2
    return np.arange(h) * fs / block, q


def check_spec(case):
    block, ov, one = case["block"], case["ov"], case["one"]
    spec = dict(case["x"])
    kw = {}
    if case["default"]:
        spec["n"] = 2048 + 37 * (spec["n"] % 60)
        block = 2048
    else:
        kw["block"] = block
    if ov is not None:
        kw["overlap"] = ov
    if one is not None:
        kw["onesided"] = one
    x = g.as_kind(g.signal(spec), case["kind"])
    y = np.asarray(x).astype(float)
    res = call(spectrum.power_spectra, x, case["fs"], **kw)
    require(len(res) == 2, "expected (frequencies, densities)")
    nov = int(block * (50 if ov is None else ov) / 100)
    fw, pw = welch(y, float(case["fs"]), block, nov, True if one is None else one)
    fr = ref.arr(res[0], fw.size, "frequencies")
    pr = ref.arr(res[1], pw.size, "power spectral density")
    ref.close(fr, fw, 1e-9 * case["fs"], "frequencies")
    ref.close(pr, pw, 1e-9 * float(np.max(np.abs(pw))) + 1e-20 * ref.mag(y) ** 2 + 1e-300, "power spectral density (block %d, overlap %r %%)" % (block, ov))
    return ["one" if one in (None, True) else "two", "odd" if block % 2 else "even"]


# ------------------------------------------------------------------ S18, S19 Butterworth

@st.composite
def butter_case(draw):
    t = draw(st.sampled_from(["lp", "hp", "bp", "bs"]))
    ag = draw(st.sampled_from([False, False, True]))
    band = t in ("bp", "bs")
    q = draw(st.integers(1, 7 if band else 10)) if draw(st.integers(0, 3)) else draw(st.integers(1, 12 if band else 20))
    fine = draw(st.booleans())
    a = draw(st.integers(2000, 998000)) / 1e6 if fine else draw(st.integers(3, 97)) / 100
    b = draw(st.integers(2000, 998000)) / 1e6 if fine else draw(st.integers(3, 97)) / 100
    a, b = min(a, b), max(a, b)
    gap = 0.01 if fine else 0.03
    if b - a < gap:
        a, b = (a, a + gap) if a + gap < 0.998 else (a - gap, a)
    scale = draw(st.one_of(st.sampled_from([1.0, 10.0, 0.1, 600.0]), st.integers(-8, 24).map(lambda k: 10.0 ** (k / 4)))) if ag else 1.0
    w = [a * scale, b * scale] if band else [a * scale]
    sr = None if ag else draw(st.one_of(st.sampled_from([None, None, None, 1.0, 2, 50.0, 100, 25.5]), st.integers(-12, 24).map(lambda k: round(10.0 ** (k / 4), 6)), st.sampled_from([1, 4, 8, 0.5, 0.1, 1000, 44100])))
    return {"t": t, "ag": ag, "q": q, "w": w, "sr": sr,
            "at": [draw(st.integers(1, 999)) / 1000 for _ in range(6)], "form": draw(st.sampled_from(["list", "array", "tuple", "scalar"])), "up": draw(st.booleans())}


def design(case, output, **over):
    """Call the designer; `w` is in half-cycles for digital filters unless a sampling rate is given."""
    sr = over.get("sr", case["sr"])
    w = [q * sr / 2 for q in case["w"]] if sr is not None else list(case["w"])
    if len(w) == 1 and case["form"] in ("scalar", "list"):
        wa = w[0] if case["form"] == "scalar" else w
    else:
        wa = {"array": np.array(w), "tuple": tuple(w)}.get(case["form"], list(w))
    kw = {"btype": case["t"], "ag": case["ag"], "output": output}
    if case["up"]:
        kw["btype"], kw["output"] = kw["btype"].upper(), kw["output"].upper()
    if sr is not None:
        kw["sr"] = sr
    if case.get("defaults"):
        if case["t"] == "bp":
            kw.pop("btype")
        if output == "nd":
            kw.pop("output")
        if not case["ag"]:
            kw.pop("ag")
    return call(B.butterworth, case["q"], wa, **kw)


def zps(res):
    require(isinstance(res, tuple) and len(res) == 3, "expected (zeros, poles, gain)")
    z, p = np.atleast_1d(np.asarray(res[0], complex)), np.atleast_1d(np.asarray(res[1], complex))
    k = np.asarray(res[2])
    require(k.size == 1 and abs(complex(k.reshape(-1)[0]).imag) == 0, "gain is not a real number: %r", res[2])
    require(np.all(np.isfinite(z)) and np.all(np.isfinite(p)), "non-finite zeros or poles")
    return z, p, float(np.real(k.reshape(-1)[0]))


def analog_lp(q, s):
    """Prototype 1 / prod(s - p_k), p_k on the left half unit circle."""
    h = np.ones_like(np.asarray(s, complex))
    for k in range(q):
        h = h / (s - np.exp(1j * np.pi * (2 * k + q + 1) / (2 * q)))
    return h


def lp_variable(case, s):
    """Prototype variable for an analogue frequency s of this filter, and the analogue edges."""
    w = case["w"] if case["ag"] else [4.0 * math.tan(math.pi * q / 2) for q in case["w"]]
    t = case["t"]
    if t == "lp":
        return s / w[0], w
    if t == "hp":
        return w[0] / s, w
    w0, bw = math.sqrt(w[0] * w[1]), w[1] - w[0]
    return ((s * s + w0 * w0) / (bw * s) if t == "bp" else bw * s / (s * s + w0 * w0)), w


def freq_points(case):
    if case["ag"]:
        top = 3 * max(case["w"])
        return np.array([1j * (top * a) for a in case["at"]]), None
    th = np.array([math.pi * a for a in case["at"]])
    z = np.exp(1j * th)
    return 4.0 * (z - 1) / (z + 1), z


def rel_close(got, want, rtol, atol, what):
    got, want = np.asarray(got, complex), np.asarray(want, complex)
    bad = ~(np.abs(got - want) <= rtol * np.abs(want) + atol)
    if np.any(bad):
        i = int(np.nonzero(bad)[0][0])
        require(False, "%s: got %r, expected %r", what, complex(got[i]), complex(want[i]))


def check_response(case):
    z, p, k = zps(design(case, "zps"))
    order = case["q"] * (1 if case["t"] in ("lp", "hp") else 2)
    require(p.size == order, "%d poles for a filter of order %d", p.size, order)
    if case["ag"]:
        require(np.all(p.real < 0), "unstable analogue filter: pole %r", complex(p[np.argmax(p.real)]))
    else:
        require(np.all(np.abs(p) < 1), "unstable digital filter: pole of modulus %r", float(np.max(np.abs(p))))
        require(z.size == order, "%d zeros for a digital filter of order %d", z.size, order)
    s, zz = freq_points(case)
    v, w = lp_variable(case, s)
    pts = s if case["ag"] else zz
    got = ref.hz(z, p, k, pts)
    want = analog_lp(case["q"], v)
    rel_close(got, want, 1e-5, 1e-7, "frequency response of the %s design" % case["t"])
    mag2 = 1.0 / (1.0 + np.abs(v) ** (2 * case["q"]))
    rel_close(np.abs(got) ** 2, mag2, 1e-5, 1e-9, "squared magnitude of the %s design" % case["t"])
    # -3 dB at every edge
    for q in case["w"]:
        e = 1j * q if case["ag"] else np.exp(1j * math.pi * q)
        m = abs(complex(ref.hz(z, p, k, np.array([e]))[0]))
        require(abs(m - math.sqrt(0.5)) <= 1e-5, "magnitude at the critical frequency %r is %r instead of 0.7071", q, m)
    # unit passband, null stopband
    far = 1e9 * max(case["w"]) if case["ag"] else None
    dc = complex(ref.hz(z, p, k, np.array([1e-12j if case["ag"] else 1.0 + 0j]))[0])
    ny = complex(ref.hz(z, p, k, np.array([1j * far if case["ag"] else -1.0 + 0j]))[0]) if not case["ag"] else None
    exp = {"lp": (1, 0), "hp": (0, 1), "bp": (0, 0), "bs": (1, 1)}[case["t"]]
    require(abs(abs(dc) - exp[0]) <= 1e-5, "gain at zero frequency is %r, expected %d", abs(dc), exp[0])
    if ny is not None:
        require(abs(abs(ny) - exp[1]) <= 1e-5, "gain at the Nyquist frequency is %r, expected %d", abs(ny), exp[1])
    return [case["t"], "analog" if case["ag"] else "digital"]


def expand(roots, k):
    c, m = np.array([k], complex), np.array([abs(k)])
    for r in roots:
        c = np.convolve(c, [1, -r])
        m = np.convolve(m, [1, abs(r)])
    return c, m


def check_forms(case):
    z, p, k = zps(design(case, "zps"))
    nd = design(case, "nd")
    require(isinstance(nd, tuple) and len(nd) == 2, "expected (numerator, denominator)")
    for name, got, roots, gain in (("numerator", nd[0], z, k), ("denominator", nd[1], p, 1.0)):
        require(np.asarray(got).dtype.kind in "fi", "%s coefficients are not real", name)
        got = np.atleast_1d(np.asarray(got, complex))
        c, m = expand(roots, gain)
        require(got.shape == c.shape, "%s has %d coefficients, the zero/pole form has %d", name, got.size, c.size)
        require(np.all(np.abs(got - c) <= 1e-9 * m + 1e-300), "%s coefficients %r do not match the zero/pole form %r", name, got[:4].tolist(), c[:4].tolist())
    sop = np.asarray(design(case, "sop"))
    require(sop.dtype.kind in "fi", "section coefficients are not real")
    sop = sop.astype(float)
    order = p.size
    require(sop.ndim == 2 and sop.shape[1] == 6 and sop.shape[0] == (order + 1) // 2, "second-order sections of shape %s for order %d", sop.shape, order)
    s, zz = freq_points(case)
    pts = s if case["ag"] else zz
    sections_equal(sop, z, p, k, pts, 0, "second-order sections")
    for row in sop:
        r = np.roots(row[3:])
        r = r[np.abs(r) > 1e-12] if not case["ag"] else r
        require(np.all(r.real < 1e-9) if case["ag"] else np.all(np.abs(r) < 1 + 1e-6), "an unstable section in a stable design")
    if not case["ag"]:
        # the sampling rate only scales the critical frequencies
        z2, p2, k2 = zps(design(case, "zps", sr=None))
        z3, p3, k3 = zps(design(case, "zps", sr=480.0))
        a, b = ref.hz(z2, p2, k2, pts), ref.hz(z3, p3, k3, pts)
        rel_close(b, a, 1e-7, 1e-9, "design at sampling rate 480 versus normalised design")
        rel_close(ref.hz(z, p, k, pts), a, 1e-7, 1e-9, "design at the given sampling rate versus normalised design")
    return [case["t"], "analog" if case["ag"] else "digital"]


def sections_equal(sop, z, p, k, pts, shift, what):
    """Product of the sections equals k*prod(s-z)/prod(s-p)*s**shift; compared as cross-multiplied polynomials."""
    num = np.array([np.prod([np.polyval(r[:3], s) for r in sop]) for s in pts])
    den = np.array([np.prod([np.polyval(r[3:], s) for r in sop]) for s in pts])
    require(np.all(den != 0), "%s have a pole at a regular point", what)
    want = ref.hz(z, p, k, pts) * np.asarray(pts) ** shift
    rel_close(num / den, want, 1e-6, 1e-9 * (1 + float(np.max(np.abs(want)))), what)


@st.composite
def butter_bad(draw):
    return {"k": draw(st.sampled_from(["nyquist", "over", "zero", "negative", "order", "single", "pair", "btype", "output", "fs-analog", "fs-array", "q-neg", "q-frac", "equal"])),
            "t": draw(st.sampled_from(["lp", "hp", "bp", "bs"])), "q": draw(st.integers(1, 6)), "a": draw(st.integers(1, 48)) / 100, "sr": draw(st.sampled_from([None, 50.0, 2.0]))}


def check_butter_bad(case):
    q, t, a, sr = case["q"], case["t"], case["a"], case["sr"]
    u = 1.0 if sr is None else sr / 2
    band = t in ("bp", "bs")
    kw = {} if sr is None else {"sr": sr}
    w = [a * u, (a + 0.5) * u] if band else a * u
    k = case["k"]
    f = B.butterworth
    if k in ("nyquist", "over"):
        v = u if k == "nyquist" else 1.7 * u
        expect_raises(ValueError, f, q, [a * u, v] if band else v, t, **kw)
    elif k in ("zero", "negative"):
        v = 0.0 if k == "zero" else -a * u
        expect_raises(ValueError, f, q, [v, a * u] if band else v, t, **kw)
        expect_raises(ValueError, f, q, [v, a] if band else v, t, ag=True)
    elif k == "order":
        expect_raises(ValueError, f, q, [(a + 0.5) * u, a * u], "bp" if t in ("lp", "bp") else "bs", **kw)
    elif k == "equal":
        expect_raises(ValueError, f, q, [a * u, a * u], "bp" if t in ("lp", "bp") else "bs", **kw)
    elif k == "single":
        expect_raises(ValueError, f, q, [a * u], "bp" if t in ("lp", "bp") else "bs", **kw)
        expect_raises(ValueError, f, q, a * u, "bp" if t in ("lp", "bp") else "bs", **kw)
    elif k == "pair":
        expect_raises(ValueError, f, q, [a * u, (a + 0.5) * u], "lp" if t in ("lp", "bp") else "hp", **kw)
    elif k == "btype":
        expect_raises((NotImplementedError, ValueError), f, q, w, "band", **kw)
    elif k == "output":
        expect_raises(ValueError, f, q, w, t, output="ba", **kw)
    elif k == "fs-analog":
        expect_raises(ValueError, f, q, w, t, ag=True, sr=100.0)
    elif k == "fs-array":
        expect_raises(ValueError, f, q, w, t, sr=[100.0, 50.0])
    elif k == "q-neg":
        expect_raises(ValueError, f, -q, w, t, **kw)
    else:
        expect_raises(ValueError, f, q + 0.5, w, t, **kw)
    return [k]


# ------------------------------------------------------------------ S20 frequency transformations

@st.composite
def roots(draw, reals, pairs, lo=0.1, hi=3.0, left=False):
    v = []
    for _ in range(draw(st.integers(0, reals))):
        a = draw(st.integers(int(lo * 64), int(hi * 64))) / 64
        v.append([-a if left or draw(st.booleans()) else a, 0.0])
    for _ in range(draw(st.integers(0, pairs))):
        a, b = draw(st.integers(int(lo * 64), int(hi * 64))) / 64, draw(st.integers(4, int(hi * 64))) / 64
        a = -a if left or draw(st.booleans()) else a
        v += [[a, b], [a, -b]]
    return v


def special(draw, v, reals, every=3):
    """Sometimes move roots onto the imaginary axis, the origin or the points +1 and -1."""
    if not v or draw(st.integers(0, every - 1)):
        return v
    out = [list(q) for q in v]
    for i, q in enumerate(out):
        if q[1] == 0 and draw(st.booleans()):
            q[0] = draw(st.sampled_from(reals))
        elif q[1] > 0 and draw(st.booleans()):
            q[0] = out[i + 1][0] = 0.0
    return out


def croots(v):
    return np.array([complex(a, b) for a, b in v]) if any(b for _, b in v) else np.array([a for a, _ in v], float)


@st.composite
def xform_case(draw):
    z, p = special(draw, draw(roots(2, 2)), [0.0, 1.0], 4), special(draw, draw(roots(3, 3, left=True)), [-1.0], 5)
    if len(z) > len(p) and draw(st.integers(0, 9)):
        z = [r for r in z if not r[1]][:len(p)]
    t = draw(st.sampled_from(["lp", "hp", "bp", "bs", "bil"]))
    if t in ("hp", "bs"):                       # these send a root at the origin to infinity
        z = [r for r in z if any(r)]
    return {"z": z, "p": p, "k": draw(st.sampled_from([1.0, 2.5, -3.0, 0.125, 1, 1e-5, -4e4, 37.5])), "t": t, "c": draw(st.integers(1, 400)) / 64 * draw(st.sampled_from([1.0, 1.0, 0.01, 30.0, 1e4])), "bw": draw(st.integers(1, 300)) / 64 * draw(st.sampled_from([1.0, 1.0, 0.05, 20.0])),
            "sr": draw(st.sampled_from([1.0, 2, 50.0, 10, 0.25, 1, 0.01, 4000.0, 0.5])), "at": [[draw(st.integers(-200, 200)) / 50, draw(st.integers(3, 200)) / 50] for _ in range(4)], "dflt": draw(st.integers(0, 6)) == 0, "lists": draw(st.booleans())}


def check_xform(case):
    z, p, k, t = croots(case["z"]), croots(case["p"]), case["k"], case["t"]
    c, bw = (1.0, 1.0) if case["dflt"] else (case["c"], case["bw"])
    za, pa = (z.tolist(), p.tolist()) if case["lists"] else (z, p)
    f = {"lp": B.low_to_low, "hp": B.low_to_high, "bp": B.low_to_band, "bs": B.low_to_stop, "bil": B.bilinear}[t]
    args = {"lp": {"dc": c}, "hp": {"dc": c}, "bp": {"pc": c, "pw": bw}, "bs": {"pc": c, "pw": bw}, "bil": {"sr": case["sr"]}}[t]
    if case["dflt"] and t != "bil":
        args = {}
    if z.size > p.size:
        expect_raises(ValueError, f, za, pa, k, **args)
        return ["improper"]
    s = np.array([complex(a, b) for a, b in case["at"]])
    sr2 = 2.0 * case["sr"]
    if t == "bil":
        if np.any(np.abs(z - sr2) < 1e-6):
            raise Reject()                    # a zero at 2*sr maps to infinity
        s = s / 2
        v = sr2 * (s - 1) / (s + 1)
    else:
        v = {"lp": s / c, "hp": c / s, "bp": (s * s + c * c) / (bw * s), "bs": bw * s / (s * s + c * c)}[t]
    if t == "bs" and np.any(np.abs(s * s + c * c) < 1e-3 * (c * c + 1)):
        raise Reject()
    z2, p2, k2 = zps(call(f, za, pa, k, **args))
    n = p.size if t in ("lp", "hp", "bil") else 2 * p.size
    require(p2.size == n, "%d poles after the %s transformation of %d", p2.size, t, p.size)
    for q in (v, s):
        for r in np.concatenate([np.atleast_1d(p), np.atleast_1d(z)]).astype(complex):
            if np.any(np.abs(v - r) < 1e-3 * (1 + abs(r))):
                raise Reject()
    want = ref.hz(z, p, k, v)
    got = ref.hz(z2, p2, k2, s)
    rel_close(got, want, 1e-6, 0.0, "%s transformation: H'(s) differs from H(mapped s)" % t)
    return [t, "none" if not p.size else "poles"]


def check_buttap(case):
    q = case["q"]
    z, p, k = zps(call(B.buttap, q))
    require(z.size == 0 and k == 1 and p.size == q, "prototype of order %d has %d zeros, %d poles, gain %r", q, z.size, p.size, k)
    require(np.all(p.real < 0) and np.all(np.abs(np.abs(p) - 1) < 1e-12), "prototype poles are not on the left half of the unit circle")
    s = 1j * np.array([0.0, 0.3, 1.0, 2.2])
    rel_close(ref.hz(z, p, k, s), analog_lp(q, s), 1e-8, 0, "prototype response of order %d" % q)
    return ["buttap"]


# ------------------------------------------------------------------ S21 conversions

@st.composite
def ptf_case(draw):
    rows = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    z = draw(roots(3, 3))
    return {"z": z, "rows": rows, "more": [[draw(st.integers(-99, 99)) / 32 for _ in z] for _ in range(max(rows, 0))], "p": draw(roots(3, 3)), "k": [draw(st.integers(-40, 40)) / 8 for _ in range(max(1, rows))],
            "konly": draw(st.booleans()), "form": draw(st.sampled_from(["array", "list"]))}


def check_ptf(case):
    z, p = croots(case["z"]), croots(case["p"])
    ks = case["k"]
    if case["rows"] and z.size:
        zz = np.array([[float(np.real(r)) + m for r, m in zip(z, row)] for row in case["more"]])
        karg = ks[0] if case["konly"] else ks
        g_, h = call(B.xyz_to_ptf, zz, p, karg)
        g_ = np.asarray(g_, complex)
        require(g_.shape == (zz.shape[0], zz.shape[1] + 1), "numerators of shape %s", g_.shape)
        for i in range(zz.shape[0]):
            c, m = expand(zz[i], ks[0] if case["konly"] else ks[i])
            require(np.all(np.abs(g_[i] - c) <= 1e-11 * m + 1e-300), "numerator %d is %r, expected %r", i, g_[i].tolist()[:4], c.tolist()[:4])
        lab = "matrix"
    else:
        g_, h = call(B.xyz_to_ptf, z.tolist() if case["form"] == "list" else z, p.tolist() if case["form"] == "list" else p, ks[0])
        g_ = np.atleast_1d(g_)
        c, m = expand(z, ks[0])
        require(g_.shape == c.shape and np.all(np.abs(g_ - c) <= 1e-11 * m + 1e-300), "numerator is %r, expected %r", g_.tolist()[:4], c.tolist()[:4])
        require(g_.dtype.kind != "c", "conjugate zeros give complex numerator coefficients")
        lab = "vector"
    h = np.atleast_1d(h)
    c, m = expand(p, 1.0)
    require(h.shape == c.shape and np.all(np.abs(h - c) <= 1e-11 * m + 1e-300), "denominator is %r, expected %r", h.tolist()[:4], c.tolist()[:4])
    require(h.dtype.kind != "c", "conjugate poles give complex denominator coefficients")
    return [lab]


@st.composite
def open_case(draw):
    one = st.tuples(st.integers(-96, 96), st.integers(-96, 96)).map(lambda q: [q[0] / 32, q[1] / 32])
    shape = draw(st.sampled_from(["free", "free", "one-off", "unbalanced", "real", "balanced", "balanced"]))
    rs = []
    for _ in range(2):
        base = draw(roots(2, 2))
        if shape == "free":
            base = draw(st.lists(one, min_size=1, max_size=6))
        elif shape == "one-off" and any(b for _, b in base):
            i = draw(st.sampled_from([i for i, q in enumerate(base) if q[1]]))
            base[i] = [base[i][0] + draw(st.sampled_from([0, 1, -1])) / 32, base[i][1] + draw(st.sampled_from([1, -1, 2])) / 32]
        elif shape == "unbalanced":
            base = base + [draw(one)]
        elif shape == "balanced":
            # as many roots above as below the axis, with the same sum, or the same real or imaginary parts, but not conjugates
            a, b, c, d, e = (draw(st.integers(-64, 64)) / 32, draw(st.integers(17, 64)) / 32, draw(st.integers(-64, 64)) / 32, draw(st.integers(17, 64)) / 32, draw(st.integers(1, 16)) / 32)
            base = base + draw(st.sampled_from([[[a + e, b], [a, -b], [c - e, d], [c, -d]], [[a, b + e], [a, -b], [c, d - e], [c, -d]], [[a, b], [a, -d], [c, d], [c, -b]], [[a, b], [-a, -b], [c, d], [c, -d]]]))
        rs.append(base)
    return {"z": rs[0], "p": rs[1], "k": draw(st.integers(-40, 40)) / 8, "seed": draw(g.SEEDS)}


def check_open(case):
    """Roots need not come in conjugate pairs here; what comes back is their polynomial, complex where it has to be."""
    rng = np.random.default_rng(case["seed"])
    z, p = rng.permutation(croots(case["z"])), rng.permutation(croots(case["p"]))
    res = call(B.xyz_to_ptf, z, p, case["k"])
    labs = []
    for name, got, rts, gain in (("numerator", res[0], z, case["k"]), ("denominator", res[1], p, 1.0)):
        got = np.atleast_1d(np.asarray(got, complex))
        c, m = expand(rts, gain)
        require(got.shape == c.shape, "%s has %d coefficients for %d roots", name, got.size, len(rts))
        require(np.all(np.abs(got - c) <= 1e-11 * m + 1e-300), "%s is %r, its roots expand to %r", name, got[:4].tolist(), c[:4].tolist())
        if np.any(np.abs(c.imag) > 1e-9 * m):
            labs.append("open")
    return labs


@st.composite
def sop_case(draw):
    ag = draw(st.sampled_from([False, False, True]))
    pg = draw(st.sampled_from([None, "ml"])) if ag else draw(st.sampled_from([None, "nr", "kd", "ml"]))
    hi = 3.0 if ag else 0.96
    m = draw(st.sampled_from([3, 3, 3, 3, 7]))
    z = special(draw, draw(roots(m, m, lo=0.05, hi=hi if ag else 1.5)), [0.0, -1.0, 1.0])
    return {"z": z, "p": special(draw, draw(roots(m, m, lo=0.05, hi=hi, left=ag)), [-0.5] if ag else [0.0, -0.5, 0.5], 5), "lists": draw(st.integers(0, 5)) == 0, "k": draw(st.integers(1, 40)) / 8 * draw(st.sampled_from([1, -1, 1, -1, 1e-6, 1e5])), "ag": ag, "pg": pg,
            "at": [[draw(st.integers(-200, 200)) / 50, draw(st.integers(3, 200)) / 50] for _ in range(4)], "seed": draw(g.SEEDS)}


def pairing_gap(z, p, eff):
    """Root patterns the kd and ml pairings cannot serve (recorded as a known finding)."""
    zr, pr = sum(1 for _, b in z if b == 0), sum(1 for _, b in p if b == 0)
    same = len(z) == len(p)
    if eff == "kd":
        zr, pr, same = zr + max(len(p) - len(z), 0), pr + max(len(z) - len(p), 0), True
    if same and zr == pr == 1:
        return False                      # one real zero for the one real pole
    return eff in ("kd", "ml") and any(b for _, b in z) and bool(zr % 2 or pr % 2)


def check_sop(case):
    z, p, k = croots(case["z"]), croots(case["p"]), case["k"]
    eff = case["pg"] or ("ml" if case["ag"] else "nr")
    rng = np.random.default_rng(case["seed"])
    z, p = rng.permutation(z), rng.permutation(p)
    za, pa = (z, p) if not case.get("lists") else (z.tolist(), p.tolist())
    kw = {} if case["pg"] is None else {"pg": case["pg"]}
    if eff == "ml" and p.size < z.size:
        expect_raises(ValueError, B.xyz_to_sop, za, pa, k, ag=case["ag"], **kw)
        return ["improper"]
    if pairing_gap(case["z"], case["p"], eff):
        # the recorded finding: some of these have no result; those that have one are judged
        try:
            sop = np.asarray(B.xyz_to_sop(za, pa, k, ag=case["ag"], **kw), float)
        except (IndexError, AssertionError):
            raise Reject()
    else:
        sop = np.asarray(call(B.xyz_to_sop, za, pa, k, ag=case["ag"], **kw), float)
    m = max(z.size, p.size)
    require(sop.ndim == 2 and sop.shape == (max(1, (m + 1) // 2), 6), "sections of shape %s for %d zeros and %d poles", sop.shape, z.size, p.size)
    pts = np.array([complex(a, b) for a, b in case["at"]])
    for r in np.concatenate([z, p, [0]]).astype(complex):
        if np.any(np.abs(pts - r) < 1e-2):
            raise Reject()
    if not case["ag"] and eff != "ml":
        require(np.all(sop[:, 3] == 1), "a digital section does not have a leading denominator coefficient of 1")
    sections_equal(sop, z, p, k, pts, 0 if eff == "ml" else p.size - z.size, "second-order sections (pairing %s)" % eff)
    return [eff, "analog" if case["ag"] else "digital", "roots" if m else "gain"]


@st.composite
def near_case(draw):
    """A pair so close to the real axis, or two pairs so close together, that only full precision keeps them apart."""
    ag = draw(st.booleans())
    a = draw(st.integers(8, 60)) / 64 * (-1 if ag else draw(st.sampled_from([1, -1])))
    e = 10.0 ** draw(st.floats(-5.8, -2.0))
    other = draw(roots(0, 2, lo=0.05, hi=0.9, left=ag))
    return {"a": a, "e": e, "ag": ag, "pg": None if ag else draw(st.sampled_from([None, "nr", "kd"])), "where": draw(st.sampled_from(["pole", "pole", "zero"])), "other": other,
            "twin": draw(st.booleans()), "k": draw(st.integers(1, 40)) / 8, "u": draw(st.integers(-40, 40)) / 16, "v": draw(st.integers(17, 60)) / 16}


def check_near(case):
    a, e = case["a"], case["e"]
    pair = [[a, e], [a, -e]]
    if case["twin"]:
        b = 0.4                          # two pairs with almost the same real part, well off the axis
        pair = [[a, b], [a, -b], [a + e, b / 2], [a + e, -b / 2]]
    p = croots(case["other"] + (pair if case["where"] == "pole" else [[q[0] * 0.5, q[1] + 0.3 if q[1] > 0 else q[1] - 0.3] for q in pair]))
    z = croots(pair) if case["where"] == "zero" else np.array([])
    kw = {} if case["pg"] is None else {"pg": case["pg"]}
    sop = np.asarray(call(B.xyz_to_sop, z, p, case["k"], ag=case["ag"], **kw), float)
    require(sop.ndim == 2 and sop.shape[1] == 6, "sections of shape %s", sop.shape)
    s = complex(a + case["u"] * e, case["v"] * e) if not case["twin"] else complex(a + 0.3, 0.6)
    r = np.concatenate([z, p, [0]]).astype(complex)
    gap = np.abs(s - r)
    if gap.min() < 0.05 * e:
        raise Reject()
    num, den = np.prod([np.polyval(q[:3], s) for q in sop]), np.prod([np.polyval(q[3:], s) for q in sop])
    want = complex(ref.hz(z, p, case["k"], [s])[0]) * s ** (0 if case["ag"] else p.size - z.size)
    tol = 1e-9 + 1e-13 * float(np.sum((abs(s) + np.abs(r)) ** 2 / np.minimum(gap, 1) ** 2))
    require(abs(num / den - want) <= tol * abs(want), "near-real roots: sections give %r, expected %r", num / den, want)
    return ["twin" if case["twin"] else "near"]


@st.composite
def sop_bad(draw):
    return {"k": draw(st.sampled_from(["pairing", "analog-pairing", "conj-zero", "conj-pole", "gain"])), "pg": draw(st.sampled_from(["nearest", "", "NR", "x"])), "an": draw(st.sampled_from(["nr", "kd"])),
            "p": draw(roots(2, 2)), "a": draw(st.integers(-60, 60)) / 64, "b": draw(st.integers(4, 60)) / 64}


def check_sop_bad(case):
    p = croots(case["p"])
    lone = np.append(p, complex(case["a"], case["b"]))
    if case["k"] == "pairing":
        expect_raises(ValueError, B.xyz_to_sop, [0.5], [0.25], 1.0, case["pg"])
    elif case["k"] == "analog-pairing":
        expect_raises(ValueError, B.xyz_to_sop, [-0.5], [-0.25], 1.0, case["an"], ag=True)
    elif case["k"] == "conj-zero":
        expect_raises(ValueError, B.xyz_to_sop, lone, np.append(p, 0.5), 1.0)
    elif case["k"] == "gain":
        p = np.append(p, 0.25)           # without any root there is nothing to convert
        expect_raises(ValueError, B.xyz_to_sop, p, p, complex(1.0 + case["a"], case["b"]))
    else:
        expect_raises(ValueError, B.xyz_to_sop, p, lone, 1.0)
    return [case["k"]]


@st.composite
def rate_bad(draw):
    return {"p": draw(roots(2, 2, left=True)), "sr": draw(st.sampled_from(["none", "pair", "list", "text"])), "v": draw(st.integers(1, 400)) / 8}


def check_rate_bad(case):
    p = croots(case["p"])
    sr = {"none": None, "pair": np.array([case["v"], 2 * case["v"]]), "list": [case["v"], case["v"]], "text": "fast"}[case["sr"]]
    expect_raises((ValueError, TypeError) if case["sr"] == "text" else ValueError, B.bilinear, np.array([]), p, 1.0, sr)
    return [case["sr"]]


def sop_known():
    try:
        B.xyz_to_sop(np.array([0.5 + 0.5j, 0.5 - 0.5j]), np.array([-0.99, 0.2 + 0.3j, 0.2 - 0.3j]), 1.0, "ml")
    except IndexError:
        return [("sop-pairing", "xyz_to_sop with zeros 0.5+-0.5j, poles -0.99 and 0.2+-0.3j, pairing 'ml' raises IndexError (a lone real pole looks for a real "
                 "zero and only complex ones are left; pairings 'kd' and 'ml' with complex zeros and an odd number of real roots)")]
    except Exception as e:  # noqa: BLE001
        return [("sop-pairing-other", "xyz_to_sop with zeros 0.5+-0.5j, poles -0.99 and 0.2+-0.3j, pairing 'ml' raises %s" % type(e).__name__)]
    return []


perturbed = lambda c, l: "perturbed" in l                     # noqa: E731

PROPERTIES = [
    Property("S15", [Facet("stresses", fluid_case(), check_fluid, "a component varies", quick=2000, nontrivial=lambda c, l: "varied" in l)]),
    Property("S16", [
        Facet("pollution", noise_case(), check_noise, "at least one sample perturbed by a non-zero percentage", quick=1500, nontrivial=perturbed),
        Facet("placement", noise_place_case(), check_noise_place, "at least one position per draw", quick=100),
    ], ["record mean not negligible against its values (perturbations are proportional to the mean); 0 <= percent <= 100; the random facets are statistical with 7-sigma bounds under fixed seeds"]),
    Property("S17", [Facet("welch", spec_case(), check_spec, "every case", quick=1500)], ["record at least one block long, overlap below 96 %"]),
    Property("S18", [Facet("response", butter_case(), check_response, "every case", quick=2500)], ["order up to 10 (band filters 7), edges between 0.01 and 0.99 of Nyquist at least 0.03 apart"]),
    Property("S19", [
        Facet("forms", st.builds(lambda c, d: dict(c, defaults=d), butter_case(), st.booleans()), check_forms, "every case", quick=1500),
        Facet("refusals", butter_bad(), check_butter_bad, "every case", quick=500),
    ], ["order up to 10 (band filters 7)"]),
    Property("S20", [
        Facet("mappings", xform_case(), check_xform, "proper, with at least one pole", quick=4000, nontrivial=lambda c, l: "poles" in l),
        Facet("prototype", st.builds(lambda q: {"q": q}, st.integers(1, 90)), check_buttap, "every case", quick=60),
        Facet("refusals", rate_bad(), check_rate_bad, "every case", quick=150),
    ], ["conjugate-closed zeros and poles away from the origin"]),
    Property("S21", [
        Facet("polynomials", ptf_case(), check_ptf, "every case", quick=2500),
        Facet("open-sets", open_case(), check_open, "coefficients that are not all real", quick=1500, nontrivial=lambda c, l: "open" in l),
        Facet("sections", sop_case(), check_sop, "at least one zero or pole, within the pairing's domain", quick=4000, nontrivial=lambda c, l: "roots" in l),
        Facet("near-roots", near_case(), check_near, "every case", quick=1200),
        Facet("refusals", sop_bad(), check_sop_bad, "every case", quick=200),
    ], ["conjugate-closed zeros and poles"], known=sop_known),
]
