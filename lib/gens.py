"""Generators. Every strategy yields JSON-able specs; `signal(spec)` etc. turn them into arrays."""
import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2 ** 31 - 1)


# ------------------------------------------------------------------ expansion of specs

_DATA = []


def dataset():
    """The columns of the velocimeter records shipped with the project (none if they are absent)."""
    if not _DATA:
        cols = []
        for name in ("first.csv", "second.csv"):
            try:
                t = np.genfromtxt("/repo/dataset/" + name, delimiter=",", skip_header=1)
                cols += [c for c in t.T if np.all(np.isfinite(c)) and c.size > 5000]
            except (OSError, ValueError):
                pass
        _DATA.append(cols)
    return _DATA[0]


def signal(spec):
    """Spec -> float64 array."""
    k = spec["k"]
    if k == "v":
        return np.array(spec["v"], dtype=float)
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    if k == "white":
        x = rng.normal(size=n)
    elif k == "uniform":
        x = rng.uniform(-1, 1, n)
    elif k == "ar":
        e = rng.normal(size=n + 50)
        x = np.empty(n + 50)
        a = 0.95
        x[0] = e[0]
        for i in range(1, n + 50):
            x[i] = a * x[i - 1] + e[i]
        x = x[50:] / 3.2
    elif k == "sine":
        t = np.arange(n)
        x = np.sin(2 * np.pi * t / rng.uniform(5, 60) + rng.uniform(0, 6)) + 0.15 * rng.normal(size=n)
    elif k == "walk":
        x = np.cumsum(rng.normal(size=n)) / max(1.0, np.sqrt(n))
    elif k == "heavy":
        x = rng.standard_t(2.5, size=n)
    elif k == "skewed":
        x = rng.exponential(size=n) - 1
    elif k == "lattice":
        x = rng.integers(-4, 5, n).astype(float)
    elif k == "ramp":
        x = np.linspace(-1, 1, n) + 0.05 * rng.normal(size=n)
    elif k == "real" and dataset():
        d = dataset()[int(rng.integers(len(dataset())))]
        a = int(rng.integers(0, d.size - n)) if n < d.size else 0
        x = np.resize(d[a:a + n], n)
        x = (x - np.mean(d)) / np.std(d)
    elif k == "real":
        x = np.sin(np.arange(n) / 9.0) + 0.4 * rng.normal(size=n)
    elif k == "const":
        x = np.ones(n)
    elif k == "square":
        x = np.where(np.arange(n) % 7 < 4, 1.0, -1.0) * (1 + 0.01 * rng.normal(size=n))
    else:
        raise ValueError(k)
    x = x * spec.get("scale", 1.0)
    m = spec.get("spikes", 0)
    if m and n > 2:
        pos = rng.integers(0, n, m)
        x[pos] += rng.choice([-1.0, 1.0], m) * rng.uniform(4, 15, m) * (np.std(x) + spec.get("scale", 1.0) * 0.05)
        if m > 2:
            p = int(pos[0])
            x[p:p + 3] = x[p]
    p = spec.get("post")
    k = max(2, n // 5)
    if p == "up":
        x = np.sort(x)
    elif p == "down":
        x = np.sort(x)[::-1].copy()
    elif p == "mirror":
        x[n - n // 2:] = x[:n // 2][::-1]
    elif p == "twice":
        x = np.repeat(x, 2)[:n]
    elif p == "head":
        x[:k] = 0.0
    elif p == "tail":
        x[n - k:] = x[n - k]
    elif p == "period":
        x = np.resize(x[:k], n)
    elif p in ("tower", "pit"):
        x[int(rng.integers(n))] += (60.0 if p == "tower" else -60.0) * np.std(x)
    elif p == "centre":
        x = x - np.mean(x)
    x = x + spec.get("offset", 0.0)
    if spec.get("dec") is not None:
        x = np.around(x, spec["dec"])
    return x


NARROW = ("int32", "int16", "uint16", "int8", "uint8")


def as_kind(x, kind):
    """The same samples in another container / dtype / memory layout."""
    x = np.asarray(x)
    if kind == "list":
        return [v.item() for v in x]
    if kind == "tuple":
        return tuple(v.item() for v in x)
    if kind == "strided":
        b = np.full(2 * x.size + 1, 777, dtype=x.dtype)
        b[1::2][:x.size] = x
        return b[1::2][:x.size]
    if kind == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == "column":
        b = np.full((x.size, 3), 777, dtype=x.dtype)
        b[:, 1] = x
        return b[:, 1]
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if kind == "int":
        return np.rint(x).astype(np.int64)
    if kind in NARROW:
        i = np.iinfo(kind)
        return np.clip(np.rint(x), i.min, i.max).astype(kind)
    if kind == "intlist":
        return [int(v) for v in np.rint(x)]
    if kind == "float32":
        return x.astype(np.float32)
    return x.copy()


LAYOUTS = ["plain", "plain", "strided", "reversed", "column", "readonly"]
layouts = st.sampled_from(LAYOUTS)
# layouts plus integer records of every width and plain Python containers
ANY = LAYOUTS * 2 + ["int", "int16", "uint8", "uint16", "list", "tuple", "intlist"]
anykind = st.sampled_from(ANY)


# ------------------------------------------------------------------ strategies

SCALES = [1.0, 1.0, 0.01, 0.1, 5.0, 30.0, 250.0, 1e4]
OFFSETS = [0.0, 0.0, 0.0, 1.0, -3.0, 25.0, -100.0, 1234.5]
# mostly velocity-like magnitudes, sometimes arbitrary ones
SCALE = st.one_of(st.sampled_from(SCALES), st.sampled_from(SCALES), st.sampled_from(SCALES), st.floats(-6.0, 7.0).map(lambda e: 10.0 ** e))
OFFSET = st.one_of(st.sampled_from(OFFSETS), st.sampled_from(OFFSETS), st.sampled_from(OFFSETS), st.floats(-1e6, 1e6))
POSTS = [None] * 20 + ["up", "down", "mirror", "twice", "head", "tail", "period", "tower", "pit", "centre"]
FAMILIES = ["white", "uniform", "ar", "sine", "walk", "heavy", "skewed", "lattice", "ramp", "square", "real"]


@st.composite
def values(draw, lo, hi):
    """Explicit small records: a few alphabets, shrinks well."""
    n = draw(st.integers(lo, hi))
    mode = draw(st.sampled_from(["i16", "i8", "tiny", "const", "ties", "i16", "i8", "tiny", "near", "wide", "sorted"]))
    if mode == "const":
        c = draw(st.sampled_from([0.0, 1.0, -2.5, 7.25, 100.0]))
        return {"k": "v", "v": [c] * n}
    if mode == "i16":
        b = draw(st.binary(min_size=2 * n, max_size=2 * n))
        div = draw(st.sampled_from([1.0, 8.0, 100.0, 1000.0]))
        v = [int(z) / div for z in np.frombuffer(b, dtype="<i2")]
    else:
        b = draw(st.binary(min_size=n, max_size=n))
        a = np.frombuffer(b, dtype="i1").astype(int)
        if mode == "i8":
            v = [int(z) / 4.0 for z in a]
        elif mode == "near":
            # values that differ only in their last digits
            c = draw(st.sampled_from([1.0, -3.7, 25.0, 0.001, 812.5]))
            v = [c * (1 + int(z % 7) * 2.0 ** -40) for z in a]
        elif mode == "wide":
            v = [(int(z) / 16.0) * 10.0 ** int(z % 9 - 4) for z in a]
        elif mode == "sorted":
            v = sorted((int(z) / 8.0 for z in a), reverse=bool(n % 2))
        elif mode == "tiny":
            v = [float(z % 5 - 2) for z in a]
        else:
            v = [float(z % 2) * 3 - 1 for z in a]
    return {"k": "v", "v": v}


@st.composite
def generated(draw, lo, hi, families=None, scales=None, offsets=None, max_spikes=6, dec=True, shapes=True):
    n = draw(st.integers(lo, hi))
    spec = {"k": draw(st.sampled_from(families or FAMILIES)), "seed": draw(SEEDS), "n": n,
            "scale": draw(SCALE if scales is None else st.sampled_from(scales)), "offset": draw(OFFSET if offsets is None else st.sampled_from(offsets)),
            "spikes": draw(st.integers(0, max_spikes)) if max_spikes else 0,
            "dec": draw(st.sampled_from([None, None, 4, 2, 0])) if dec else None}
    if shapes:
        p = draw(st.sampled_from(POSTS))
        if p:
            spec["post"] = p
    if scales is None and draw(st.integers(0, 4)) == 0:
        # everything in proportion: tiny and huge records with the same relative structure
        spec["scale"] = draw(st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 1e5, 1e6, 1e7])) * draw(st.sampled_from([1.0, 2.5, 7.0]))
        spec["offset"] *= spec["scale"] / 100.0
        spec["dec"] = None
    return spec


def record(lo=1, small=40, mid=400, big=4000, **kw):
    """Records of every size class: explicit small ones, generated medium and long ones."""
    opts = [values(lo, max(lo, small))] * 4 + [generated(max(lo, 2), max(mid, lo), **kw)] * 4
    if big:
        opts += [generated(mid, big, **kw)]
    mixed = st.one_of(*opts)
    if big < 1000:
        return mixed
    # one record in thirty is as long as the ones users really have (the shipped ones have 18000 samples)
    return st.integers(0, 29).flatmap(lambda k: mixed if k < 29 else st.one_of(generated(min(big, 5000), 5000, **kw), generated(4097, 10000, **kw), generated(10000, 20000, **kw)))


@st.composite
def spike_set(draw, n, lo=0, hi=None, allow_empty=True, allow_all=False):
    """Sorted flagged indices in [lo, hi): singles, runs, both ends, dense, empty, everything."""
    hi = n if hi is None else min(hi, n)
    if hi <= lo:
        return []
    mode = draw(st.sampled_from(["few", "few", "runs", "runs", "ends", "dense", "long", "huge", "comb", "empty", "one"]
                                + (["all"] if allow_all else [])))
    out = set()
    if mode == "empty" and allow_empty:
        return []
    if mode == "all":
        return list(range(lo, hi))
    if mode in ("few", "empty"):
        out |= set(draw(st.lists(st.integers(lo, hi - 1), min_size=1, max_size=8)))
    elif mode == "one":
        out.add(draw(st.integers(lo, hi - 1)))
    elif mode == "runs":
        for s, ln in draw(st.lists(st.tuples(st.integers(lo, hi - 1), st.integers(1, 9)), min_size=1, max_size=5)):
            out |= set(range(s, min(s + ln, hi)))
    elif mode == "long":
        s, ln = draw(st.tuples(st.integers(lo, hi - 1), st.integers(10, 60)))
        out |= set(range(s, min(s + ln, hi)))
    elif mode == "huge":
        s = draw(st.integers(lo, hi - 1))
        out |= set(range(s, min(s + draw(st.integers(1, hi - lo)), hi)))
    elif mode == "comb":
        k = draw(st.integers(2, 12))
        out |= set(range(lo + draw(st.integers(0, k - 1)), hi, k))
        if not out:
            out.add(lo)
    elif mode == "ends":
        a, b = draw(st.integers(0, 4)), draw(st.integers(0, 4))
        out |= set(range(lo, min(lo + a, hi))) | set(range(max(lo, hi - b), hi))
        out |= set(draw(st.lists(st.integers(lo, hi - 1), max_size=3)))
    elif mode == "dense":
        sd = draw(SEEDS)
        p = draw(st.sampled_from([0.1, 0.3, 0.6]))
        out |= {int(i) + lo for i in np.nonzero(np.random.default_rng(sd).random(hi - lo) < p)[0]}
    out = sorted(out)
    if not allow_all and len(out) == n:
        out = out[:-1]
    if not out and not allow_empty:
        out = [draw(st.integers(lo, hi - 1))]
    return out


@st.composite
def kalman_params(draw):
    """Covariances whose ratios stay below 1e5 (the update (1 - k) p loses digits beyond that)."""
    r = draw(st.one_of(st.sampled_from([1e-3, 0.1, 0.5, 1.0, 30.0]), st.floats(1e-6, 1e4)))
    amount = st.one_of(st.sampled_from([0.0, 1e-4, 0.1, 1.0, 25.0]), st.floats(-7.0, 4.9).map(lambda e: 10.0 ** e))
    return {"s0": draw(st.integers(-80, 80)) / 4, "p0": draw(amount) * r, "q": draw(amount) * r, "r": r}


def size_of(spec):
    return len(spec["v"]) if spec["k"] == "v" else spec["n"]


def idx(spikes, kind="int64"):
    if kind in ("list", "tuple"):
        return list(spikes) if kind == "list" else tuple(spikes)
    return np.array(spikes, dtype=np.int32 if kind == "int32" else np.int64)
