"""Search engine shared by every check: generation, shrinking, replay, evidence."""
import hashlib
import importlib
import inspect
import json
import multiprocessing as mp
import os
import pkgutil
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)     # evidence/ and replays/; overridden only by tools/mutate.py
REPO = os.environ.get("VERIF_REPO", "/repo")     # overridden only by tools/mutate.py, for scratch copies
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_TIMEOUT = 90          # one case normally takes milliseconds
SHRINK_SECONDS = 30
WALL = {"quick": 300, "thorough": 5400}
QUICK_FACTOR = 4           # the quick numbers of the facets are for a two-second run
PYVENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The code under test broke the property on this case."""


class Reject(Exception):
    """The generated case is outside the property's domain (counted, not an error)."""


class StopRun(KeyboardInterrupt):
    """Ends a shard at once (time over, or a case that never finishes)."""


class CaseTimeout(BaseException):
    pass


class Facet:
    def __init__(self, name, strategy, check, rule, quick=400, thorough=None, nontrivial=None, shards=None):
        self.name, self.strategy, self.check, self.rule = name, strategy, check, rule
        self.quick, self.thorough = quick, thorough or quick * 80
        self.nontrivial = nontrivial
        self.shards = shards


class Property:
    def __init__(self, pid, facets, assumptions=(), known=None):
        self.pid, self.facets, self.assumptions, self.known = pid, facets, list(assumptions), known


# ---------------------------------------------------------------- imports

def bootstrap():
    """Import the numeric stack from the project's venv, then proadv from /repo, then hypothesis."""
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import scipy.signal  # noqa: F401
    import scipy.stats  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import sklearn.linear_model  # noqa: F401
    numpy.seterr(all="ignore")
    sys.path.insert(0, REPO)
    # a private, empty bytecode cache: never a stale .pyc of an edited source file
    cache = tempfile.mkdtemp(prefix="vp-pyc-")
    sys.pycache_prefix = cache
    try:
        import proadv
        for m in pkgutil.walk_packages(proadv.__path__, "proadv."):
            if ".tests" not in m.name:
                importlib.import_module(m.name)
    finally:
        sys.pycache_prefix = None
        shutil.rmtree(cache, ignore_errors=True)
    if os.path.dirname(os.path.abspath(proadv.__file__)) != os.path.join(REPO, "proadv"):
        raise RuntimeError("proadv not imported from /repo: %s" % proadv.__file__)
    deps = os.path.join(VERIF, ".deps")
    for extra in ([deps] if os.path.isdir(os.path.join(deps, "hypothesis")) else []) + [PYVENV_SITE]:
        sys.path.append(extra)
    import hypothesis  # noqa: F401
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------- helpers used by checks

def call(fn, *args, **kwargs):
    """Call the code under test on a valid input: any exception is a violation."""
    try:
        return fn(*args, **kwargs)
    except (CaseTimeout, StopRun):
        raise
    except BaseException as e:  # noqa: BLE001 - includes SystemExit raised by the code under test
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%s" % (os.path.relpath(tb[-1].filename, REPO), tb[-1].lineno) if tb else "?"
        raise Violation("%s raised %s: %s (at %s) on a valid input"
                        % (getattr(fn, "__name__", fn), type(e).__name__, str(e)[:160], where)) from None


def helper(module, name, *args):
    """A semi-private helper the examples import. If a refactoring renamed it or changed its parameters, the
    facet has nothing to judge (the public entry points are judged by other facets): outside the domain."""
    fn = getattr(module, name, None)
    if not callable(fn):
        raise Reject()
    try:
        inspect.signature(fn).bind(*args)
    except TypeError:
        raise Reject() from None
    return call(fn, *args)


def expect_raises(excs, fn, *args, **kwargs):
    """The call must be refused with one of these exception types."""
    names = "/".join(e.__name__ for e in (excs if isinstance(excs, tuple) else (excs,)))
    try:
        r = fn(*args, **kwargs)
    except excs:
        return
    except (CaseTimeout, StopRun):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("%s raised %s (%s) where %s is documented"
                        % (fn.__name__, type(e).__name__, str(e)[:120], names)) from None
    raise Violation("%s accepted an invalid input (returned %.120r) where %s is documented" % (fn.__name__, r, names))


def require(cond, msg, *fmt):
    if not cond:
        raise Violation(msg % fmt if fmt else msg)


def _alarm(signum, frame):
    raise CaseTimeout()


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def run_case(facet, case):
    """Evaluate one case. Returns (labels, None) or (labels, message of the violation)."""
    import numpy as np
    np.random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode()) & 0x7FFFFFFF)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        labels = facet.check(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return labels


# ---------------------------------------------------------------- one shard (in a child process)

def shard(facet, seed_text, n, deadline, tier):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    seed = zlib.crc32(seed_text.encode())
    st = {"facet": facet.name, "evaluations": 0, "rejected": 0, "distinct": set(), "samples": [],
          "labels": {}, "fail": None, "error": None, "cut": False}
    fail = {"case": None, "msg": None, "t": None, "count": 0}

    def body(case):
        if time.time() > deadline or (fail["t"] and time.time() - fail["t"] > SHRINK_SECONDS):
            st["cut"] = not fail["t"]
            raise StopRun()
        try:
            labels = run_case(facet, case)
        except Reject:
            st["rejected"] += 1
            return
        except Violation as v:
            fail["case"], fail["msg"] = case, str(v)
            fail["t"] = fail["t"] or time.time()
            fail["count"] += 1
            raise
        except CaseTimeout:
            if fail["case"] is None:
                fail["case"], fail["msg"] = case, "the call did not finish within %d s" % CASE_TIMEOUT
                fail["t"] = time.time()
            raise StopRun() from None
        if fail["t"]:
            return                     # shrinking: not part of the explored set
        st["evaluations"] += 1
        for lab in (labels or ()):
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        if facet.nontrivial is None or facet.nontrivial(case, labels or ()):
            d = digest(case)
            if d not in st["distinct"]:
                st["distinct"].add(d)
                if len(st["samples"]) < 2 and len(st["distinct"]) in (3, 40):
                    st["samples"].append(case)
    test = hypothesis.seed(seed)(settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck))(given(facet.strategy)(body)))
    try:
        test()
    except StopRun:
        pass
    except BaseException as e:  # noqa: BLE001
        if fail["case"] is None:
            st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if fail["case"] is not None:
        st["fail"] = {"facet": facet.name, "case": fail["case"], "message": fail["msg"]}
    st["distinct"] = sorted(st["distinct"])
    return st


def _child(conn, job):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)                # hypothesis reports on stdout; the parent owns the verdict lines
    try:
        r = shard(*job)
    except BaseException as e:  # noqa: BLE001
        r = {"facet": job[0].name, "error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    conn.send(r)
    conn.close()
    os._exit(0)


def run_jobs(jobs, deadline):
    """Run the shards in forked children, at most WORKERS at a time; stop early at the first violation."""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    pending, running, results = list(jobs)[::-1], {}, []
    stop_at = None
    while pending or running:
        while pending and len(running) < WORKERS and stop_at is None:
            a, b = ctx.Pipe(False)
            job = pending.pop()
            p = ctx.Process(target=_child, args=(b, job))
            p.start()
            b.close()
            running[a] = (p, job)
        if not running:
            break
        for conn in wait(list(running), timeout=1.0):
            p, job = running.pop(conn)
            try:
                r = conn.recv()
            except EOFError:
                r = {"facet": job[0].name, "error": "worker died (exit %s)" % p.exitcode}
            p.join(5)
            results.append(r)
            if r.get("fail") and stop_at is None:
                stop_at = time.time() + 3
        if (stop_at and time.time() > stop_at) or time.time() > deadline + SHRINK_SECONDS + CASE_TIMEOUT:
            for p, _ in running.values():
                p.kill()
            break
    return results


# ---------------------------------------------------------------- known findings

def known_keys(pid):
    """Keys listed in known_findings.txt as `known: property=<id> key=<key> ...` (never written at run time)."""
    keys = set()
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            w = line.split()
            if w[:1] == ["known:"] and "property=" + pid in w:
                keys |= {q[4:] for q in w if q.startswith("key=")}
    return keys


# ---------------------------------------------------------------- main

def load():
    props = {}
    from checks import MODULES
    for name in MODULES:
        for p in importlib.import_module("checks." + name).PROPERTIES:
            assert p.pid not in props, p.pid
            props[p.pid] = p
    return props


def main(argv):
    t0 = time.time()
    bootstrap()
    props = load()
    if argv[:1] == ["--list"]:
        for pid, p in sorted(props.items()):
            for f in p.facets:
                print(pid, f.name, f.quick, f.thorough)
        return 0
    pid = argv[0]
    prop = props[pid]
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        if "probe" in rec:
            still = prop.known and any(k == rec["probe"] for k, _ in prop.known())
            print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]) if still else "holds on this case")
            return 1 if still else 0
        facet = next(f for f in prop.facets if f.name == rec["facet"])
        try:
            run_case(facet, rec["case"])
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
            print(v)
            return 1
        except CaseTimeout:
            print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
            print("the call did not finish")
            return 1
        print("holds on this case")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in WALL else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = argv[argv.index("--facet") + 1] if "--facet" in argv else None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    deadline = t0 + WALL[tier]
    jobs = []
    for f in prop.facets:
        if only and f.name != only:
            continue
        total = max(1, int((f.quick * QUICK_FACTOR if tier == "quick" else f.thorough) * scale))
        nsh = f.shards or min(8, max(1, total // 40))
        for s in range(nsh):
            n = total // nsh + (s < total % nsh)
            if n:
                jobs.append((f, "%d/%s/%s/%d" % (seed, pid, f.name, s), n, deadline, tier))
    jobs.sort(key=lambda j: -j[2])
    if os.environ.get("VERIF_INLINE"):
        results = [shard(*j) for j in jobs]
    else:
        results = run_jobs(jobs, deadline)
    return report(prop, results, tier, seed, t0)


def report(prop, results, tier, seed, t0):
    pid = prop.pid
    fails = [r["fail"] for r in results if r.get("fail")]
    errors = [(r["facet"], r["error"]) for r in results if r.get("error")]
    per, distinct, samples = {}, set(), []
    for r in results:
        if r.get("error") and "evaluations" not in r:
            continue
        d = per.setdefault(r["facet"], {"evaluations": 0, "distinct_nontrivial": set(), "outside_domain": 0,
                                        "labels": {}})
        d["evaluations"] += r["evaluations"]
        d["outside_domain"] += r["rejected"]
        d["distinct_nontrivial"] |= set(r["distinct"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        distinct |= {r["facet"] + x for x in r["distinct"]}
        for s in r["samples"]:
            if sum(1 for q in samples if q["facet"] == r["facet"]) < 2:
                samples.append({"facet": r["facet"], "case": s})
    rules = {f.name: f.rule for f in prop.facets}
    for k, d in per.items():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        d["rule"] = rules[k]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": len(distinct),
            "rule": "Hypothesis generates cases per facet; non-trivial by the facet's rule: "
                    + "; ".join("%s: %s" % (k, v) for k, v in rules.items()),
            "samples": [_short(s) for s in samples[:12]],
            "facets": per,
            "cut_by_wall_clock": any(r.get("cut") for r in results),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    os.replace(path + ".tmp", path)
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        f = fails[0]
        rd = os.path.join(OUT, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-%s.json" % (pid, f["facet"], digest(f["case"])))
        with open(rp, "w") as fh:
            json.dump({"property": pid, "facet": f["facet"], "message": f["message"], "case": f["case"]}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("facet %s: %s" % (f["facet"], f["message"]))
        print("case: %s" % json.dumps(f["case"])[:1500])
        return 1
    if errors:
        for name, e in errors[:3]:
            print("CHECK ERROR property=%s facet=%s\n%s" % (pid, name, e), file=sys.stderr)
        return 2
    if prop.known:
        listed = known_keys(pid)
        for key, text in prop.known():
            if key not in listed:
                rd = os.path.join(OUT, "replays")
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, "%s-probe-%s.json" % (pid, key))
                with open(rp, "w") as fh:
                    json.dump({"property": pid, "probe": key, "message": text}, fh)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print(text)
                return 1
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs"
          % (pid, tier, seed, ev["coverage"]["evaluations"], len(distinct), ev["wall_s"]))
    return 0


def _short(obj, limit=1200):
    s = json.dumps(obj)
    return obj if len(s) <= limit else {"facet": obj["facet"], "case_json_truncated": s[:limit]}
