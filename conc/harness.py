"""Run-time evaluation of the contracts on the real code (bounded; also replays).

A case is a function of a seeded random generator.  It raises Fail when the contract does not
hold on the input it made.  AnchorMissing (an entry point no longer there) only skips the case.
"""
import importlib
import json
import os
import sys
import time
import traceback
import zlib
import contextlib
import io
import signal
import logging
import warnings

import numpy as np

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class Fail(Exception):
    pass


class AnchorMissing(Exception):
    pass


class Skip(Exception):
    pass


CASES = []
LIMIT = 90           # seconds for one evaluation; they take a few at most
SEEN = set()


def case(n=10, thorough=None, cost=1.0):
    def d(f):
        CASES.append((f.__name__, f, n, thorough if thorough is not None else n * 5))
        return f
    return d


def get(mod, name):
    try:
        m = importlib.import_module(mod)
    except ModuleNotFoundError as ex:
        if ex.name and ex.name.startswith("glmtools"):
            raise AnchorMissing("%s.%s" % (mod, name))
        raise
    for p in name.split("."):
        if not hasattr(m, p):
            raise AnchorMissing("%s.%s" % (mod, name))
        m = getattr(m, p)
    return m


def ensure(c, msg, *a):
    if not bool(c):
        raise Fail(msg % a if a else msg)


def same(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    if not np.array_equal(a, b):
        try:
            bad = np.flatnonzero(np.atleast_1d((a != b)).ravel())
        except Exception:
            bad = []
        i = int(bad[0]) if len(bad) else -1
        raise Fail("%s: at %d got %r, expected %r" % (msg, i, a.ravel()[i] if a.size else None, b.ravel()[i] if b.size else None))


def close(a, b, msg, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    if a.shape != b.shape:
        raise Fail("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = int(np.flatnonzero(~np.atleast_1d(ok).ravel())[0])
        raise Fail("%s: at %d got %r, expected %r" % (msg, i, a.ravel()[i], b.ravel()[i]))


def fromraise(f, *a, **k):
    """call code under test; an exception is a broken contract"""
    try:
        return f(*a, **k)
    except (Fail, AnchorMissing, Skip):
        raise
    except Exception as ex:
        raise Fail("raised %s: %s" % (type(ex).__name__, str(ex)[:200]))


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def alarm(s):
    def h(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(int(s))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def seed_for(seed, name, i):
    return (zlib.crc32(("%d/%s/%d" % (seed, name, i)).encode()) & 0x7fffffff)


def unreadable(ex):
    """a result that lacks a column, row or file, or is no result at all (not: an entry point that has another name now)"""
    if isinstance(ex, (KeyError, IndexError, FileNotFoundError)):
        return True
    m = str(ex)
    return isinstance(ex, ValueError) and "no field of name" in m or isinstance(ex, (AttributeError, TypeError)) and (
        m.startswith(("'NoneType' object", "'Dataset' object", "'DataArray' object")))


def run_case(name, f, s):
    rng = np.random.RandomState(s)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), alarm(LIMIT):
            f(rng)
        st = rng.get_state()
        SEEN.add((name, zlib.crc32(st[1].tobytes()), st[2], st[3]))
        return None
    except Fail as ex:
        return str(ex)
    except Skip:
        return "SKIP"
    except AnchorMissing as ex:
        return "ANCHOR " + str(ex)
    except Timeout as ex:
        at = [t for t in traceback.extract_tb(ex.__traceback__) if "/glmtools/" in t.filename and "/verif/" not in t.filename]
        return "did not return within %d s (in %s)" % (LIMIT, at[-1].name) if at else "TIMEOUT"
    except (Exception, SystemExit) as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        inrepo = [t for t in tb if "/glmtools/" in t.filename and "/verif/" not in t.filename]
        if inrepo:
            t = inrepo[-1]
            return "raised %s in %s:%s (line %d): %s" % (type(ex).__name__, os.path.basename(t.filename), t.name,
                                                        t.lineno, str(ex)[:200])
        if unreadable(ex):
            return "result without what the contract names: %s: %s" % (type(ex).__name__, str(ex)[:200])
        return "HARNESS " + "".join(traceback.format_exception(ex))[-1500:]


def main():
    pid, seed, tier, out, budget = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], float(sys.argv[5])
    only = sys.argv[6] if len(sys.argv) > 6 else None
    onlyseed = int(sys.argv[7]) if len(sys.argv) > 7 else None
    sys.modules["harness"] = sys.modules["__main__"]
    mod = importlib.import_module(pid)
    t0 = time.time()

    def note(name, s):
        # read by check.py should this process not survive
        with open(out + ".at", "w") as fo:
            json.dump({"case": name, "seed": s, "time": time.time()}, fo)
    res = {"slowest": 0.0, "cases": {}, "failures": [], "anchors": [], "harness_errors": [], "evaluations": 0, "samples": []}
    if only:
        for name, f, n, th in CASES:
            if name == only:
                note(name, onlyseed)
                r = run_case(name, f, onlyseed)
                res["failures"] = [] if r is None or r.startswith(("SKIP", "ANCHOR", "HARNESS", "TIMEOUT")) else [
                    {"case": name, "seed": onlyseed, "message": r}]
                if r and r.startswith("HARNESS"):
                    res["harness_errors"].append(r)
    else:
        left = {name: list(range(n if tier == "quick" else th)) for name, f, n, th in CASES}
        done = {name: 0 for name in left}
        skipped = {name: 0 for name in left}
        failed = {name: 0 for name in left}
        # round robin so that every case gets its share of the time budget
        while any(left.values()) and time.time() - t0 < budget:
            for name, f, n, th in CASES:
                if not left[name] or time.time() - t0 >= budget:
                    continue
                i = left[name].pop(0)
                s = seed_for(seed, name, i)
                note(name, s)
                t1 = time.time()
                r = run_case(name, f, s)
                res["slowest"] = max(res["slowest"], time.time() - t1)
                if r is None:
                    done[name] += 1
                    res["evaluations"] += 1
                    if len(res["samples"]) < 5 and done[name] == 1:
                        res["samples"].append("case %s seed %d" % (name, s))
                elif r == "SKIP":
                    skipped[name] += 1
                elif r.startswith("ANCHOR"):
                    res["anchors"].append(r[7:])
                    left[name] = []
                elif r.startswith("HARNESS") or r == "TIMEOUT":
                    res["harness_errors"].append(name + ": " + r)
                    left[name] = []
                else:
                    res["evaluations"] += 1
                    failed[name] += 1
                    res["failures"].append({"case": name, "seed": s, "message": r})
                    if failed[name] >= 6:
                        left[name] = []
                    if r.startswith("did not return"):
                        left = {k: [] for k in left}
        res["cases"] = {n: {"passed": done[n], "failed": failed[n], "skipped": skipped[n]} for n in done}
    res["distinct"] = len(SEEN)
    res["wall_s"] = time.time() - t0
    with open(out, "w") as fo:
        json.dump(res, fo)


if __name__ == "__main__":
    main()
