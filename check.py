#!/usr/bin/env python3-vt
"""Decide one property on /repo's current working tree.

  check.py PID [--tier quick|thorough]     exit 0 held, 1 violation, 2 no answer
  check.py PID --replay FILE               rerun a recorded failing case

Two parts run side by side:
 * contract units (vc/contracts/PID.py): obligations generated from the current source, discharged by z3/cvc5;
 * the same contracts evaluated on the real code with seeded inputs (conc/PID.py): bounded, finds failing inputs.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
TRUSTED = [
    "z3 %s, cvc5 (answers 'unsat' are believed)" % "5.x",
    "the verification condition generator in /verif/vc (symbolic evaluation of the rewritten module source)",
    "the modelled library semantics (numpy/xarray/pandas/pyclipper subset) in /verif/vc, cross-checked against the real "
    "libraries by the run-time contract evaluation of the same functions",
]


def conc_env():
    e = dict(os.environ)
    e["PYTHONPATH"] = ":".join([os.path.join(HERE, "conc"), os.path.join(HERE, "conc", "stub"), REPO])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    e["MPLBACKEND"] = "Agg"
    return e


def start_conc(pid, seed, tier, budget, case=None, cseed=None):
    fd, out = tempfile.mkstemp(prefix="verif-conc-", suffix=".json")
    os.close(fd)
    cmd = [PY, os.path.join(HERE, "conc", "harness.py"), pid, str(seed), tier, out, str(budget)]
    if case:
        cmd += [case, str(cseed)]
    wd = tempfile.mkdtemp(prefix="verif-wd-")
    p = subprocess.Popen(cmd, env=conc_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=wd)
    return p, out, wd


def end_conc(h, timeout):
    """results of an evaluation run; a case that ends the process or never returns is a failure of that case"""
    p, out, wd = h
    res = {"failures": [], "harness_errors": [], "cases": {}, "evaluations": 0, "anchors": [], "samples": [], "distinct": 0}
    try:
        try:
            err = p.communicate(timeout=timeout)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            err = b"timeout"
        try:
            with open(out) as f:
                return json.load(f)
        except Exception:
            pass
        res["crash"] = (err or b"").decode(errors="replace")[-2000:]
        try:
            with open(out + ".at") as f:
                at = json.load(f)
        except Exception:
            return res
        if err == b"timeout" and time.time() - at["time"] > 100:
            res["failures"].append({"case": at["case"], "seed": at["seed"], "message": "did not return within 100 s"})
        elif -p.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            res["failures"].append({"case": at["case"], "seed": at["seed"], "message": "ended the process (%s): %s" % (
                signal.Signals(-p.returncode).name, res["crash"][-300:].strip())})
        return res
    finally:
        for f in (out, out + ".at"):
            try:
                os.unlink(f)
            except OSError:
                pass
        subprocess.call(["rm", "-rf", wd])


def _unit_worker(a):
    pid, i, tmo, budget, seed = a
    sys.setrecursionlimit(20000)
    try:
        from vc import api
        if seed:
            import z3
            z3.set_param("smt.random_seed", seed)
        m = importlib.import_module("vc.contracts." + pid)
        u = m.c.units[i]
        r = api.run_unit(u, api.Env(REPO), timeout_ms=tmo, budget_s=budget)
        obls = [dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), kind=o.kind,
                     model=(str(o.model)[:1500] if o.model is not None and o.status == "refuted" else None)) for o in r.obls]
        return dict(func=u.func, name=u.name, status=r.status, obls=obls, note=r.note[-1500:], secs=r.secs, paths=r.paths,
                    returns=r.returns, unit_note=u.note)
    except BaseException as ex:
        return dict(func="?", name="unit %d" % i, status="unsupported", obls=[], note="worker: %r %s" % (ex, traceback.format_exc()[-800:]),
                    secs=0, paths=0, returns=0, unit_note="")


def known(pid):
    """lines  known: property=ID case=NAME :: what fails"""
    out = {}
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) case=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("kind") != "concrete":
            print(json.dumps(d, indent=1))
            return 0
        r = end_conc(start_conc(pid, d["seed"], tier, 300, d["case"], d["seed"]), 320)
        print(json.dumps(r, indent=1))
        return 1 if r["failures"] else 0
    quick = tier == "quick"
    cbudget = 60 if quick else 360
    h = start_conc(pid, seed, tier, cbudget)
    # ---- proofs
    units = []
    assumptions = []
    have = os.path.exists(os.path.join(HERE, "vc", "contracts", pid + ".py"))
    if have:
        m = importlib.import_module("vc.contracts." + pid)
        assumptions = list(m.c.assumptions)
        jobs = [(pid, i, 8000 if quick else 30000, 150 if quick else 500, 0) for i in range(len(m.c.units))]
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(7, max(1, len(jobs))), maxtasksperchild=4) as pool:
            it = [pool.apply_async(_unit_worker, (j,)) for j in jobs]
            hard = time.time() + (400 if quick else 700)
            for j, r in zip(jobs, it):
                try:
                    units.append(r.get(max(1, hard - time.time())))
                except multiprocessing.TimeoutError:
                    u = m.c.units[j[1]]
                    units.append(dict(func=u.func, name=u.name, status="unknown", obls=[], note="time limit", secs=0, paths=0,
                                      returns=0, unit_note=u.note))
            pool.terminate()
    conc = end_conc(h, cbudget + 150)
    # a solver that ran out of time (a busy machine, an unlucky order) gets a second try
    late = [k for k, u in enumerate(units) if u["status"] == "unknown"]
    if 0 < len(late) <= 4 and not conc["failures"] and not any(u["status"] == "refuted" for u in units) \
            and time.time() - t0 < (180 if quick else 500):
        with ctx.Pool(len(late), maxtasksperchild=1) as pool:
            it = [pool.apply_async(_unit_worker, (jobs[k][:2] + (2 * jobs[k][2], jobs[k][3], 7),)) for k in late]
            hard = time.time() + (150 if quick else 250)
            for k, r in zip(late, it):
                try:
                    u = r.get(max(1, hard - time.time()))
                    if u["status"] in ("proved", "refuted"):
                        units[k] = u
                except multiprocessing.TimeoutError:
                    pass
            pool.terminate()
    kn = known(pid)
    knownhits, fails = {}, []
    for f in conc["failures"]:
        if f["case"] in kn:
            knownhits[f["case"]] = f
        else:
            fails.append(f)
    refuted = [(u, o) for u in units for o in u["obls"] if o["status"] == "refuted"]
    extra = 0
    if refuted and not fails and not conc.get("crash"):
        # look for a failing input for the refuted obligation: more seeds, larger budget
        for k in range(1, 3 if quick else 5):
            r = end_conc(start_conc(pid, seed + 1000 * k, "thorough", 45 if quick else 90), 200)
            extra += r["evaluations"]
            fails = [f for f in r["failures"] if f["case"] not in kn]
            if fails:
                break
    obls = [o for u in units for o in u["obls"]]
    ndis = sum(o["status"] == "discharged" for o in obls)
    allproved = bool(units) and all(u["status"] == "proved" for u in units)
    level = "proof" if allproved else ("other" if units else "exploration")
    cases = conc.get("cases", {})
    if a.verbose:
        for u in units:
            print("%-70s %-11s %3d/%3d obligations  %.1fs" % (u["func"] + " [" + u["name"] + "]", u["status"],
                  sum(o["status"] == "discharged" for o in u["obls"]), len(u["obls"]), u["secs"]))
            for o in u["obls"]:
                if o["status"] != "discharged":
                    print("      ", o["status"], o["name"])
            if u["status"] != "proved":
                print("      ", u["note"][-1200:])
        for n, c in cases.items():
            print("case %-50s %s" % (n, c))
        for f in conc["failures"]:
            print("  FAIL", f)
        for x in conc.get("harness_errors", []):
            print("  HARNESS", x)
        if conc.get("anchors"):
            print("  anchors", conc["anchors"])
        if conc.get("crash"):
            print("  CRASH", conc["crash"])
    # ---- evidence
    rep = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rep, exist_ok=True)
    byback = {}
    for o in obls:
        if o["status"] == "discharged":
            byback[o["backend"]] = byback.get(o["backend"], 0) + 1
    cov = {
        "obligations": len(obls), "discharged": ndis,
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s -v" % (pid, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted({u["func"] for u in units if u["status"] == "proved"}),
        "functions_not_discharged": sorted({u["func"] + " [" + u["name"] + "] " + u["status"] for u in units if u["status"] != "proved"}),
        "units": len(units), "units_proved": sum(u["status"] == "proved" for u in units),
        "paths": sum(u["paths"] for u in units),
        "discharged_by_backend": byback, "solver_s": round(sum(o["secs"] for o in obls), 2),
        "undischarged": [u["name"] + ": " + o["name"] + " (" + o["status"] + ")" for u in units for o in u["obls"] if o["status"] != "discharged"][:20],
        "evaluations": conc["evaluations"] + extra, "distinct_nontrivial": conc.get("distinct", 0),
        "rule": "bounded part: seeded random inputs per named case, evaluated on the real code against the contract; distinct by "
                "the generator state after the case, non-trivial when the case's own precondition held; bounds in the case's generator",
        "samples": conc.get("samples", []), "bounded_cases": cases, "entry_points_missing": conc.get("anchors", []),
        "explanation": "deductive part: %d of %d obligations discharged over %d units; bounded part: %d run-time contract evaluations "
                       "(not counted as proved)" % (ndis, len(obls), len(units), conc["evaluations"] + extra),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 0}
    lines = []
    if fails:
        f = fails[0]
        p = os.path.join(rep, "%s-%s-%d.json" % (pid, f["case"], f["seed"]))
        json.dump({"property": pid, "kind": "concrete", "case": f["case"], "seed": f["seed"], "message": f["message"],
                   "failed_obligations": [u["name"] + ": " + o["name"] for u, o in refuted][:10],
                   "rerun": "python3-vt /verif/check.py %s --replay %s" % (pid, p)}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        print("  case %s: %s" % (f["case"], f["message"]))
    elif refuted:
        u, o = refuted[0]
        p = os.path.join(rep, "%s-obligation.json" % pid)
        json.dump({"property": pid, "kind": "obligation", "function": u["func"], "unit": u["name"], "obligation": o["name"],
                   "verifier": o["backend"], "countermodel": o["model"], "tried_inputs": conc["evaluations"] + extra,
                   "all": [x["name"] + ": " + y["name"] for x, y in refuted]}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        print("  obligation %s of %s refuted by %s" % (o["name"], u["func"], o["backend"]))
    ev["violations"] = len(lines)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    for c, f in knownhits.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[c]))
    if lines:
        for l in lines:
            print(l)
        return 1
    if not allproved and (conc.get("crash") or (conc["evaluations"] == 0)):
        print("no answer: %s" % (conc.get("crash") or conc.get("harness_errors") or conc.get("anchors")))
        return 2
    print("%s held: %d/%d obligations discharged, %d evaluations, %.1fs" % (pid, ndis, len(obls), conc["evaluations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
