"""Check runner: cases in parallel processes, verdict, evidence."""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor  # noqa: F401  (kept out of forks)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
JOBS = int(os.environ.get("VF_JOBS", "0") or 0) or (os.cpu_count() or 4)
HARD = {"quick": 780, "thorough": 3300}


def _limit_memory():
    try:
        import resource
        lim = int(6e9)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass


def _case_proc(case, deadline, conn):
    import os, faulthandler
    if os.environ.get("VF_DUMP"):
        faulthandler.dump_traceback_later(float(os.environ["VF_DUMP"]), repeat=True)
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    _limit_memory()
    sys.setrecursionlimit(20000)
    import random

    import numpy as np
    random.seed(1)
    np.random.seed(1)
    from . import harness as H
    rep = None
    try:
        if hasattr(case, "run_case"):
            out = case.run_case(deadline)
        else:
            rep = H.Replayer(case)
            out = H.CaseRunner(case, rep, deadline).run().dict()
    except MemoryError:
        out = {"name": case.name, "undecided": [("<memory>", "memory limit")]}
    except BaseException as e:  # noqa: BLE001
        out = {"name": case.name, "undecided": [("<engine>", "".join(traceback.format_exception(e))[-1500:])]}
    try:
        if rep:
            rep.close()
    except Exception:
        pass
    try:
        conn.send(out)
        conn.close()
    except Exception as e:  # unpicklable
        conn.send({"name": case.name, "undecided": [("<engine>", repr(e))]})
    os._exit(0)


def run_cases(cases, hard_end, verbose=False, is_new=lambda c, v: False):
    settled = False
    todo = sorted(cases, key=lambda c: -c.timeout)
    live = []
    results = {}
    while todo or live:
        while todo and len(live) < JOBS:
            c = todo.pop(0)
            left = hard_end - time.time()
            if left < 5:
                results[c.name] = {"name": c.name, "undecided": [("<time>", "no time left")]}
                continue
            r, w = mp.Pipe(duplex=False)
            tmo = min(c.timeout, left)
            p = mp.Process(target=_case_proc, args=(c, time.time() + tmo, w))
            p.start()
            w.close()
            live.append((c, p, r, time.time() + tmo + 75, time.time()))
        nxt = []
        for c, p, r, end, t0 in live:
            if r.poll(0):
                try:
                    results[c.name] = r.recv()
                except EOFError:
                    results[c.name] = {"name": c.name, "undecided": [("<engine>", "case process died")]}
                p.join(10)
                _killpg(p)
                if any(is_new(c, v) for v in results[c.name].get("violations", ())):
                    # the verdict is settled; give the other cases a little time
                    hard_end = min(hard_end, time.time() + (0 if os.environ.get("VF_FAILFAST") else 45))
                if verbose:
                    _show(results[c.name], time.time() - t0)
            elif not p.is_alive() and not r.poll(0):
                results[c.name] = {"name": c.name, "undecided": [("<engine>", f"case process ended ({p.exitcode})")]}
                _killpg(p)
            elif time.time() > min(end, hard_end + 75):
                _killpg(p)
                p.join(5)
                results[c.name] = {"name": c.name, "undecided": [("<time>", "case exceeded its time budget")]}
                if verbose:
                    _show(results[c.name], time.time() - t0)
            else:
                nxt.append((c, p, r, end, t0))
        live = nxt
        if time.time() > hard_end and not settled and any(
                is_new(c, v) for c in cases if c.name in results for v in results[c.name].get("violations", ())):
            settled = True
            live = [(c, p, r, min(end, time.time()), t) for c, p, r, end, t in live]
        time.sleep(0.02)
    return [results[c.name] for c in cases]


def _killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _show(r, wall):
    print(f"  {r['name']:40s} {wall:6.1f}s paths={r.get('paths', 0)} claims={r.get('claims', 0)} "
          f"proved={r.get('proved', 0)} tol={r.get('tolerance', 0)} val={r.get('validated', 0)} "
          f"viol={len(r.get('violations', []))} undec={len(r.get('undecided', []))} "
          f"mism={len(r.get('mismatch', []))}", flush=True)
    for v in r.get("violations", []):
        print("     VIOL", v["label"], str(v["detail"])[:700], {k: v["inputs"][k] for k in list(v["inputs"])[:12]}, v["choices"])
    for u in r.get("undecided", [])[:6]:
        print("     UNDEC", u[0], str(u[1])[:900])
    for u in r.get("mismatch", [])[:4]:
        print("     MISM", u[0], str(u[1])[:400])


def known_findings():
    out = {}
    fn = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                d = dict(t.split("=", 1) for t in line.split() if "=" in t)
                if "property" in d and "key" in d:
                    txt = line.split("what=", 1)[1] if "what=" in line else line
                    out[(d["property"], d["key"])] = txt
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in HARD else "quick"
    t0 = time.time()
    from . import load
    load.setup(REPO)
    mod = importlib.import_module(f"props.{a.prop}")
    cases = mod.cases(tier)
    if a.replay:
        return replay(mod, cases, a.replay)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    known = known_findings()

    def is_new(c, v):
        return (a.prop, f"{c.name}/{v['label']}".replace(" ", "_")) not in known

    for c in cases:
        c.known = {k.split("/", 1)[1] for q, k in known
                   if q == a.prop and k.split("/", 1)[0] == c.name.replace(" ", "_")}
    results = run_cases(cases, t0 + HARD[tier], a.v, is_new)
    nviol, lines = [], []
    nund = 0
    for c, r in zip(cases, results):
        if r.get("undecided"):
            nund += 1
            for lab, why in r["undecided"][:3]:
                lines.append(f"UNDECIDED property={a.prop} case={c.name} claim={lab} {str(why)[:200]}".replace("\n", " "))
        for v in r.get("violations", []):
            key = f"{c.name}/{v['label']}".replace(" ", "_")
            if (a.prop, key) in known:
                lines.append(f"KNOWN-FINDING: property={a.prop} {known[(a.prop, key)]}")
                continue
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            fn = os.path.join(ROOT, "replays", f"{a.prop}_{len(nviol)}.json")
            with open(fn, "w") as f:
                json.dump({"property": a.prop, "case": c.name, "tier": tier, **v}, f, indent=1, default=str)
            nviol.append((key, fn, v))
    proved = sum(r.get("proved", 0) for r in results)
    if not a.case:
        write_evidence(mod, a.prop, tier, cases, results, time.time() - t0, len(nviol))
    for l in dict.fromkeys(lines):
        print(l)
    for key, fn, v in nviol:
        print(f"# {key}: {str(v['detail'])[:300]}".replace("\n", " "))
        print(f"# inputs: {v['inputs']} choices={v['choices']}"[:600])
        print(f"VIOLATION property={a.prop} replay={fn}")
    print(f"{a.prop} [{tier}]: cases={len(cases)} claims={sum(r.get('claims', 0) for r in results)} "
          f"proved={proved} paths={sum(r.get('paths', 0) for r in results)} "
          f"undecided-cases={nund} violations={len(nviol)} wall={time.time() - t0:.1f}s")
    sys.stdout.flush()
    if nviol:
        return 1
    if proved == 0 or nund * 2 > len(cases):
        return 2
    return 0


def replay(mod, cases, fn):
    from . import harness as H
    d = json.load(open(fn))
    case = next((c for c in cases if c.name == d["case"]), None)
    if case is None:
        case = next(c for c in mod.cases("thorough") if c.name == d["case"])
    if hasattr(case, "replay"):
        out = case.replay(d)
    else:
        tab = d.get("uftab")
        if tab:
            tab = {k: [(tuple(x), y) for x, y in v] for k, v in tab.items()}
        out = H.run_concrete(case, d["inputs"], d["choices"], tab, d.get("seed", 0), d.get("before", ()))
    print(json.dumps({k: out[k] for k in ("status", "detail", "bad")}, indent=1))
    if out["bad"] or out["status"] == "exc":
        print(f"VIOLATION property={d['property']} replay={fn}")
        return 1
    print("not reproduced")
    return 0


def write_evidence(mod, prop, tier, cases, results, wall, nviol):
    st = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            st[k] = st.get(k, 0) + v
    funcs = []
    for c in cases:
        funcs.extend(c.funcs)
    funcs = list(dict.fromkeys(list(getattr(mod, "FUNCTIONS", ())) + funcs))
    und = [{"case": r["name"], "claims": [u[0] for u in r["undecided"]][:5]} for r in results if r.get("undecided")]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": sum(r.get("paths", 0) for r in results),
            "transitions": int(st.get("decisions", 0)),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
            "samples": [
                {"case": r["name"], "paths": r.get("paths", 0), "claims": r.get("claims", 0),
                 "inputs": {k: r.get("inputs", {})[k] for k in list(r.get("inputs", {}))[:8]}}
                for r in results[:6]
            ],
            "counting": "states = feasible symbolic paths, transitions = forked branch decisions, "
                        "traces = path witnesses replayed on the unpatched code",
            "technique": "symbolic execution of the repository's functions; SMT (z3, cvc5) decides every claim",
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "cases": [{"case": c.name, "bounds": c.bounds, "paths": r.get("paths", 0), "claims": r.get("claims", 0),
                       "proved": r.get("proved", 0), "proved_exact": r.get("exact", 0),
                       "proved_within_tolerance": r.get("tolerance", 0),
                       "witnesses_replayed": r.get("validated", 0),
                       "symbolic_inputs": r.get("inputs", {}), "uninterpreted": r.get("stubs", []),
                       "encoding_mismatches": len(r.get("mismatch", [])),
                       "complete": bool(r.get("complete")), "wall_s": round(r.get("wall", 0.0), 2)}
                      for c, r in zip(cases, results)],
            "queries": int(st.get("queries", 0)),
            "queries_discharged_unsat": int(st.get("discharged", 0)),
            "feasibility_queries": int(st.get("feasibility", 0)),
            "solver_s": round(float(st.get("solver_s", 0.0)), 2),
            "claims": sum(r.get("claims", 0) for r in results),
            "claims_proved": sum(r.get("proved", 0) for r in results),
            "undecided": und,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + [
            "arithmetic over the reals: IEEE rounding, overflow and underflow are outside the encoding",
            "transcendental and special functions are uninterpreted except for sign, bounds, monotonicity and stated identities",
        ],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))
