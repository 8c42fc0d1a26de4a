"""Check driver: distributes the paths of all harnesses of a property over worker
processes, collects verdicts, replays counterexamples, writes evidence."""
from __future__ import annotations

import collections
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
from multiprocessing.connection import wait

from . import words
from . import worker as W

ROOT = W.ROOT


def _worker_main(conn, modname, tier, seed, limits):
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ex = None
    try:
        ex = W.Explorer(modname, tier, seed, limits)
        while True:
            job = conn.recv()
            if job is None:
                break
            hi, prefixes, budget = job
            q0, s0, f0, u0, k0 = ex.stats.queries, ex.stats.solver_s, ex.stats.forks, ex.stats.unknown, ex.stats.quick
            out, left = ex.explore(hi, prefixes, budget)
            st = ex.stats
            from . import larkmodel
            conn.send((hi, out, left, (st.queries - q0, st.solver_s - s0, st.forks - f0, st.unknown - u0, st.quick - k0),
                       dict(larkmodel.SCANNERS_USED)))
            larkmodel.SCANNERS_USED.clear()
    except (EOFError, BrokenPipeError):
        pass
    except BaseException as e:
        import traceback

        try:
            conn.send(("FATAL", traceback.format_exc()))
        except Exception:
            pass
    finally:
        if ex is not None:
            ex.real.close()
        os._exit(0)


def replay_fresh(modname, hname, witness, tier):
    """Reproduce a counterexample in a new process of the repository's interpreter."""
    real = W.Real()
    try:
        return real.ask(modname, hname, witness, tier)
    finally:
        real.close()


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return {k["id"]: k for k in json.load(open(p))["findings"]}
    return {}


def main(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="symx-", dir=os.environ.get("SYMX_SCRATCH") or None)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    code = 2
    try:
        code = _main(prop, tier, seed, only, verbose, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _main(prop, tier, seed, only, verbose, t0):
    modname = "props." + prop.lower()
    known = load_known()
    limits = {"query_ms": 20000, "steps": 200000}
    try:
        W.setup()
        ex = W.Explorer(modname, tier, seed, limits)
    except Exception:
        import traceback

        traceback.print_exc()
        print(f"ERROR property={prop} the package could not be loaded")
        return 2
    from . import instrument

    mod = ex.mod
    hs = ex.harnesses
    sel = [i for i, h in enumerate(hs) if (only is None or h.h_name in only)
           and not (tier == "quick" and h.h_opts.get("thorough_only"))]
    cap = float(os.environ.get("SYMX_CAP") or (getattr(mod, "QUICK_CAP", 300) if tier == "quick" else getattr(mod, "THOROUGH_CAP", 800)))
    ncpu = int(os.environ.get("SYMX_PROCS") or min(8, os.cpu_count() or 2))

    procs = []
    for _ in range(ncpu):
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            for pa, _, _ in procs:
                pa.close()
            _worker_main(b, modname, tier, seed, limits)
            os._exit(0)
        b.close()
        procs.append((a, pid, None))

    pending = collections.deque((i, [[]]) for i in sel)
    busy = {}
    idle = [p[0] for p in procs]
    agg = {i: collections.Counter() for i in sel}
    per_time = collections.Counter()
    samples = {}
    viol, knowns, unconfirmed, mismatches, problems = [], {}, [], [], []
    notes = collections.Counter()
    terminals = collections.Counter()
    tot = [0, 0.0, 0, 0, 0]
    complete = True
    stop_on_violation = tier == "quick" and not os.environ.get("SYMX_ALL")
    fatal = None
    while pending or busy:
        while pending and idle:
            c = idle.pop()
            hi, pre = pending.popleft()
            # share out big stacks
            while len(pre) > 1 and len(idle) > len(pending):
                half = len(pre) // 2
                pending.append((hi, pre[:half]))
                pre = pre[half:]
            c.send((hi, pre, 0.3 if len(pending) < ncpu else 1.0))
            busy[c] = (hi, time.time())
        ready = wait(list(busy), timeout=1.0)
        for c in ready:
            try:
                msg = c.recv()
            except EOFError:
                msg = ("FATAL", "worker ended")
            if msg[0] == "FATAL":
                fatal = msg[1]
                busy.pop(c, None)
                continue
            hi, out, left, st, terms = msg
            per_time[hi] += time.time() - busy.pop(c)[1]
            idle.append(c)
            terminals.update(terms)
            for j in range(5):
                tot[j] += st[j]
            if left:
                n = max(1, min(len(left), ncpu))
                chunk = (len(left) + n - 1) // n
                for j in range(0, len(left), chunk):
                    pending.append((hi, left[j:j + chunk]))
            for r in out:
                a = agg[hi]
                a["paths:" + r["status"]] += 1
                a["checks"] += r["checks"]
                a["validated"] += r["validated"]
                a["maxdepth"] = max(a["maxdepth"], r["depth"])
                a["symchars"] = max(a["symchars"], r["symchars"])
                if r["concretised"]:
                    a["concretised"] += 1
                if r["status"] in ("unsupported", "limit", "harness-error"):
                    problems.append((hs[hi].h_name, r["status"], r["msg"]))
                for n in r["notes"]:
                    notes[n] += 1
                if r["mismatch"]:
                    a["mismatch"] += 1
                    if len(mismatches) < 50:
                        mismatches.append((hs[hi].h_name, r["mismatch"], r.get("mismatch_witness"), r.get("mismatch_inputs")))
                if "sample" in r:
                    lst = samples.setdefault(hi, [])
                    if len(lst) < 3:
                        lst.append(r["sample"])
                for v in r["viol"]:
                    fails = v["real"].get("failures") or []
                    if not v["confirmed"]:
                        a["unconfirmed"] += 1
                        if len(unconfirmed) < 50:
                            unconfirmed.append((hs[hi].h_name, v))
                        continue
                    new = [f for f in fails if not (f["known"] and f["known"] in known and known[f["known"]]["property"] == prop)]
                    for f in fails:
                        if f not in new:
                            knowns.setdefault(f["known"], (hs[hi].h_name, v, f))
                    if new:
                        viol.append((hs[hi].h_name, v, new[0]))
        if fatal:
            break
        if viol and stop_on_violation:
            complete = False
            break
        if time.time() - t0 > cap:
            complete = not pending and not busy
            break
    for c, pid, _ in procs:
        try:
            if c in idle:
                c.send(None)
        except Exception:
            pass
    deadline = time.time() + 5
    import signal

    for c, pid, _ in procs:
        if c not in idle:
            _kill_tree(pid)
    for c, pid, _ in procs:
        while True:
            try:
                r, _ = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                break
            if r:
                break
            if time.time() > deadline:
                _kill_tree(pid)
            time.sleep(0.01)

    if os.environ.get("SYMX_ALL"):
        # triage aid: every counterexample's last input
        for hname, v, f in viol:
            print("   ALL", hname, json.dumps(v["real"]["inputs"][-1:])[:300], "|", f["msg"][:100])
    # confirm in a fresh process
    final = []
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    seen = set()
    for hname, v, f in viol:
        key = (hname, f["msg"][:60])
        if key in seen or len(final) >= 5:
            continue
        seen.add(key)
        r = replay_fresh(modname, hname, v["witness"], tier)
        if r["status"] != "violation":
            unconfirmed.append((hname, v))
            continue
        path = os.path.join(ROOT, "replays", f"{prop}-{hname}-{len(final)}.json")
        json.dump({"property": prop, "module": modname, "harness": hname, "tier": tier, "witness": v["witness"],
                   "inputs": r["inputs"], "failures": r["failures"],
                   "reproduce": f"/verif/check --replay {path}"}, open(path, "w"), indent=1)
        final.append((path, hname, f, r["inputs"]))

    totals = collections.Counter()
    for a in agg.values():
        totals.update({k: v for k, v in a.items() if k not in ("maxdepth", "symchars")})
    npaths = sum(v for k, v in totals.items() if k.startswith("paths:") and k[6:] in ("ok", "stop"))
    vacuous = [hs[i].h_name for i in sel if agg[i]["checks"] == 0]
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": npaths,
            "transitions": tot[2] + npaths,
            "traces_validated_against_impl": totals["validated"],
            "exhaustive": bool(complete and not problems and not totals["concretised"]),
            "explanation": "symbolic execution: every path of the real code under the stated bounds is one state; each path "
                           "condition and each negated property assertion is decided by z3; each path's witness is re-run on "
                           "the unmodified package and compared",
            "complete_within_bounds": bool(complete),
            "assertions_checked": totals["checks"],
            "solver_queries": tot[0], "solver_s": round(tot[1], 3), "decided_by_domain": tot[4], "solver_unknown": tot[3],
            "paths_by_status": {k[6:]: v for k, v in totals.items() if k.startswith("paths:")},
            "paths_concretised": totals["concretised"], "model_mismatches": totals["mismatch"],
            "unconfirmed_counterexamples": totals["unconfirmed"],
            "notes": dict(notes),
            "functions_encoded": sorted({f"{os.path.relpath(p, W.REPO)}:{n}" for p, ns in instrument.ENCODED.items()
                                         if p.startswith(os.path.realpath(W.REPO)) or p.startswith(W.REPO) for n in ns}),
            "terminals_matched_symbolically": dict(terminals),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})),
            "constants_of_the_code": dict(zip(("names", "texts", "sizes"), map(len, words._scan(os.path.join(W.REPO, "pycep"))))),
            "harnesses": [{"name": hs[i].h_name, "paths": sum(v for k, v in agg[i].items() if k.startswith("paths:")),
                           "checks": agg[i]["checks"], "max_forks": agg[i]["maxdepth"], "max_symbolic_chars": agg[i]["symchars"],
                           "cpu_s": round(per_time[i], 2)} for i in sel],
            "vacuous_harnesses": vacuous,
            "samples": [s for i in sel for s in samples.get(i, [])[:1]][:12],
            "known_findings_seen": sorted(knowns),
        },
        "assumptions": [
            "symbolic characters range over 256 code points (all ASCII, 128 non-ASCII representatives)",
            "Lark's LALR driver, tree builder and Transformer are executed, not re-modelled; only its regex matching is",
        ] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(final),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)

    print(f"{prop} [{tier}] paths={npaths} checks={totals['checks']} queries={tot[0]} solver={tot[1]:.1f}s wall={wall:.1f}s "
          f"complete={complete} mismatches={totals['mismatch']} concretised={totals['concretised']}")
    if verbose:
        for i in sel:
            print("   ", hs[i].h_name, dict(agg[i]), f"{per_time[i]:.1f}s")
        for p in problems[:8]:
            print("    PROBLEM", p)
        for m in mismatches[:8]:
            print("    MISMATCH", m)
        if notes:
            print("    NOTES", dict(notes.most_common(8)))
    for k in sorted(knowns):
        hname, v, f = knowns[k]
        print(f"KNOWN-FINDING: property={prop} {k} {known[k]['what']}")
    for path, hname, f, inputs in final:
        print(f"  {hname}: {f['msg']}")
        for t in inputs[:2]:
            print("    input:", json.dumps(t)[:400])
        print(f"VIOLATION property={prop} replay={path}")
    if final:
        return 1
    if fatal:
        print("ERROR", fatal)
        return 2
    for hname, v in unconfirmed[:3]:
        print(f"INCONCLUSIVE property={prop} {hname}: a symbolic counterexample did not reproduce on the real code: {v['msg']}"
              + (f" {v['witness']}" if verbose else ""))
    for hname, s, m in problems[:3]:
        print(f"INCONCLUSIVE property={prop} {hname}: {s}: {m[:600]}")
    if mismatches:
        print(f"INCONCLUSIVE property={prop} encoding and real code disagree on {totals['mismatch']} witness(es), first: {mismatches[0][1][:300]}")
    if vacuous:
        print(f"ERROR property={prop} no assertion was reached in: {vacuous}")
        return 2
    if not complete:
        print(f"NOTE property={prop} time cap reached; held on the {npaths} paths explored")
    return 0


def _kill_tree(pid):
    import signal

    try:
        kids = subprocess.run(["ps", "-o", "pid=", "--ppid", str(pid)], capture_output=True, text=True).stdout.split()
        for k in kids:
            try:
                os.kill(int(k), signal.SIGKILL)
            except OSError:
                pass
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def selftest():
    """The tools the checks need are there and the package loads under instrumentation."""
    import z3

    W.setup()
    import pycep

    print("z3", z3.get_version_string(), "pycep", os.path.dirname(pycep.__file__))
    real = W.Real()
    real.close()
    return 0


def cli(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    if a.replay:
        d = json.load(open(a.replay))
        r = replay_fresh(d["module"], d["harness"], d["witness"], d["tier"])
        print(json.dumps(r, indent=1))
        return 1 if r["status"] == "violation" else 0
    return main(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED") or 1), a.only, a.v)
