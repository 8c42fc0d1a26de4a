"""One symbolic worker process: explores prefixes of a harness and validates each
path against the real code in a companion process."""
from __future__ import annotations

import copy
import gc
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
VENV = os.environ.get("SYMX_VENV", "/opt/venv")
REALPY = os.path.join(VENV, "bin", "python")


def _site():
    import glob

    return glob.glob(os.path.join(VENV, "lib", "python3*", "site-packages"))[0]


def setup():
    """Load the instrumented package (once, before forking workers)."""
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    sys.path.insert(0, _site())
    sys.setrecursionlimit(200000)
    sys.dont_write_bytecode = True
    from symx import instrument, larkmodel, shims

    instrument.install({"pycep": REPO, "props": ROOT})
    larkmodel.install()
    shims.install_regex()
    from symx import sched

    sched.install()
    import pycep

    assert os.path.realpath(pycep.__file__).startswith(os.path.realpath(REPO) + os.sep), pycep.__file__
    from pycep import BicepParser

    larkmodel.probe(lambda: BicepParser())
    return pycep


class State:
    """Snapshot of the mutable module and class state of the package under test."""

    def __init__(self, top="pycep"):
        self.items = []
        self.caches = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == top or name.startswith(top + ".")):
                continue
            self._scan(mod.__dict__, seen, mod)

    def _scan(self, d, seen, owner, depth=0):
        for k, v in list(d.items()):
            if k.startswith("__") and k not in ("__symx__",):
                continue
            if k == "__symx__" or id(v) in seen:
                continue
            if hasattr(v, "cache_clear"):
                self.caches.append(v)
            if type(v) in (dict, list, set):
                seen.add(id(v))
                self.items.append((v, copy.copy(v)))
                if type(v) is dict:
                    for x in v.values():
                        if type(x) in (dict, list, set) and id(x) not in seen:
                            seen.add(id(x))
                            self.items.append((x, copy.copy(x)))
            elif isinstance(v, type) and getattr(v, "__module__", "").startswith("pycep") and depth < 3:
                seen.add(id(v))
                self._scan(vars(v), seen, v, depth + 1)

    def restore(self):
        for live, saved in self.items:
            if live != saved or type(live) is not set:
                if type(live) is list:
                    live[:] = saved
                else:
                    live.clear()
                    live.update(saved)
        for c in self.caches:
            try:
                c.cache_clear()
            except Exception:
                pass


class Real:
    """Companion process running the unmodified code."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([REALPY, os.path.join(HERE, "realworker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=ROOT, text=True,
                                  encoding="utf-8")

    def ask(self, module, name, witness, tier):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({"module": module, "harness": name, "witness": witness, "tier": tier}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.close()
            return {"status": "crash", "msg": "real worker died", "failures": [], "log": [], "inputs": [], "checks": 0, "diverged": True}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None


class Explorer:
    def __init__(self, modname, tier, seed, limits):
        from symx import engine, harness

        self.mod = importlib.import_module(modname)
        self.modname = modname
        self.harnesses = harness.REGISTRY.get(modname, [])
        self.tier = tier
        self.seed = seed
        self.limits = limits
        self.state = State()
        self.stats = engine.Stats()
        self.real = Real()
        self.samples = {}
        self.npaths = 0

    def witness(self, ctx, chars, rng, nsyms=None, nopaques=None, choices=None):
        from symx import text as tx

        syms = ["".join(chars[tx.vid(c)] for c in s) for s in (ctx.syms if nsyms is None else ctx.syms[:nsyms])]
        kinds = []
        for o in ctx.opaques if nopaques is None else ctx.opaques[:nopaques]:
            kinds.append(o._t if o._t is not None else rng.choice(o._kinds))
        return {"choices": list(ctx.choices if choices is None else choices), "syms": syms, "opaques": kinds, "sched": list(ctx.sched)}

    def path(self, hi, prefix):
        """Run one path. Returns a result dict."""
        from symx import compare, engine, formula, harness, symh

        f = self.harnesses[hi]
        if len(formula._table) > 400000:
            formula.reset_tables()
            from symx import larkmodel, rx, shims

            for p in shims._progs.values():
                p.cache.clear()
            gc.collect()
            self._clear_scanners()
        ctx = engine.Ctx(prefix, self.stats, self.limits)
        engine.set_ctx(ctx)
        self.state.restore()
        h = symh.SymH(ctx, self.tier)
        status, msg = "ok", ""
        try:
            try:
                f(h)
            except symh.EndPath:
                pass
            except harness.Stop as s:
                status = s.status
            except engine.AssumeFailed:
                status = "assume"
            except engine.Infeasible:
                status = "infeasible"
            except engine.Unsupported as e:
                status, msg = "unsupported", str(e)
            except engine.StepLimit as e:
                status, msg = "limit", str(e)
            except RecursionError:
                status, msg = "limit", "recursion"
            except Exception as e:
                status, msg = "harness-error", "".join(traceback.format_exception(e)[-3:])
            res = {"h": hi, "status": status, "msg": msg, "siblings": ctx.siblings, "checks": ctx.checks,
                   "concretised": ctx.concretised, "notes": sorted(set(ctx.notes)), "viol": [], "validated": 0,
                   "mismatch": None, "depth": len(ctx.trace), "symchars": ctx.nvars}
            if status in ("assume", "infeasible"):
                return res
            rng = random.Random(f"{self.seed}/{hi}/{ctx.trace}")
            # violations first
            for v in ctx.violations:
                w = self.witness(ctx, v["chars"], rng, v["nsyms"], v["nopaques"], v["choices"])
                r = self.real.ask(self.modname, f.h_name, w, self.tier)
                confirmed = r["status"] == "violation"
                res["viol"].append({"msg": v["msg"], "known": v["known"], "witness": w, "confirmed": confirmed,
                                    "real": {k: r[k] for k in ("status", "msg", "failures", "inputs")}})
            if status in ("ok", "stop", "unsupported", "harness-error", "limit"):
                sat, m = ctx.check(None, want_model=True)
                if sat is not True:
                    if sat is False:
                        res["status"] = "infeasible"
                        return res
                    res["notes"].append("unknown")
                    return res
                chars = ctx.model_chars(m)
                w = self.witness(ctx, chars, rng)
                r = self.real.ask(self.modname, f.h_name, w, self.tier)
                res["validated"] = 1
                if r["status"] == "violation":
                    # the real code fails on this path's witness (also when the encoding did not see it)
                    res["viol"].append({"msg": r["failures"][0]["msg"], "known": r["failures"][0]["known"], "witness": w,
                                        "confirmed": True, "real": {k: r[k] for k in ("status", "msg", "failures", "inputs")}})
                elif r["status"] in ("error", "crash"):
                    res["mismatch"] = f"real run: {r['status']} {r['msg']}"
                elif status in ("ok", "stop"):
                    mine = [[d, "err"] if v is symh.ERR else [d, "ok", compare.canon(symh.resolve(v, chars, w["opaques"]))] for d, v in ctx.log]
                    mine = json.loads(json.dumps(mine))
                    if r["diverged"] or r["status"] == "assume":
                        res["mismatch"] = f"diverged ({r['status']})"
                    elif mine != r["log"]:
                        res["mismatch"] = "result differs: " + _first_diff(mine, r["log"])
                    if res["mismatch"]:
                        res["mismatch_witness"] = w
                        res["mismatch_inputs"] = r["inputs"]
                res["sample"] = {"harness": f.h_name, "choices": w["choices"], "syms": w["syms"], "opaques": w["opaques"],
                                 "inputs": r["inputs"][:2]}
            return res
        finally:
            engine.set_ctx(None)
            ctx.solver = None

    def _clear_scanners(self):
        from symx import larkmodel

        if larkmodel.LAST:
            import lark.lexer as L

            for o in gc.get_objects():
                if isinstance(o, L.Scanner) and getattr(o, "_symx_prog", None) is not None:
                    o._symx_prog.cache.clear()

    def explore(self, hi, prefixes, budget):
        """DFS from the given prefixes for `budget` seconds. Returns results and leftover prefixes."""
        stack = list(prefixes)
        out = []
        t0 = time.perf_counter()
        while stack:
            p = stack.pop()
            r = self.path(hi, p)
            stack.extend(reversed(r.pop("siblings")))
            out.append(r)
            if time.perf_counter() - t0 > budget:
                break
        return out, stack


def _first_diff(a, b, path="log"):
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return f"{path}: {str(a)[:150]} vs {str(b)[:150]}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return _first_diff(x, y, f"{path}[{i}]")
    return f"{path}: symbolic {str(a)[:150]} real {str(b)[:150]}"
