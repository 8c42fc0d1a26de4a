"""Path exploration by decision-prefix re-execution.

One `Ctx` is one path: a sequence of decisions.  Each decision is a fork over
mutually exclusive, exhaustive formulas (or a free choice); every feasible
sibling is pushed as a new prefix.  Feasibility is decided by z3 (with a sound
pre-check over per-character domains)."""
from __future__ import annotations

import time

from . import formula as fm
from .domain import D, FULL, INDEX, MARK_BASE
from .formula import FALSE, TRUE, And, In, Not, Or, ev

CTX = None

# Where the code leaves the encoding (a library call that is not modelled) its input is
# picked by the solver, once per pattern here: '' is any model, the others prefer these characters.
STRATEGIES = ["", "9", "\\n", "e\u0301", "\\u0041", "A", " a", "&lt;", "%41", "\ufb01\xdf", "0"]


class PathControl(BaseException):
    """Base of the exceptions that end a path; not catchable by `except Exception`."""


class Infeasible(PathControl):
    pass


class AssumeFailed(PathControl):
    pass


class Unsupported(PathControl):
    """The encoding cannot follow the code here."""


class StepLimit(PathControl):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.unknown = 0
        self.quick = 0


class Ctx:
    def __init__(self, prefix, stats, limits):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # decisions taken
        self.siblings = []       # other feasible prefixes found on this path
        self.stats = stats
        self.limits = limits
        self.nvars = 0
        self.dom = {}
        self.path = []           # asserted formulas
        self.solver = None
        self.pending = []        # asserted but not yet handed to z3
        self.concretised = 0
        self.strategy = None     # how values are picked once the code leaves the encoding
        self.run = 0
        self.notes = []
        self.steps = 0
        # harness level record
        self.choices = []
        self.syms = []           # list of lists of var ids
        self.opaques = []
        self.sched = []          # switches between threads
        self.log = []
        self.violations = []
        self.checks = 0
        self.last_model = None

    # -- variables -------------------------------------------------------
    def new_char(self, mask):
        k = self.nvars
        self.nvars += 1
        self.dom[k] = mask
        if mask != FULL:
            self.pending.append(In(k, mask))
        if k > 60000:
            raise StepLimit("too many symbolic characters")
        return chr(MARK_BASE + k)

    # -- solver ------------------------------------------------------------
    def _flush(self):
        if self.solver is None:
            z3 = fm.z3mod()
            self.solver = z3.Solver()
            self.solver.set("timeout", self.limits.get("query_ms", 20000))
        for f in self.pending:
            self.solver.add(fm.to_z3(f))
        self.pending = []

    def check(self, f=None, want_model=False):
        """sat check of path ∧ f. Returns (True/False/None, model-or-None)."""
        self._flush()
        z3 = fm.z3mod()
        t = time.perf_counter()
        self.stats.queries += 1
        if f is None or f is TRUE:
            r = self.solver.check()
            m = self.solver.model() if (r == z3.sat and want_model) else None
        else:
            self.solver.push()
            self.solver.add(fm.to_z3(f))
            r = self.solver.check()
            m = self.solver.model() if (r == z3.sat and want_model) else None
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.sat:
            return True, m
        if r == z3.unsat:
            return False, None
        self.stats.unknown += 1
        return None, None

    def feasible(self, f):
        v = ev(f, self.dom)
        if v is not None:
            self.stats.quick += 1
            # ev True means implied by the domains, and the path itself is satisfiable
            return v
        r, _ = self.check(f)
        if r is None:
            self.notes.append("unknown")
            return True
        return r

    def add(self, f):
        if f is TRUE:
            return
        self.path.append(f)
        self.pending.append(f)
        self._narrow(f)

    def _narrow(self, f):
        if f.op == "in":
            self.dom[f.a] = self.dom.get(f.a, FULL) & f.b
        elif f.op == "and":
            for x in f.a:
                self._narrow(x)
        elif f.op == "eqc":
            d = self.dom.get(f.a, FULL) & self.dom.get(f.b, FULL)
            self.dom[f.a] = self.dom[f.b] = d
        elif f.op == "or":
            # one level: union of narrowings of the same variable
            per = None
            for x in f.a:
                cur = {}
                if ev(x, self.dom) is False:
                    continue
                parts = x.a if x.op == "and" else (x,)
                for p in parts:
                    if p.op == "in":
                        cur[p.a] = p.b & cur.get(p.a, FULL)
                if per is None:
                    per = cur
                else:
                    per = {k: per[k] | cur[k] for k in per if k in cur}
                if not per:
                    break
            for k, m in (per or {}).items():
                self.dom[k] = self.dom.get(k, FULL) & m

    # -- decisions -----------------------------------------------------------
    def branch(self, options):
        """options: list of formulas, mutually exclusive and exhaustive under the path.
        Returns the index taken."""
        self.steps += 1
        if self.steps > self.limits.get("steps", 200000):
            raise StepLimit("steps")
        live = [(i, f) for i, f in enumerate(options) if f is not FALSE]
        if len(live) == 1:
            self.add(live[0][1])
            return live[0][0]
        for i, f in live:
            if f is TRUE or ev(f, self.dom) is True:
                return i
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(i)
            self.add(options[i])
            return i
        feas = []
        for n, (i, f) in enumerate(live):
            if n == len(live) - 1 and not feas:
                feas.append(i)      # exhaustive: the last one must hold
                break
            if self.feasible(f):
                feas.append(i)
        if not feas:
            raise Infeasible()
        self.stats.forks += len(feas) - 1
        for i in reversed(feas[1:]):
            self.siblings.append(self.trace + [i])
        i = feas[0]
        self.pos += 1
        self.prefix.append(i)
        self.trace.append(i)
        self.add(options[i])
        return i

    def free(self, n):
        """Unconditional n-way choice."""
        if n == 1:
            return 0
        self.steps += 1
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            for j in range(n - 1, 0, -1):
                self.siblings.append(self.trace + [j])
            i = 0
            self.prefix.append(i)
            self.stats.forks += n - 1
        self.pos += 1
        self.trace.append(i)
        return i

    def decide(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return self.branch([f, Not(f)]) == 0

    # -- models -----------------------------------------------------------------
    def model_chars(self, m):
        out = {}
        for k in range(self.nvars):
            v = m.eval(fm.zvar(k), model_completion=True).as_long() if m is not None else None
            if v is None or not (self.dom.get(k, FULL) >> v & 1):
                # unconstrained by the solver state: any value of the domain
                d = self.dom.get(k, FULL)
                if m is not None and v is not None:
                    # model completion picked a value outside a domain that was never asserted
                    v = (d & -d).bit_length() - 1
            out[k] = D[v]
        return out

    def concretise(self, k):
        """Pick one feasible value for a symbolic character and commit to it."""
        d = self.dom.get(k, FULL)
        if d & (d - 1) == 0:
            return D[d.bit_length() - 1]
        self.concretised += 1
        if self.strategy is None:
            self.strategy = self.free(len(STRATEGIES))
        want = STRATEGIES[self.strategy]
        want = INDEX[want[self.run % len(want)]] if want else None
        self.run += 1
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        elif want is not None and d >> want & 1 and self.feasible(In(k, 1 << want)):
            i = want
            self.prefix.append(i)
        else:
            r, m = self.check(None, want_model=True)
            if r is not True:
                raise Infeasible()
            i = m.eval(fm.zvar(k), model_completion=True).as_long()
            if not d >> i & 1:
                i = (d & -d).bit_length() - 1
            self.prefix.append(i)
        self.pos += 1
        self.trace.append(i)
        self.add(In(k, 1 << i))
        return D[i]


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX
