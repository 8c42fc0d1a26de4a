"""Backtracking effort of regular expressions, counted on symbolic text.

`steps(prog, text, limit)` runs the priority automaton of rx.py the way a
backtracking matcher does (first alternative first, no memoisation) and counts the
states visited; character tests on symbolic characters are decided on the current path."""
from __future__ import annotations

import ast
import collections
import gc
import os
import re
import subprocess
import sys
import time

from . import engine, rx
from .domain import D
from .formula import FALSE, TRUE

K = (12, 24)
RATIO = 26          # twice the repetitions: quadratic 4, cubic 8, quartic 16


class Over(Exception):
    pass


class Walk:
    def __init__(self, prog, text, full, limit):
        self.p, self.t, self.end, self.full, self.limit = prog, text, len(text), full, limit
        self.n = 0
        self.known = {}

    def test(self, pr, i):
        c = pr.cond(self.t[i])
        if c is TRUE or c is FALSE:
            return c is TRUE
        key = (pr.key, self.t[i])
        r = self.known.get(key)
        if r is None:
            r = self.known[key] = engine.CTX.decide(c)
        return r

    def go(self, n, i, loops, k):
        """Explicit-stack backtracking: k is the continuation, a linked list of (kind, ...)."""
        stack = [(n, i, loops, k)]
        while stack:
            n, i, loops, k = stack.pop()
            while True:
                self.n += 1
                if self.n > self.limit:
                    raise Over()
                op = n.op
                if op == "char":
                    if i < self.end and self.test(n.a, i):
                        n, i = n.b, i + 1
                        continue
                    break
                if op == "split":
                    for b in reversed(n.a[1:]):
                        stack.append((b, i, loops, k))
                    n = n.a[0]
                    continue
                if op == "accept":
                    if k is None:
                        if self.full and i != self.end:
                            break
                        return i
                    n, loops, k = k
                    continue
                if op == "nloop":
                    nxt, lazy = n.c
                    a = (n.b, i, {**loops, n.a: i}, k)
                    b = (nxt, i, {x: y for x, y in loops.items() if x != n.a}, k)
                    if lazy:
                        a, b = b, a
                    stack.append(b)
                    n, i, loops, k = a
                    continue
                if op == "nloopend":
                    loop, nxt = n.b
                    n = nxt if loops.get(n.a) == i else loop
                    continue
                if op in ("gstart", "gend"):
                    n = n.b
                    continue
                if op == "look":
                    ok = self.sub(n.a, i) is not None
                    if ok is bool(n.c):
                        break
                    n = n.b
                    continue
                if op in ("atomic", "recurse", "call"):
                    target = self.p.start if op == "recurse" else self.p.callee(n.a) if op == "call" else n.a
                    e = self.sub(target, i)
                    if e is None:
                        break
                    n, i = n.b, e
                    continue
                if op == "atend":
                    if i == self.end or n.a and i == self.end - 1 and self.test(_NL, i):
                        n = n.b
                        continue
                    break
                if op == "atlineend":
                    if i == self.end or self.test(_NL, i):
                        n = n.b
                        continue
                    break
                if op == "atbegin":
                    if i == 0:
                        n = n.b
                        continue
                    break
                if op == "atlinebegin":
                    if i == 0 or self.test(_NL, i - 1):
                        n = n.b
                        continue
                    break
                if op == "boundary":
                    x = i > 0 and self.test(n.a, i - 1)
                    y = i < self.end and self.test(n.a, i)
                    if (x != y) != bool(n.c):
                        n = n.b
                        continue
                    break
                if op == "behind":
                    ok = any(i >= w and self.sub(s, i - w) == i for w, s in n.a)
                    if ok != bool(n.c):
                        n = n.b
                        continue
                    break
                raise engine.Unsupported(op)
        return None

    def sub(self, n, i):
        return self.go(n, i, {}, None) if not self.full else self._nofull(n, i)

    def _nofull(self, n, i):
        self.full = False
        try:
            return self.go(n, i, {}, None)
        finally:
            self.full = True


_NL = rx.pred(("lit", "\n"), lambda c: c == "\n")


def steps(prog, text, full=False, limit=10 ** 6):
    """(states visited, whether the limit was hit)"""
    w = Walk(prog, text, full, limit)
    try:
        w.go(prog.start, 0, {}, None)
    except Over:
        return w.n, True
    return w.n, False


_found = {}


def patterns():
    """[(name, regular expression, engine, flags, whole text)] of the live lexer and of the package's own code."""
    if _found:
        return _found["v"]
    import lark
    import regex

    import pycep
    from pycep import BicepParser

    p = BicepParser()
    larks = [o for o in vars(p).values() if isinstance(o, lark.Lark)] or [o for o in gc.get_objects() if isinstance(o, lark.Lark)]
    out, seen = [], set()

    def add(name, pat, eng, flags, whole):
        if (pat, flags, whole) not in seen and not re.fullmatch(r"(?:\\.|[^\\()\[\]{}|*+?.^$])*", pat):
            seen.add((pat, flags, whole))
            out.append((name, pat, eng, flags, whole))

    for lk in larks[-1:]:
        for t in sorted(lk.terminals, key=lambda t: t.name):
            add(t.name, t.pattern.to_regexp(), regex if lk.options.regex else re, 0, False)
    pats = []
    for m in sorted(n for n in sys.modules if n == "pycep" or n.startswith("pycep.")):
        for k, v in sorted(vars(sys.modules[m]).items()):
            vs = [v, *(vars(v).values() if isinstance(v, type) and v.__module__ == m else ()),
                  *(v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple, set)) else ())]
            for x in vs:
                for y in x if isinstance(x, (list, tuple)) else (x,):
                    if type(y).__name__ == "Pattern" and isinstance(y.pattern, str):
                        pats.append((k, y.pattern, y.flags & ~32))
    root = os.path.dirname(os.path.abspath(pycep.__file__))
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                for n in ast.walk(ast.parse(open(os.path.join(d, f), encoding="utf-8").read())):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and isinstance(n.args[0], ast.Constant) \
                            and isinstance(n.args[0].value, str) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("re", "regex"):
                        fl = 0
                        for a in ast.walk(ast.Tuple([*n.args[1:], *(k.value for k in n.keywords)])):
                            if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in ("re", "regex"):
                                fl |= int(getattr(re, a.attr, 0)) if a.attr.isupper() else 0
                        pats.append((f, n.args[0].value, fl))
    for k, s, fl in pats:
        add(k, s, re, fl & (re.I | re.S | re.A | re.M | re.X), True)
    _found["v"] = out
    return out


_progs = {}


def prog(entry):
    name, pat, eng, flags, whole = entry
    p = _progs.get((pat, flags))
    if p is None:
        p = _progs[pat, flags] = rx.Prog(eng, pat, flags, captures=True)
    return p


_PREF = "ab1/.-_:@'\"{}$\\ ,()[]\n"


def _char(pr):
    for c in _PREF:
        if pr.test(c):
            return c
    m = pr.mask
    return D[(m & -m).bit_length() - 1] if m else None


def prefixes(entry, limit=16):
    """Texts that lead to each unbounded repeat of the expression, by the shortest way."""
    p = prog(entry)
    heads, order = {}, []
    seen = {}
    todo = collections.deque([(p.start, "", None)])
    while todo:
        n, t, k = todo.popleft()
        if (n.idx, k and k[0].idx) in seen:
            continue
        seen[n.idx, k and k[0].idx] = t
        if n.loops and n.idx not in heads:
            heads[n.idx] = t
            if t not in order:
                order.append(t)
        op = n.op
        if op == "char":
            c = _char(n.a)
            if c is not None:
                todo.append((n.b, t + c, k))
        elif op == "split":
            todo.extendleft((b, t, k) for b in reversed(n.a))
        elif op == "accept":
            if k is not None:
                todo.appendleft((k[0], t, k[1]))
        elif op == "nloop":
            todo.extendleft(((n.c[0], t, k), (n.b, t, k)))
        elif op == "nloopend":
            todo.appendleft((n.b[1], t, k))
        elif op in ("atomic", "recurse", "call"):
            target = p.start if op == "recurse" else p.callee(n.a) if op == "call" else n.a
            todo.appendleft((target, t, (n.b, k)))
        elif op == "look":
            todo.extendleft(((n.b, t, k), (n.a, t, (n.b, k))))
        elif op == "behind":
            todo.appendleft((n.b, t, k))
        else:
            todo.appendleft((n.b, t, k))
    return order[:limit]


def grows(entry, a, w, b):
    """Doubling the repetitions of w in a w..w b multiplies the effort beyond any small power."""
    p = prog(entry)
    n1, _ = steps(p, a + w * K[0] + b, entry[4], 20000)
    n2, over = steps(p, a + w * K[1] + b, entry[4], RATIO * n1 + 400)
    return over


HOSTS = ("%s", "var x = %s", "var x = [%s", "@%s", "@foo(%s", "var x = k.%s", "param %s", "param x %s", "import %s", "resource x %s", "module x %s = {}\n",
         "resource x '%s' = {}\n", "module x '%s' = {}\n", "module x 'br:%s' = {}\n", "module x 'br/%s' = {}\n", "module x 'ts:%s' = {}\n",
         "module x 'ts/%s' = {}\n", "module x 'br:mcr.microsoft.com/%s' = {}\n", "var x = '%s'\n", "@%s()\nvar x = 1\n", "var x = %s()\n", "targetScope = '%s'\n",
         "import '%s'\n", "var x = '''%s'''\n", "var x = { %s", "var x = [for i in %s", "resource x 'a@1' = {\n%s", "type x = %s",
         "var x = %s${'b'}'\n", "var x = %s'\n", "var x = '%s${'b'}'\n", "var x = '%s${f(''){}}'\n", "var x = %s'''\n", "var x = '''a'%s'b'''\n", "@description('%s${'b'}')\nvar x = 1\n",
         "import '%s${'b'}'\n", "var x = { '%s': 1 }\n", "var x = { '%s${'b'}': 1 }\n", "resource x '%s@' = {}\n", "resource x '%s@1@' = {}\n", "resource x '@%s' = {}\n",
         "module x '%s${'b'}' = {}\n", "metadata x = '%s${'b'}'\n", "var %s = 1\n", "var x = map(k, %s => 1)\n", "func f(%s int) int => 1\n")

_CHILD = """
import sys, json
sys.path.insert(0, sys.argv[1])
from pycep import BicepParser
p = BicepParser()
sys.stdout.write("ready\\n"); sys.stdout.flush()
for line in sys.stdin:
    try:
        p.parse(text=json.loads(line))
    except Exception:
        pass
    sys.stdout.write("done\\n"); sys.stdout.flush()
"""


def hangs(texts, seconds=8.0):
    """The first of the texts whose parse does not end in time on the real code, or None."""
    import json
    import select

    repo = os.environ.get("SYMX_REPO", "/repo")
    p = None
    try:
        for t in texts:
            if p is None:
                p = subprocess.Popen([sys.executable, "-B", "-c", _CHILD, repo], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                p.stdout.readline()
            p.stdin.write((json.dumps(t) + "\n").encode())
            p.stdin.flush()
            if not select.select([p.stdout], [], [], seconds)[0]:
                return t
            if not p.stdout.readline():
                p.kill()
                p = None
    finally:
        if p is not None:
            p.kill()
            p.wait()
    return None


def texts(a, w, b):
    for k in (30, 60, 120):
        u = a + w * k + b
        if len(u) <= 600:
            for pre in ("", "// '''\n"):
                for h in HOSTS:
                    t = pre + h % u if "%" not in u else pre + h.replace("%s", u)
                    if t.count("'''") % 2 == 0:
                        yield t


def calls(thunk, limit=None):
    """Function calls made by a thunk (stops early beyond the limit)."""
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        if event == "call":
            n += 1
            if limit is not None and n > limit:
                sys.setprofile(None)
                raise Over()

    sys.setprofile(prof)
    try:
        thunk()
    except Over:
        return n, True
    except Exception as e:
        # Lark wraps exceptions raised in callbacks
        if limit is not None and n > limit:
            return n, True
        if type(e).__module__.startswith("symx"):
            raise
    finally:
        sys.setprofile(None)
    return n, False
