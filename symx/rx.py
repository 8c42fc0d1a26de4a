"""Symbolic matching of regular expressions with the prioritised (backtracking)
semantics of `re`/`regex`, over strings with symbolic characters.

A pattern is parsed with CPython's own regex parser and compiled to a small
priority automaton.  `run(prog, text, pos, end)` returns the mutually exclusive
outcomes [(tag, endpos, captures, condition)], and the condition of no match."""
from __future__ import annotations

import re
import re._constants as C
import re._parser as P

from . import text as tx
from .domain import D, FULL, INDEX, mask_where
from .engine import Unsupported
from .formula import FALSE, TRUE, And, In, Not, Or

RECURSE = "\ue000"
_CALL = re.compile(r"\(\?(?:&|P>)(\w+)\)")
_CALL_BASE = 0xE001
_IGN = re.IGNORECASE


class Pred:
    """A set of characters: mask over D and an exact test for concrete characters."""

    __slots__ = ("mask", "test", "key", "_cache")

    def __init__(self, key, test, mask=None):
        self.key = key
        self.test = test
        self.mask = mask_where(test) if mask is None else mask
        self._cache = {}

    def cond(self, c):
        if tx.is_mark(c):
            return In(tx.vid(c), self.mask)
        r = self._cache.get(c)
        if r is None:
            r = self._cache[c] = TRUE if self.test(c) else FALSE
        return r


_preds = {}


def pred(key, test):
    p = _preds.get(key)
    if p is None:
        p = _preds[key] = Pred(key, test)
    return p


_CATS = {
    C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D",
    C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
    C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W",
}


def cat_pred(eng, cat, flags):
    pat = _CATS[cat]
    fl = flags & re.ASCII
    r = eng.compile(pat, eng.ASCII if fl else 0)
    return pred(("cat", eng.__name__, pat, fl), lambda c: r.match(c) is not None)


def _variants(c):
    out = {c, c.lower(), c.upper()}
    return {x for x in out if len(x) == 1}


def lit_pred(eng, ch, flags, neg=False):
    ic = bool(flags & _IGN)
    if ic:
        r = eng.compile(("[^%s]" if neg else "[%s]") % re.escape(ch), eng.IGNORECASE)
        return pred(("lit", eng.__name__, ch, neg, True), lambda c: r.match(c) is not None)
    if neg:
        return pred(("lit", ch, True), lambda c: c != ch)
    return pred(("lit", ch), lambda c: c == ch)


def set_pred(eng, items, flags):
    neg = False
    parts = []
    ic = bool(flags & _IGN)
    key = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            p = lit_pred(eng, chr(av), flags)
            parts.append(p.test)
            key.append(p.key)
        elif op is C.RANGE:
            lo, hi = av
            if ic:
                parts.append(lambda c, lo=lo, hi=hi: any(lo <= ord(v) <= hi for v in _variants(c)))
            else:
                parts.append(lambda c, lo=lo, hi=hi: lo <= ord(c) <= hi)
            key.append(("r", lo, hi, ic))
        elif op is C.CATEGORY:
            p = cat_pred(eng, av, flags)
            parts.append(p.test)
            key.append(p.key)
        else:
            raise Unsupported(f"set item {op}")
    return pred(("set", neg, tuple(key)), lambda c: any(t(c) for t in parts) is not neg)


class Node:
    __slots__ = ("op", "a", "b", "c", "idx", "loops")

    def __init__(self, op, a=None, b=None, c=None):
        self.op, self.a, self.b, self.c = op, a, b, c
        self.loops = False       # head of an unbounded repeat


class Prog:
    def __init__(self, eng, pattern, flags=0, alternatives=None, captures=True):
        """alternatives: list of (name, regexp) for a scanner; else a single pattern."""
        self.eng = eng
        self.nodes = []
        self.groups = {}
        self.nloops = 0
        self.recursive = False
        self.back = False        # looks at what precedes the start
        self.cache = {}
        self.captures = captures
        self.calls = []          # names of called groups
        self.named = {}          # group name -> (items, flags)
        self.called = {}         # group name -> start node of its own copy
        if alternatives is None:
            alternatives = [(None, pattern)]
        starts = []
        for name, pat in alternatives:
            src = pat
            if "(?R)" in src:
                src = src.replace("(?R)", RECURSE)
                self.recursive = True

            def call(m):
                if m.group(1) not in self.calls:
                    self.calls.append(m.group(1))
                return chr(_CALL_BASE + self.calls.index(m.group(1)))

            src = _CALL.sub(call, src)
            try:
                tree = P.parse(src, flags)
            except Exception as e:
                raise Unsupported(f"regex {pat!r}: {e}")
            self.groups.update(tree.state.groupdict)
            self.names = {i: n for n, i in tree.state.groupdict.items()}
            fl = tree.state.flags
            if name is not None:
                self.named.setdefault(name, (tree, fl))
            acc = self.node("accept", name)
            starts.append(self.seq(tree, fl, acc))
        self.start = starts[0] if len(starts) == 1 else self.node("split", starts)

    def node(self, op, a=None, b=None, c=None):
        n = Node(op, a, b, c)
        n.idx = len(self.nodes)
        self.nodes.append(n)
        return n

    def callee(self, name):
        n = self.called.get(name)
        if n is None:
            if name not in self.named:
                raise Unsupported(f"call of unknown group {name}")
            items, fl = self.named[name]
            n = self.called[name] = self.seq(items, fl, self.node("accept", None))
        return n

    def seq(self, items, fl, nxt):
        for op, av in reversed(list(items)):
            nxt = self.one(op, av, fl, nxt)
        return nxt

    def one(self, op, av, fl, nxt):
        if op is C.LITERAL:
            if chr(av) == RECURSE:
                return self.node("recurse", None, nxt)
            if _CALL_BASE <= av < _CALL_BASE + len(self.calls):
                return self.node("call", self.calls[av - _CALL_BASE], nxt)
            return self.node("char", lit_pred(self.eng, chr(av), fl), nxt)
        if op is C.NOT_LITERAL:
            return self.node("char", lit_pred(self.eng, chr(av), fl, neg=True), nxt)
        if op is C.ANY:
            if fl & re.DOTALL:
                return self.node("char", pred(("all",), lambda c: True), nxt)
            return self.node("char", pred(("dot",), lambda c: c != "\n"), nxt)
        if op is C.IN:
            return self.node("char", set_pred(self.eng, av, fl), nxt)
        if op is C.BRANCH:
            return self.node("split", [self.seq(b, fl, nxt) for b in av[1]])
        if op is C.SUBPATTERN:
            g, add, rem, p = av
            f2 = (fl | add) & ~rem
            if g is not None and g in self.names:
                self.named.setdefault(self.names[g], (p, f2))
            if g is None or not self.captures:
                return self.seq(p, f2, nxt)
            e = self.node("gend", g, nxt)
            return self.node("gstart", g, self.seq(p, f2, e))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            return self.repeat(lo, hi, p, fl, nxt, op is C.MIN_REPEAT)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, p = av
            acc = self.node("accept", None)
            return self.node("atomic", self.repeat(lo, hi, p, fl, acc, False), nxt)
        if op is C.ATOMIC_GROUP:
            acc = self.node("accept", None)
            return self.node("atomic", self.seq(av, fl, acc), nxt)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                self.back = True
                ps = [p]
                if len(p) == 1 and p[0][0] is C.BRANCH:
                    ps = p[0][1][1]
                behind = []
                for q in ps:
                    lo, hi = q.getwidth()
                    if lo != hi:
                        raise Unsupported("lookbehind of variable width")
                    behind.append((lo, self.seq(q, fl, self.node("accept", None))))
                return self.node("behind", behind, nxt, op is C.ASSERT_NOT)
            acc = self.node("accept", None)
            return self.node("look", self.seq(p, fl, acc), nxt, op is C.ASSERT_NOT)
        if op is C.AT:
            if av in (C.AT_END, C.AT_END_STRING) and not (av is C.AT_END and fl & re.MULTILINE):
                return self.node("atend", av is C.AT_END, nxt)
            if av is C.AT_END:
                return self.node("atlineend", None, nxt)
            if av is C.AT_BEGINNING_STRING or av is C.AT_BEGINNING and not fl & re.MULTILINE:
                self.back = True
                return self.node("atbegin", None, nxt)
            if av is C.AT_BEGINNING:
                self.back = True
                return self.node("atlinebegin", None, nxt)
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                self.back = True
                return self.node("boundary", cat_pred(self.eng, C.CATEGORY_WORD, fl), nxt, av is C.AT_NON_BOUNDARY)
            raise Unsupported(f"anchor {av}")
        raise Unsupported(f"regex op {op}")

    def nullable(self, items):
        return items.getwidth()[0] == 0

    def repeat(self, lo, hi, p, fl, nxt, lazy):
        if hi is C.MAXREPEAT:
            if self.nullable(p):
                lid = self.nloops
                self.nloops += 1
                loop = self.node("nloop", lid, None, (nxt, lazy))   # at loop head: split(body, nxt)
                end = self.node("nloopend", lid, (loop, nxt))
                loop.b = self.seq(p, fl, end)
                loop.loops = True
                tail = loop
            else:
                loop = self.node("split", None)
                body = self.seq(p, fl, loop)
                loop.a = [nxt, body] if lazy else [body, nxt]
                loop.loops = True
                tail = loop
        else:
            if hi - lo > 2000:
                raise Unsupported("large counted repeat")
            tail = nxt
            for _ in range(hi - lo):
                body = self.seq(p, fl, tail)
                # nullable optional copies: an empty body equals skipping it
                tail = self.node("split", [nxt, body] if lazy else [body, nxt])
        for _ in range(lo):
            tail = self.seq(p, fl, tail)
        return tail


class Run:
    """One matching job: memoised evaluation over a fixed text window."""

    def __init__(self, prog, text, end, full=False):
        self.p = prog
        self.t = text
        self.end = end
        self.full = full
        self.memo = {}
        self.sub = {}
        self.active = set()

    # outcome dict: {(tag, endpos, caps): cond}; succ formula
    def m(self, n, i, loops, acc_full=False):
        key = (n.idx, i, loops, acc_full)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active:
            raise Unsupported("regex left recursion")
        self.active.add(key)
        r = self._m(n, i, loops, acc_full)
        self.active.discard(key)
        self.memo[key] = r
        return r

    FAIL = ({}, FALSE)

    def _m(self, n, i, loops, af):
        op = n.op
        if op == "char":
            # iterate straight-line character runs without recursion
            if i >= self.end:
                return self.FAIL
            c = n.a.cond(self.t[i])
            if c is FALSE:
                return self.FAIL
            out, succ = self.m(n.b, i + 1, loops, af)
            return self.guard(c, out, succ)
        if op == "split":
            out = None
            succ = FALSE
            for b in n.a:
                if succ is TRUE:
                    break
                o, s = self.m(b, i, loops, af)
                if not o:
                    continue
                if out is None:
                    out, succ = o, s
                    continue
                g = Not(succ)
                new = dict(out)
                for k, c in o.items():
                    c2 = And(g, c)
                    if c2 is not FALSE:
                        new[k] = Or(new[k], c2) if k in new else c2
                out = new
                succ = Or(succ, s)
            return (out, succ) if out else self.FAIL
        if op == "accept":
            if af and i != self.end:
                return self.FAIL
            return {(n.a, i, ()): TRUE}, TRUE
        if op == "nloop":
            nxt, lazy = n.c
            opts = [("b", n.b), ("n", nxt)]
            if lazy:
                opts.reverse()
            out, succ = None, FALSE
            for kind, b in opts:
                if succ is TRUE:
                    break
                l2 = self._set(loops, n.a, i) if kind == "b" else self._set(loops, n.a, None)
                o, s = self.m(b, i, l2, af)
                if not o:
                    continue
                if out is None:
                    out, succ = o, s
                    continue
                g = Not(succ)
                new = dict(out)
                for k, c in o.items():
                    c2 = And(g, c)
                    if c2 is not FALSE:
                        new[k] = Or(new[k], c2) if k in new else c2
                out, succ = new, Or(succ, s)
            return (out, succ) if out else self.FAIL
        if op == "nloopend":
            loop, nxt = n.b
            start = dict(loops).get(n.a)
            if start == i:
                return self.m(nxt, i, self._set(loops, n.a, None), af)
            return self.m(loop, i, self._set(loops, n.a, None), af)
        if op == "look":
            o, s = self.m(n.a, i, (), False)
            c = Not(s) if n.c else s
            if c is FALSE:
                return self.FAIL
            out, succ = self.m(n.b, i, loops, af)
            if not n.c and any(k[2] for k in o):
                raise Unsupported("captures inside lookahead")
            return self.guard(c, out, succ)
        if op in ("atomic", "recurse", "call"):
            target = self.p.start if op == "recurse" else self.p.callee(n.a) if op == "call" else n.a
            o, s = self.m(target, i, (), False)
            per = {}
            for (tag, e, caps), c in o.items():
                if caps and op == "atomic":
                    raise Unsupported("captures inside atomic group")
                per[e] = Or(per[e], c) if e in per else c
            out = {}
            succ = []
            for e, c in per.items():
                o2, s2 = self.m(n.b, e, loops, af)
                for k, c2 in o2.items():
                    c3 = And(c, c2)
                    if c3 is not FALSE:
                        out[k] = Or(out[k], c3) if k in out else c3
                succ.append(And(c, s2))
            return (out, Or(*succ)) if out else self.FAIL
        if op == "gstart":
            o, s = self.m(n.b, i, loops, af)
            out = {}
            for (tag, e, caps), c in o.items():
                caps2 = tuple((g, (i, x[1])) if g == n.a and x[0] is None else (g, x) for g, x in caps)
                k = (tag, e, caps2)
                out[k] = Or(out[k], c) if k in out else c
            return out, s
        if op == "gend":
            o, s = self.m(n.b, i, loops, af)
            out = {}
            for (tag, e, caps), c in o.items():
                if not any(g == n.a for g, _ in caps):
                    caps = tuple(sorted(caps + ((n.a, (None, i)),), key=lambda z: z[0]))
                k = (tag, e, caps)
                out[k] = Or(out[k], c) if k in out else c
            return out, s
        if op == "atend":
            cs = TRUE if i == self.end else FALSE
            if n.a and i == self.end - 1:
                cs = tx.ch_eq(self.t[i], "\n")
            if cs is FALSE:
                return self.FAIL
            out, succ = self.m(n.b, i, loops, af)
            return self.guard(cs, out, succ)
        if op == "atlineend":
            cs = TRUE if i == self.end else tx.ch_eq(self.t[i], "\n")
            return self.guarded(cs, n.b, i, loops, af)
        if op == "atlinebegin":
            cs = TRUE if i == 0 else tx.ch_eq(self.t[i - 1], "\n")
            return self.guarded(cs, n.b, i, loops, af)
        if op == "boundary":
            before = n.a.cond(self.t[i - 1]) if i > 0 else FALSE
            after = n.a.cond(self.t[i]) if i < self.end else FALSE
            cs = Or(And(before, Not(after)), And(Not(before), after))
            return self.guarded(Not(cs) if n.c else cs, n.b, i, loops, af)
        if op == "behind":
            cs = []
            for w, start in n.a:
                if i >= w:
                    o, _ = self.m(start, i - w, (), False)
                    cs += [c for (_, e, _), c in o.items() if e == i]
            cs = Or(*cs)
            return self.guarded(Not(cs) if n.c else cs, n.b, i, loops, af)
        if op == "atbegin":
            return self.m(n.b, i, loops, af) if i == 0 else self.FAIL
        raise Unsupported(op)

    def guarded(self, c, n, i, loops, af):
        if c is FALSE:
            return self.FAIL
        out, succ = self.m(n, i, loops, af)
        return self.guard(c, out, succ)

    @staticmethod
    def _set(loops, lid, v):
        d = dict(loops)
        if v is None:
            d.pop(lid, None)
        else:
            d[lid] = v
        return tuple(sorted(d.items()))

    @staticmethod
    def guard(c, out, succ):
        if c is TRUE:
            return out, succ
        o2 = {}
        for k, v in out.items():
            x = And(c, v)
            if x is not FALSE:
                o2[k] = x
        return (o2, And(c, succ)) if o2 else Run.FAIL


def run(prog, text, pos, end, full=False):
    """-> ([((tag, end, caps), cond)...], fail_cond)"""
    if prog.back:
        key = (text[:end], pos, full)
        hit = prog.cache.get(key)
        if hit is None:
            o, s = Run(prog, text[:end], end).m(prog.start, pos, (), full)
            hit = prog.cache[key] = (list(o.items()), Not(s))
            if len(prog.cache) > 20000:
                prog.cache.clear()
        return hit
    key = (text[pos:end], full)
    hit = prog.cache.get(key)
    if hit is None:
        r = Run(prog, text[pos:end], end - pos)
        o, s = r.m(prog.start, 0, (), full)
        hit = (list(o.items()), Not(s))
        if len(prog.cache) > 20000:
            prog.cache.clear()
        prog.cache[key] = hit
    outs, fail = hit
    if pos:
        outs = [((tag, e + pos, tuple((g, (a + pos, b + pos)) for g, (a, b) in caps)), c) for (tag, e, caps), c in outs]
    return outs, fail
