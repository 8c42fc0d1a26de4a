"""Symbolic side of the harness API."""
from __future__ import annotations

import pathlib

from . import compare, engine
from . import formula as fm
from . import shims
from . import text as tx
from . import values as vals
from .domain import mask
from .engine import AssumeFailed, PathControl
from .formula import FALSE, TRUE, And, Not
from .harness import BaseH, Result, Stop


class EndPath(PathControl):
    pass


def skind(x):
    if type(x) is vals.SymInt:
        return "int"
    k = compare.kind(x)
    return k


def match(a, e, strict=False):
    """Typed deep equality as a formula."""
    if a is e:
        return TRUE
    if type(a) is vals.Opaque or type(e) is vals.Opaque:
        if type(a) is vals.Opaque and type(e) is vals.Opaque and a._c is e._c and a._v is None and e._v is None:
            return TRUE
        if type(a) is vals.Opaque and type(e) is vals.Opaque and (a._t is None or e._t is None):
            # two different unconstrained sub-expressions
            pass
        for o, other in ((a, e), (e, a)):
            if type(o) is vals.Opaque and o._t is None and type(other) is not vals.Opaque:
                if isinstance(other, str) and str(other) == vals.placeholder(o._n) and "ref" in o._kinds:
                    o._only("ref")
        a, e = vals.raw(a), vals.raw(e)
    ka, ke = skind(a), skind(e)
    if not strict:
        ka = "str" if ka == "token" else ka
    if ka != ke:
        return FALSE
    if ka in ("str", "element", "token"):
        return tx.str_eq(str(a), str(e))
    if ka == "int":
        if type(a) is vals.SymInt:
            return a.eqf(e)
        if type(e) is vals.SymInt:
            return e.eqf(a)
        return TRUE if a == e else FALSE
    if ka == "list":
        if len(a) != len(e):
            return FALSE
        return And(*[match(x, y, strict) for x, y in zip(a, e)])
    if ka == "dict":
        if len(a) != len(e):
            return FALSE
        fs = []
        order = list(e) if type(e) is compare.Ordered else None
        for i, (k, v) in enumerate(a.items()):
            k2 = shims.align(e, k)
            if not dict.__contains__(e, k2) or order is not None and order[i] != k2:
                return FALSE
            if strict and type(k) is not type(k2):
                return FALSE
            fs.append(match(v, dict.__getitem__(e, k2), strict))
        return And(*fs)
    return TRUE if a == e else FALSE


class SymPath(pathlib.PosixPath):
    """A path to a file whose content may be symbolic."""

    _text = None
    _locale = "utf-8"  # what the environment decodes a file with when the caller names no encoding

    def _read(self, encoding=None, errors=None, newline=None):
        import codecs

        if self._text is None:
            raise FileNotFoundError(2, "No such file or directory", str(self))
        if isinstance(self._text, bytes):
            t = self._text.decode("utf-8" if encoding is None else encoding, errors or "strict")
            return t.replace("\r\n", "\n").replace("\r", "\n") if newline is None else t
        enc = codecs.lookup(self._locale if encoding in (None, "locale") else encoding).name
        t = self._text
        if enc != "utf-8":
            # the file holds UTF-8: characters outside ASCII are read as something else
            t = "".join(c if not tx.is_mark(c) or engine.CTX.decide(fm.In(tx.vid(c), (1 << 128) - 1)) else tx.concretise(c) for c in t)
            t = "".join(c if tx.is_mark(c) else c.encode("utf-8").decode(enc, errors or "strict") for c in t)
        return t.replace("\r\n", "\n").replace("\r", "\n") if newline is None and not tx.has(t) else t

    def read_text(self, encoding=None, errors=None, newline=None):
        return self._read(encoding, errors, newline)

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        import io

        if "b" in mode:
            return io.BytesIO(self.read_bytes())
        return io.StringIO(self._read(encoding, errors, newline))

    def exists(self, **kw):
        return self._text is not None

    is_file = exists

    def read_bytes(self):
        if isinstance(self._text, bytes):
            return self._text
        if self._text is None or not tx.has(self._text):
            self._read()
            return self._text.encode("utf-8")
        raise engine.Unsupported("binary read of a symbolic file")

    def __fspath__(self):
        raise engine.Unsupported("path of a symbolic file")


class SymH(BaseH):
    symbolic = True

    def __init__(self, ctx, tier):
        self.c = ctx
        self.tier = tier
        self.inputs = []
        self._parsers = {}

    def default_parser(self, add_line_numbers):
        p = self._parsers.get(add_line_numbers)
        if p is None:
            p = self._parsers[add_line_numbers] = self.parser(add_line_numbers=add_line_numbers)
        return p

    def choose(self, *opts):
        if len(opts) == 1:
            opts = opts[0]
            if isinstance(opts, int):
                opts = range(opts)
        opts = list(opts)
        i = self.c.free(len(opts))
        self.c.choices.append(i)
        return opts[i]

    def sym(self, n, cls="any"):
        m = mask(cls)
        s = "".join(self.c.new_char(m) for _ in range(n))
        self.c.syms.append(s)
        return s

    def exact_type(self, x):
        if type(x) is vals.Opaque:
            return None if x._v is None else type(x._v[0])
        return int if type(x) is vals.SymInt else type(x)

    def digits(self, n):
        return self.sym(n, "digit")

    def opaque(self, kinds=None, without=()):
        ks = [k for k in (kinds or vals.KINDS) if k not in without]
        o = vals.Opaque(len(self.c.opaques), ks)
        self.c.opaques.append(o)
        return o

    def file(self, text, name="main.bicep", locale="utf-8"):
        p = SymPath("/nonexistent-symx/" + name)
        p._locale = locale
        if text is not None:
            self.rewrite(p, text)
        return p

    def rewrite(self, path, text):
        self.inputs.append(text if isinstance(text, str) else repr(text))
        path._text = text

    FATAL = (PathControl, Stop)

    def scheduler(self, preemptions):
        """A switch happens at the n-th line since the last one, where n is a symbolic variable."""
        c = self.c
        when = [tx.vid(self.sym(1, "any")) for _ in range(preemptions)]
        st = [0, 0]

        def ask(n, where, others):
            used, e = st
            if used >= preemptions or e >= 256:
                return None
            st[1] += 1
            if not c.decide(fm.In(when[used], 1 << e)):
                return None
            to = others[c.free(len(others))]
            st[0], st[1] = used + 1, 0
            c.sched.append(where + [to])
            return to

        return ask

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def stop(self):
        raise EndPath()

    def record(self, desc, r):
        # snapshot: later mutation of a returned structure must not change the log
        self.c.log.append((desc, snapshot(r.value)) if r.ok else (desc, None))
        if not r.ok:
            self.c.log[-1] = (desc, ERR)

    def _violate(self, f, msg, known):
        """f: the property's condition. Ask for path ∧ ¬f."""
        c = self.c
        c.checks += 1
        if f is TRUE:
            return
        v = fm.ev(f, c.dom)
        if v is True:
            return
        neg = Not(f)
        r, m = c.check(neg, want_model=True)
        if r is None:
            c.notes.append("unknown")
            return
        if r:
            c.violations.append({"msg": msg, "known": known, "chars": c.model_chars(m), "model": m,
                                 "choices": list(c.choices), "nsyms": len(c.syms), "nopaques": len(c.opaques)})
            # continue where the property holds, if it can
            if not c.feasible(f):
                raise EndPath()
        c.add(f)

    def check(self, cond, msg="check", known=None):
        cond = bool(cond)
        self._violate(TRUE if cond else FALSE, msg, known)

    def eq(self, actual, expected, msg="value", known=None, wrong=None, strict=False):
        f = match(actual, expected, strict)
        if known is not None and f is not TRUE:
            # the part of the mismatch that equals the recorded finding is that finding
            w = match(actual, wrong, strict)
            self._violate(fm.Or(f, w), msg, None)
            self._violate(f, msg, known)
            return
        self._violate(f, msg, known)


class _Err:
    def __repr__(self):
        return "ERR"


ERR = _Err()


def snapshot(x):
    t = type(x)
    if t is dict:
        return {k: snapshot(v) for k, v in x.items()}
    if t is list:
        return [snapshot(y) for y in x]
    if t is vals.Opaque:
        return x.occurrence() if x._v is None else snapshot(x._v[0])
    return x


def resolve(x, chars, okinds):
    """Concrete value of a symbolic result under an assignment."""
    t = type(x)
    if t is vals.Opaque:
        if x._t is not None:
            return resolve(x._force(), chars, okinds)
        k = okinds[x._n]
        return vals._el(vals.placeholder(x._n)) if k == "ref" else vals.BYKIND[k].make()
    if t is vals.SymInt:
        return x.value(chars)
    if isinstance(x, str):
        if not tx.has(x):
            return x
        s = "".join(chars[tx.vid(c)] if tx.is_mark(c) else c for c in x)
        if t is str:
            return s
        from lark import Token

        if isinstance(x, Token):
            return Token.new_borrow_pos(x.type, s, x)
        return t(s)
    if t is list:
        return [resolve(y, chars, okinds) for y in x]
    if isinstance(x, dict):
        return {resolve(k, chars, okinds): resolve(v, chars, okinds) for k, v in x.items()}
    if t is tuple:
        return tuple(resolve(y, chars, okinds) for y in x)
    return x
