"""The harness API.  A harness is an ordinary function `f(h)`.

It runs in two modes: symbolically (SymH, in symh.py) and concretely (ConcreteH,
here) against the unmodified package, with every free value given by a witness."""
from __future__ import annotations

from . import compare

REGISTRY = {}


def harness(name, **opts):
    def deco(f):
        f.h_name, f.h_opts = name, opts
        REGISTRY.setdefault(f.__module__, []).append(f)
        return f

    return deco


class Stop(Exception):
    def __init__(self, status, msg=""):
        super().__init__(msg)
        self.status, self.msg = status, msg


class Result:
    __slots__ = ("ok", "value", "err", "text")

    def __init__(self, ok, value=None, err=None, text=""):
        self.ok, self.value, self.err, self.text = ok, value, err, text

    def __repr__(self):
        return f"ok:{compare.short(self.value)}" if self.ok else f"error:{self.err}"


class ConcreteOpaque:
    def __init__(self, src, val):
        self.src, self.val = src, val


class BaseH:
    """Operations common to both modes."""

    tier = "quick"

    def element(self, s):
        from pycep.models import BicepElement

        return BicepElement(s)

    el = element

    def words(self):
        """Identifier-like constants of the code under check, drawn from its current source."""
        from . import words

        return words.words()

    def literals(self):
        from . import words

        return words.literals()

    def sizes(self, low=0, high=40):
        """Numbers around the integer constants of the code under check, within bounds."""
        from . import words

        return sorted({m for n in words.sizes() for m in (n - 1, n, n + 1) if low <= m <= high})

    def exact_type(self, x):
        """The type of a value; None for a sub-expression the harness supplied and nobody looked into."""
        return type(x)

    def thorough(self):
        return self.tier == "thorough"

    def op(self, type_, **operands):
        return {"operator": {"type": type_, "operands": operands}}

    def fn(self, type_, **params):
        return {"function": {"type": type_, "parameters": params}}

    def parser(self, **kw):
        from pycep import BicepParser

        return BicepParser(**kw)

    def run(self, thunk, desc="call"):
        """Run a thunk; returns Result. The outcome is logged for translation validation."""
        try:
            v = thunk()
        except Stop:
            raise
        except Exception as e:
            r = Result(False, None, type(e).__name__, self.error_text(e))
        else:
            r = Result(True, v)
        self.record(desc, r)
        return r

    def error_text(self, e):
        try:
            return str(e)
        except Exception:
            return ""

    def concurrent(self, thunks, preemptions=2):
        """Run the thunks in threads of their own, with at most this many switches before a line of pycep chosen freely.
        Returns their Results in order; a deadlock fails the property."""
        import os
        import pycep
        from . import sched

        d = os.path.dirname(pycep.__file__) + os.sep
        s = sched.Schedule(thunks, d, self.scheduler(preemptions), self.FATAL)
        try:
            tasks = s.run()
        except sched.Deadlock:
            self.check(False, "the threads wait for each other")
            self.stop()
        out = []
        for t in tasks:
            e = t.error
            r = Result(True, t.value) if e is None else Result(False, None, type(e).__name__, self.error_text(e))
            self.record("thread", r)
            out.append(r)
        return out

    FATAL = (Stop,)

    def parse_file(self, path, add_line_numbers=False, parser=None):
        p = parser if parser is not None else self.default_parser(add_line_numbers)
        return self.run(lambda: p.parse(file_path=path), "parse file")

    def tree(self, text=None, path=None, parser=None, **kw):
        p = parser if parser is not None else self.default_parser(False)
        if path is not None:
            kw["file_path"] = path
        if text is not None:
            kw["text"] = text
            self.inputs.append(text)
        return self.run(lambda: p.create_tree(**kw), "create_tree")

    def parse(self, text, add_line_numbers=False, parser=None):
        p = parser if parser is not None else self.default_parser(add_line_numbers)
        self.inputs.append(text)
        return self.run(lambda: p.parse(text=text), "parse")

    def good(self, r, msg="parses"):
        """The result must be a success; returns its value."""
        self.check(r.ok, msg + ": rejected (" + str(r.err) + ")" if not r.ok else msg)
        if not r.ok:
            self.stop()
        return r.value

    def bad(self, r, msg="must be rejected"):
        self.check(not r.ok, msg)

    def shape(self, kinds=None, without=()):
        """One of the expression shapes, written out (so the grammar sees it)."""
        from . import values

        k = self.choose([k for k in (kinds or values.KINDS) if k not in without])
        if k == "ref":
            return ConcreteOpaque("kk", self.element("kk"))
        t = values.BYKIND[k]
        return ConcreteOpaque(t.src, t.make())

    def var(self, expr, name="x"):
        """Parse `var x = <expr>` and return the value (or stop with a violation)."""
        v = self.good(self.parse(f"var {name} = {expr}\n"), f"var {name} = <expr>")
        self.check(set(v) == {"globals", "variables"} and set(v["variables"]) == {name}, "exactly one variable")
        return v["variables"][name]["value"]


class ConcreteH(BaseH):
    symbolic = False

    def __init__(self, witness, tier="quick"):
        self.w = witness
        self.tier = tier
        self.ci = self.si = self.oi = 0
        self.log = []
        self.inputs = []
        self.failures = []
        self.nchecks = 0
        self.diverged = False
        self._parsers = {}
        self._dir = None

    def default_parser(self, add_line_numbers):
        global _PARSERS
        p = _PARSERS.get(add_line_numbers)
        if p is None:
            p = _PARSERS[add_line_numbers] = self.parser(add_line_numbers=add_line_numbers)
        return p

    def file(self, text, name="main.bicep", locale="utf-8"):
        """A file with this text (None: a file that does not exist) in a scratch directory of this run; its bytes are UTF-8,
        locale is what the environment would decode them with if the caller named no encoding."""
        from pathlib import Path

        if self._dir is None:
            import tempfile

            self._dir = tempfile.mkdtemp(prefix="symx-files-")
        p = Path(self._dir) / name
        if locale != "utf-8":
            p = locale_path(p, locale)
        if text is not None:
            self.rewrite(p, text)
        return p

    def rewrite(self, path, text):
        self.inputs.append(text if isinstance(text, str) else repr(text))
        if isinstance(text, bytes):
            with open(path, "wb") as fh:
                fh.write(text)
            return
        with open(path, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)

    def scheduler(self, preemptions):
        todo = list(self.w.get("sched", []))

        def ask(n, where, others):
            if todo and todo[0][:4] == where and todo[0][4] in others:
                return todo.pop(0)[4]
            return None

        return ask

    def close(self):
        if self._dir is not None:
            import shutil

            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def choose(self, *opts):
        if len(opts) == 1:
            opts = opts[0]
            if isinstance(opts, int):
                opts = range(opts)
        opts = list(opts)
        if self.ci < len(self.w["choices"]):
            i = self.w["choices"][self.ci]
        else:
            i, self.diverged = 0, True
        self.ci += 1
        return opts[i if i < len(opts) else 0]

    def sym(self, n, cls="any"):
        if self.si < len(self.w["syms"]):
            s = self.w["syms"][self.si]
        else:
            s, self.diverged = "a" * n, True
        self.si += 1
        return s

    def digits(self, n):
        return self.sym(n, "digit")

    def opaque(self, kinds=None, without=()):
        from . import values

        if self.oi < len(self.w["opaques"]):
            k = self.w["opaques"][self.oi]
        else:
            k, self.diverged = "ref", True
        n = self.oi
        self.oi += 1
        if k == "ref":
            return ConcreteOpaque(values.placeholder(n), self.element(values.placeholder(n)))
        t = values.BYKIND[k]
        return ConcreteOpaque(t.src, t.make())

    def assume(self, cond):
        if not cond:
            raise Stop("assume")

    def stop(self):
        raise Stop("stop")

    def record(self, desc, r):
        self.log.append([desc, "ok", compare.canon(r.value)] if r.ok else [desc, "err"])

    def check(self, cond, msg="check", known=None):
        self.nchecks += 1
        if not cond:
            self.failures.append({"msg": msg, "known": known})

    def eq(self, actual, expected, msg="value", known=None, wrong=None, strict=False):
        """Typed deep equality. With `known`, a mismatch that equals `wrong` is that finding."""
        self.nchecks += 1
        if not strict:
            actual = untoken(actual)
        d = compare.diff(actual, expected)
        if d:
            k = known if known is not None and not compare.diff(actual, wrong) else None
            self.failures.append({"msg": f"{msg}: " + "; ".join(d), "known": k})


_PARSERS = {}


def locale_path(p, locale):
    class LocalePath(type(p)):
        """A path in an environment whose default text encoding is another one."""

        def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
            if "b" not in mode and encoding in (None, "locale"):
                encoding = locale
            return open(str(self), mode, buffering, encoding, errors, newline)

        def read_text(self, encoding=None, errors=None):
            with self.open("r", -1, encoding, errors) as fh:
                return fh.read()

    return LocalePath(p)


def untoken(x):
    from lark import Token

    if isinstance(x, Token):
        return str(x)
    if type(x) is list:
        return [untoken(y) for y in x]
    if type(x) is dict:
        return {untoken(k): untoken(v) for k, v in x.items()}
    return x


def run_concrete(f, witness, tier="quick"):
    h = ConcreteH(witness, tier)
    status, msg = "ok", ""
    try:
        f(h)
    except Stop as s:
        status, msg = s.status, s.msg
        if status == "stop":
            status = "ok"
    except RecursionError as e:
        status, msg = "error", "RecursionError"
    except Exception as e:
        status, msg = "error", f"{type(e).__name__}: {e}"
    h.close()
    if h.failures:
        status = "violation"
    return {"status": status, "msg": msg, "failures": h.failures, "log": h.log, "inputs": h.inputs,
            "checks": h.nchecks, "diverged": h.diverged}
