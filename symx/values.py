"""Symbolic integers and lazily materialised sub-expression values."""
from __future__ import annotations

import sys

from . import engine
from . import formula as fm
from . import text as tx
from .domain import D
from .formula import FALSE, TRUE, And, Not, Or


WIDTH = 160


class SymInt(int):
    """An integer given by decimal digit characters: value = f(chars), as WIDTH-bit
    bit-vector (digit counts are bounded far below overflow)."""

    def __new__(cls, build, vars_, key, digits=None):
        self = int.__new__(cls, 0)
        self.build, self.vars, self.key, self.digits = build, vars_, key, digits
        return self

    @classmethod
    def from_digits(cls, s):
        ks = [tx.vid(c) if tx.is_mark(c) else None for c in s]

        def build():
            z3 = fm.z3mod()
            acc = z3.BitVecVal(0, WIDTH)
            for c, k in zip(s, ks):
                d = z3.ZeroExt(WIDTH - 8, fm.zvar(k)) - ord("0") if k is not None else z3.BitVecVal(int(c), WIDTH)
                acc = acc * 10 + d
            return acc

        return cls(build, tuple(k for k in ks if k is not None), ("dig", s), s)

    @staticmethod
    def _lift(o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, int):
            v = int(o)
            return SymInt(lambda: fm.z3mod().BitVecVal(v, WIDTH), (), ("const", v))
        return None

    def _bin(self, o, name, fn):
        o = SymInt._lift(o)
        if o is None:
            return NotImplemented
        a = self
        return SymInt(lambda: fn(a.build(), o.build()), a.vars + o.vars, (name, a.key, o.key))

    def __add__(self, o):
        return self._bin(o, "+", lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, "-", lambda a, b: a - b)

    def __rsub__(self, o):
        return SymInt._lift(o)._bin(self, "-", lambda a, b: a - b)

    def __mul__(self, o):
        if not isinstance(o, int):
            return int.__mul__(self.concrete(), o)
        return self._bin(o, "*", lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt._lift(0)._bin(self, "-", lambda a, b: a - b)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def cmp(self, o, name, fn):
        o = SymInt._lift(o)
        a = self
        return fm.Raw((name, a.key, o.key), lambda: fn(a.build(), o.build()), a.vars + o.vars)

    def eqf(self, o):
        if isinstance(o, SymInt) and o.key == self.key:
            return TRUE
        return self.cmp(o, "==", lambda a, b: a == b)

    def __eq__(self, o):
        if not isinstance(o, int):
            return NotImplemented if not isinstance(o, float) else self.concrete() == o
        return engine.CTX.decide(self.eqf(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return engine.CTX.decide(self.cmp(o, "<", lambda a, b: a < b))

    def __le__(self, o):
        return engine.CTX.decide(self.cmp(o, "<=", lambda a, b: a <= b))

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return not self < o

    def __bool__(self):
        return not engine.CTX.decide(self.eqf(0))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        for k in self.vars:
            engine.CTX.concretise(k)
        return self.value({k: D[engine.CTX.dom[k].bit_length() - 1] for k in self.vars})

    def value(self, chars):
        """Value under an assignment of characters."""
        key = self.key
        return _val(key, chars)

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self

    def __str__(self):
        if self.digits is not None:
            s = self.digits
            while len(s) > 1 and engine.CTX.decide(tx.ch_eq(s[0], "0")):
                s = s[1:]
            return s
        if self.key[0] == "-" and self.key[1] == ("const", 0):
            inner = SymInt.from_digits(self.key[2][1]) if self.key[2][0] == "dig" else None
            if inner is not None:
                return "0" if not inner else "-" + str(inner)
        return str(self.concrete())

    __repr__ = __str__

    def __format__(self, spec):
        return format(str(self) if not spec else self.concrete(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _val(key, chars):
    if key[0] == "dig":
        return int("".join(chars[tx.vid(c)] if tx.is_mark(c) else c for c in key[1]))
    if key[0] == "const":
        return key[1]
    a, b = _val(key[1], chars), _val(key[2], chars)
    return a + b if key[0] == "+" else a - b if key[0] == "-" else a * b


class Template:
    """A concrete shape an Opaque may take: source text and its value."""

    def __init__(self, kind, src, make):
        self.kind, self.src, self.make = kind, src, make


def _el(x):
    from pycep.models import BicepElement

    return BicepElement(x)


def _call(name, **params):
    return {"function": {"type": name, "parameters": params}}


# Bicep expressions together with the value the documentation gives them.
TEMPLATES = [
    Template("ref", None, None),
    Template("null", "null", lambda: None),
    Template("true", "true", lambda: True),
    Template("false", "false", lambda: False),
    Template("zero", "0", lambda: 0),
    Template("int", "7", lambda: 7),
    Template("empty", "''", lambda: ""),
    Template("str", "'q r'", lambda: "q r"),
    Template("word", "'if'", lambda: "if"),
    Template("interp", "'a${b}'", lambda: "a${b}"),
    Template("earr", "[]", lambda: []),
    Template("arr", "[1, k]", lambda: [1, _el("k")]),
    Template("eobj", "{}", lambda: {}),
    Template("obj", "{ function: 1 }", lambda: {"function": 1}),
    Template("obj2", "{ operator: k, type: 'minus' }", lambda: {"operator": _el("k"), "type": "minus"}),
    Template("fn", "empty(k)", lambda: _call("empty", item_to_test=_el("k"))),
    Template("iffn", "if(k)", lambda: _call("if", arg_1=_el("k"))),
    Template("not", "(!k)", lambda: {"operator": {"type": "not", "operands": {"bool_value": _el("k")}}}),
    Template("minus", "(-3)", lambda: {"operator": {"type": "minus", "operands": {"integer_value": 3}}}),
    Template("add", "(k + 1)", lambda: {"operator": {"type": "add", "operands": {"operand_1": _el("k"), "operand_2": 1}}}),
    Template("acc", "(k.id)", lambda: {"operator": {"type": "property_accessor", "operands": {"operand_1": _el("k"), "operand_2": _el("id")}}}),
    Template("mls", "'''m'''", lambda: "m"),
]
KINDS = [t.kind for t in TEMPLATES]
BYKIND = {t.kind: t for t in TEMPLATES}


_SAMPLES = {}


def placeholder(n):
    return f"ZQ{n}Z"


class Opaque:
    """An arbitrary sub-expression value.  Stays uninterpreted until the code
    inspects it; then the path forks over the template shapes."""

    def __init__(self, n, kinds, root=None):
        d = self.__dict__
        d["_n"], d["_root"], d["_c"], d["_v"] = n, self if root is None else root, [kinds, None] if root is None else root._c, None

    # [kinds still possible, kind], shared by every occurrence of this expression
    @property
    def _kinds(self):
        return self._c[0]

    @property
    def _t(self):
        return self._c[1]

    # harness view
    @property
    def src(self):
        return placeholder(self._n)

    @property
    def val(self):
        return self

    def occurrence(self):
        """The value of one occurrence in the source: same kind, its own objects."""
        return Opaque(self._n, None, self._root)

    def _force(self):
        if self._c[1] is None:
            self._c[1] = self._c[0][engine.CTX.free(len(self._c[0]))]
        if self._v is None:
            k = self._c[1]
            self.__dict__["_v"] = (_el(placeholder(self._n)) if k == "ref" else BYKIND[k].make(),)
        return self._v[0]

    def _only(self, kind):
        """Resolve to a specific kind when the path allows it."""
        if self._c[1] is None and kind in self._c[0]:
            self._c[1] = kind
        return self._c[1] == kind

    def _sample(self, kind):
        v = _SAMPLES.get((self._n, kind))
        if v is None:
            v = _SAMPLES[(self._n, kind)] = (_el(placeholder(self._n)) if kind == "ref" else BYKIND[kind].make(),)
        return v[0]

    def _ask(self, key):
        """key(value) for a pure function key; forks only over its distinct results."""
        if self._t is not None:
            return key(self._force())
        groups = {}
        for k in self._kinds:
            groups.setdefault(key(self._sample(k)), []).append(k)
        results = list(groups)
        i = engine.CTX.free(len(results))
        self._c[0] = ks = groups[results[i]]
        if len(ks) == 1:
            self._force()
        return results[i]

    @property
    def __class__(self):
        # Lark itself only asks whether a node is a Tree or a Token: no value is
        if sys._getframe(1).f_globals.get("__name__", "").startswith("lark."):
            return Opaque
        return type(self._force())

    def __bool__(self):
        return self._ask(bool)

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is Opaque:
            if o._c is self._c and o._v is None and self._v is None:
                return True
            o = o._force()
        from .shims import deep_eq_decide

        return deep_eq_decide(self._force(), o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._force())

    def __str__(self):
        return str(self._force())

    def __repr__(self):
        return "<Opaque %d%s>" % (self._n, "" if self._t is None else ":" + self._t)

    def __format__(self, spec):
        return format(self._force(), spec)

    def __getattr__(self, name):
        if name.startswith("_repr") or name in ("_v", "_t", "_n", "_kinds", "_c", "_root"):
            raise AttributeError(name)
        return getattr(self._force(), name)

    def __getitem__(self, k):
        return self._force()[k]

    def __setitem__(self, k, v):
        self._force()[k] = v

    def __delitem__(self, k):
        del self._force()[k]

    def __contains__(self, k):
        return k in self._force()

    def __iter__(self):
        return iter(self._force())

    def __len__(self):
        return len(self._force())

    def __int__(self):
        return int(self._force())

    def __index__(self):
        return self._force().__index__()

    def __float__(self):
        return float(self._force())

    def __add__(self, o):
        return self._force() + o

    def __radd__(self, o):
        return o + self._force()

    def __sub__(self, o):
        return self._force() - o

    def __rsub__(self, o):
        return o - self._force()

    def __mul__(self, o):
        return self._force() * o

    def __rmul__(self, o):
        return o * self._force()

    def __neg__(self):
        return -self._force()

    def __or__(self, o):
        return self._force() | o

    def __ror__(self, o):
        return o | self._force()

    def __lt__(self, o):
        return self._force() < o

    def __le__(self, o):
        return self._force() <= o

    def __gt__(self, o):
        return self._force() > o

    def __ge__(self, o):
        return self._force() >= o

    def keys(self):
        return self._force().keys()

    def __copy__(self):
        return self.occurrence() if self._v is None else __import__("copy").copy(self._force())

    def __deepcopy__(self, memo):
        return self.occurrence() if self._v is None else __import__("copy").deepcopy(self._force(), memo)


def is_opaque(x):
    return type(x) is Opaque


def raw(x):
    """Materialised value behind an opaque, or x."""
    return x._force() if type(x) is Opaque else x
