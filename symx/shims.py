"""Run-time support called from instrumented code."""
from __future__ import annotations

import builtins
import collections
import functools
import itertools
import operator
import re
import types

from . import engine
from . import rx
from . import text as tx
from . import values as vals
from .engine import Unsupported
from .formula import FALSE, TRUE, And, Not, Or

_str_has = tx.MARK_RE.search
NATIVE_MODULES = ("pycep", "props", "symx", "lark")
_PASS_TYPES = (str, list, tuple, dict, set, frozenset, object, type, super, enumerate, zip, map, filter, reversed,
               range, slice, property, staticmethod, classmethod, types.SimpleNamespace)
_PASS_FUNCS = {builtins.print, builtins.len, builtins.iter, builtins.next, builtins.id, builtins.getattr,
               builtins.setattr, builtins.hasattr, builtins.callable, builtins.vars, builtins.all, builtins.any}


def marked(x):
    return isinstance(x, str) and type(x) is not vals.Opaque and _str_has(x) is not None


def _deep_marked(x, depth=4):
    t = type(x)
    if t is vals.Opaque:
        return True
    if isinstance(x, str):
        return _str_has(x) is not None
    if t is vals.SymInt:
        return True
    if depth:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(_deep_marked(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(_deep_marked(k, 1) or _deep_marked(v, depth - 1) for k, v in x.items())
    return False


def concretise_deep(x):
    t = type(x)
    if t is vals.Opaque:
        return concretise_deep(x._force())
    if t is vals.SymInt:
        return x.concrete()
    if isinstance(x, str):
        if _str_has(x) is None:
            return x
        c = tx.concretise(x)
        if t is str:
            return c
        try:
            from lark import Token

            if isinstance(x, Token):
                return Token.new_borrow_pos(x.type, c, x)
            return t(c)
        except Exception:
            return c
    if t in (list, tuple, set, frozenset):
        return t(concretise_deep(y) for y in x)
    if t is dict:
        return {concretise_deep(k): concretise_deep(v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- equality

def eq_formula(a, b):
    """Python equality as a formula (no forking except to materialise opaques)."""
    if a is b:
        return TRUE
    if type(a) is vals.Opaque:
        a = a._force()
    if type(b) is vals.Opaque:
        b = b._force()
    ta, tb = type(a), type(b)
    if isinstance(a, str) and isinstance(b, str):
        if ta is not str and tb is not str:
            from lark import Token

            if isinstance(a, Token) and isinstance(b, Token) and a.type != b.type:
                return FALSE
        return tx.str_eq(a, b)
    if ta is vals.SymInt and isinstance(b, int):
        return a.eqf(b)
    if tb is vals.SymInt and isinstance(a, int):
        return b.eqf(a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) is not isinstance(b, list) or len(a) != len(b):
            return FALSE
        return And(*[eq_formula(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return FALSE
        fs = []
        for k, v in a.items():
            k2 = align(b, k)
            if not dict.__contains__(b, k2):
                return FALSE
            fs.append(eq_formula(v, dict.__getitem__(b, k2)))
        return And(*fs)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b):
            return FALSE
        return And(*[Or(*[eq_formula(x, y) for y in b]) for x in a])
    return TRUE if a == b else FALSE


def decide(f):
    """Decide a formula on the current path; constants need none (module level code)."""
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    return engine.CTX.decide(f)


def deep_eq_decide(a, b):
    return decide(eq_formula(a, b))


def _plain(a):
    """No symbolic content at the top level (cheap test)."""
    t = type(a)
    if t is str:
        return _str_has(a) is None
    if t is int or t is bool or a is None or t is float:
        return True
    return False


def eq(a, b):
    if _plain(a) and _plain(b):
        return a == b
    for x, y in ((a, b), (b, a)):
        if type(x) is vals.Opaque and x is not y and _plain(y):
            return x._ask(lambda v: v == y)
    if type(a) is vals.Opaque:
        a = a._force()
    if type(b) is vals.Opaque:
        b = b._force()
    if isinstance(a, (str, list, tuple, dict, set, frozenset)) or isinstance(b, (str, list, tuple, dict, set, frozenset)) or type(a) is vals.SymInt or type(b) is vals.SymInt:
        if _deep_marked(a) or _deep_marked(b):
            return deep_eq_decide(a, b)
    return a == b


def align(container, key):
    """A key of the container equal to `key` on this path, or `key` itself."""
    if type(key) is vals.Opaque:
        key = key._force()
    if type(key) is tuple:
        if any(marked(x) for x in key):
            for k in list(container):
                if type(k) is tuple and len(k) == len(key) and deep_eq_decide(k, key):
                    return k
        return key
    if not isinstance(key, str):
        return key
    km = _str_has(key) is not None
    n = len(key)
    for k in list(container):
        if isinstance(k, str) and len(k) == n and (km or _str_has(k) is not None):
            if str.__eq__(k, key):
                return k
            if decide(tx.str_eq(k, key)):
                return k
    return key


def contains(container, x):
    if type(container) is vals.Opaque:
        container = container._force()
    if type(x) is vals.Opaque and x is not None:
        if isinstance(container, (list, tuple)):
            for y in container:
                if y is x:
                    return True
        x = x._force()
    if isinstance(container, str):
        if isinstance(x, str) and (_str_has(container) or _str_has(x)):
            return tx.contains(container, x)
        return x in container
    if isinstance(container, (dict, set, frozenset)) or isinstance(container, type({}.keys())):
        if isinstance(x, str):
            km = _str_has(x) is not None
            return decide(Or(*[tx.str_eq(k, x) for k in container if isinstance(k, str) and len(k) == len(x)
                                             and (km or _str_has(k) is not None or str.__eq__(k, x))]))
        return align(container, x) in container
    if isinstance(container, (list, tuple)):
        if isinstance(x, str) and all(isinstance(y, str) for y in container):
            return decide(Or(*[tx.str_eq(y, x) for y in container if len(y) == len(x)]))
        for y in container:
            if y is x or eq(y, x):
                return True
        return False
    if marked(x):
        it = list(container)
        return contains(it, x)
    return x in container


# ---------------------------------------------------------------- operators

def cmp(op, a, b):
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return not eq(a, b)
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return not contains(b, a)
    if op == "is":
        for x, y in ((a, b), (b, a)):
            if type(x) is vals.Opaque and type(y) is not vals.Opaque:
                return x._ask(lambda v: v is y)
        return a is b
    if op == "is not":
        return not cmp("is", a, b)
    if isinstance(a, str) and isinstance(b, str) and (marked(a) or marked(b)):
        if op == "<":
            return tx.lt(a, b)
        if op == ">":
            return tx.lt(b, a)
        if op == "<=":
            return not tx.lt(b, a)
        return not tx.lt(a, b)
    if isinstance(a, _SETS) and isinstance(b, _SETS):
        if op in (">", ">="):
            a, b = b, a
        return (op in ("<=", ">=") or len(a) < len(b)) and all(contains(b, x) for x in a)
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    return a >= b


def getitem(o, k):
    if isinstance(o, dict):
        k = align(o, k)
    elif type(k) is vals.SymInt:
        k = k.concrete()
    return o[k]


def setitem(o, k, v):
    if type(o) is vals.Opaque:
        o = o._force()
    if isinstance(o, dict):
        k = align(o, k)
    o[k] = v


def delitem(o, k):
    if type(o) is vals.Opaque:
        o = o._force()
    if isinstance(o, dict):
        k = align(o, k)
    del o[k]


def mkdict(*parts):
    """Dict display: parts are ('kv', key, value) / ('**', mapping)."""
    out = {}
    for p in parts:
        if p[0] == "kv":
            out[align(out, p[1])] = p[2]
        else:
            m = vals.raw(p[1])
            for k in m.keys():
                out[align(out, k)] = m[k]
    return out


def mkdict_pairs(pairs):
    out = {}
    for k, v in pairs:
        out[align(out, k)] = v
    return out


def mkset(items):
    out = set()
    for x in items:
        out.add(align(out, x))
    return out


_SETS = (set, frozenset, type({}.keys()))


def binop(op, a, b):
    """The operators |, &, - and ^ on sets and dicts of symbolic strings."""
    a, b = (vals.raw(a), vals.raw(b))
    if isinstance(a, dict) and isinstance(b, dict) and op == "|":
        return mkdict(("**", a), ("**", b))
    if isinstance(a, _SETS) and isinstance(b, _SETS):
        if op == "|":
            r = mkset([*a, *b])
        elif op == "&":
            r = {x for x in a if contains(b, x)}
        elif op == "-":
            r = {x for x in a if not contains(b, x)}
        else:
            r = {x for x in a if not contains(b, x)} | {x for x in b if not contains(a, x)}
        return frozenset(r) if isinstance(a, frozenset) else r
    return {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor}[op](a, b)


def augop(op, a, b):
    if isinstance(a, dict) and op == "|":
        callm(a, "update", b)
        return a
    if isinstance(a, set) and isinstance(b, _SETS):
        r = binop(op, a, b)
        a.clear()
        a.update(r)
        return a
    if isinstance(a, frozenset):
        return binop(op, a, b)
    return {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor}[op](a, b)


def match_subject(x, consts):
    """Align a match-statement subject with the string constants of its cases."""
    if type(x) is vals.Opaque:
        x = x._force()
    if type(x) in (list, tuple) and any(type(y) is not vals.Opaque and marked(y) for y in x):
        return type(x)(y if type(y) is vals.Opaque else match_subject(y, consts) for y in x)
    if type(x) is dict and any(type(y) is not vals.Opaque and marked(y) for y in x.values()):
        return {k: y if type(y) is vals.Opaque else match_subject(y, consts) for k, y in x.items()}
    if isinstance(x, str) and _str_has(x) is not None:
        for c in consts:
            if isinstance(c, str) and len(c) == len(x) and decide(tx.str_eq(x, c)):
                return c
    return x


# ---------------------------------------------------------------- regex objects

_progs = {}


class SymMatch:
    def __init__(self, pat, s, start, end, caps):
        self.re, self.string, self._s, self._e, self._caps = pat, s, start, end, dict(caps)
        self.pos, self.endpos = 0, len(s)

    def _idx(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._idx(g)
        return (self._s, self._e) if g == 0 else self._caps.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else str(self.string)[a:b]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _one

    def expand(self, t):
        if "\\" not in t:
            return t
        return re.sub(r"\\(?:g<(\w+)>|(\d))", lambda g: self._one(int(g[1] or g[2]) if (g[1] or g[2]).isdigit() else g[1]) or "", t)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self.re.groupindex}

    @property
    def lastindex(self):
        best = None
        for i in sorted(self._caps):
            a, b = self._caps[i]
            if a < 0:
                continue
            if best is None or b > self._caps[best][1] or b == self._caps[best][1] == a:
                best = i
        return best

    @property
    def lastgroup(self):
        n = {i: n for n, i in self.re.groupindex.items()}
        return n.get(self.lastindex)

    def __bool__(self):
        return True


def _prog(pat):
    p = _progs.get(pat)
    if p is None:
        eng = re
        if type(pat).__module__.startswith(("regex", "_regex")):
            import regex

            eng = regex
        p = _progs[pat] = rx.Prog(eng, pat.pattern, pat.flags & ~re.UNICODE & (re.I | re.S | re.A | re.M | re.X))
    return p


def re_apply(pat, mode, s, pos=0, endpos=None):
    end = len(s) if endpos is None else min(endpos, len(s))
    prog = _prog(pat)
    starts = [pos] if mode in ("match", "fullmatch") else range(pos, end + 1)
    s0 = str(s)
    for st in starts:
        outs, fail = rx.run(prog, s0, st, end, full=(mode == "fullmatch"))
        i = engine.CTX.branch([c for _, c in outs] + [fail]) if outs else 0
        if outs and i < len(outs):
            (tag, e, caps), _ = outs[i]
            return SymMatch(pat, s0, st, e, caps)
    return None


def re_call(pat, name, args, kw):
    s = args[0] if args else kw.get("string")
    s = vals.raw(s)
    if isinstance(s, str) and _str_has(s):
        try:
            if name in ("match", "fullmatch", "search"):
                return re_apply(pat, name, s, *args[1:], **{k: v for k, v in kw.items() if k != "string"})
            if name in ("findall", "finditer"):
                out, pos = [], 0
                while pos <= len(s):
                    m = re_apply(pat, "search", s, pos)
                    if m is None:
                        break
                    out.append(m)
                    pos = m.end() if m.end() > m.start() else m.end() + 1
                if name == "finditer":
                    return iter(out)
                if pat.groups == 0:
                    return [m.group() for m in out]
                if pat.groups == 1:
                    return [m.group(1) or "" for m in out]
                return [tuple(x or "" for x in m.groups()) for m in out]
            if name == "split" and pat.groups == 0:
                out, last, pos = [], 0, 0
                while pos <= len(s):
                    m = re_apply(pat, "search", s, pos)
                    if m is None:
                        break
                    if m.end() == m.start():
                        raise Unsupported("empty split")
                    out.append(str(s)[last:m.start()])
                    last = pos = m.end()
                out.append(str(s)[last:])
                return out
        except Unsupported as e:
            engine.CTX.notes.append(f"regex not modelled: {e}")
    return getattr(pat, name)(*[concretise_deep(a) for a in args], **kw)


def _re_subn(pat, repl, s, count=0):
    seen = []

    def f(m):
        seen.append(1)
        return callf(repl, m) if callable(repl) else m.expand(repl)

    return _re_sub(pat, f, s, count), len(seen)


def _re_sub(pat, repl, s, count=0):
    s = vals.raw(s)
    if not marked(s):
        return pat.sub(repl, s, count)
    out, last, pos, n = [], 0, 0, 0
    while pos <= len(s) and (not count or n < count):
        m = re_apply(pat, "search", s, pos)
        if m is None:
            break
        out.append(str(s)[last:m.start()])
        if callable(repl):
            out.append(repl(m))
        else:
            out.append(m.expand(repl))
        n += 1
        last = m.end()
        pos = m.end() if m.end() > m.start() else m.end() + 1
    out.append(str(s)[last:])
    return "".join(out)


_RE_NAMES = {"match", "fullmatch", "search", "findall", "finditer", "split"}


def _is_pat(x):
    return isinstance(x, re.Pattern) or type(x).__name__ == "Pattern"


# ---------------------------------------------------------------- calls

def sx_int(x=0, *rest, **kw):
    if "base" in kw:
        rest = (kw.pop("base"),)
    if type(x) is vals.Opaque:
        x = x._force()
    if type(x) is vals.SymInt:
        return x
    if marked(x):
        t = str(x)
        if not rest or rest == (10,):
            body = t[1:] if t[:1] in "+-" and not tx.is_mark(t[:1]) else t
            if body and decide(And(*[tx.ch_in(c, tx.pmask("dec", lambda y: y in "0123456789")) for c in body])):
                v = vals.SymInt.from_digits(body)
                return -v if t[0] == "-" else v
        return int(tx.concretise(t), *rest)
    return int(x, *rest)


def sx_bool(x=False):
    return bool(x)


def sx_isinstance(x, cls):
    if type(x) is vals.Opaque:
        return x._ask(lambda v: isinstance(v, cls))
    if type(x) is vals.SymInt:
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(_sym_isint(c) for c in cs)
    return isinstance(x, cls)


def _sym_isint(c):
    try:
        return issubclass(int, c) if not isinstance(c, tuple) else any(_sym_isint(y) for y in c)
    except TypeError:
        return isinstance(0, c)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is vals.Opaque:
            return x._ask(type)
        return int if type(x) is vals.SymInt else type(x)
    return type(*a)


def sx_dict(*a, **kw):
    out = {}
    if a:
        src = vals.raw(a[0])
        if hasattr(src, "keys"):
            for k in src.keys():
                out[align(out, k)] = src[k]
        else:
            for pair in src:
                k, v = pair
                out[align(out, k)] = v
    out.update(kw)
    return out


def sx_set(*a):
    return mkset(vals.raw(a[0])) if a else set()


def sx_len(x):
    return len(vals.raw(x))


def sx_str(*a, **kw):
    if len(a) == 1 and not kw:
        x = vals.raw(a[0])
        if type(x) is vals.SymInt:
            return str(x)
        return str(x)
    return str(*a, **kw)


def sx_sorted(it, *, key=None, reverse=False):
    items = list(it)

    def c(a, b):
        ka, kb = (callf(key, a), callf(key, b)) if key else (a, b)
        if cmp("<", ka, kb):
            return -1
        return 1 if cmp("<", kb, ka) else 0

    return sorted(items, key=functools.cmp_to_key(c), reverse=reverse)


def _best(op):
    def run(*a, key=None, **kw):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            return (max if op == ">" else min)([], **kw)
        best = items[0]
        kb = callf(key, best) if key else best
        for x in items[1:]:
            kx = callf(key, x) if key else x
            if cmp(op, kx, kb):
                best, kb = x, kx
        return best

    return run


def sx_groupby(it, key=None):
    out = []
    for x in it:
        k = callf(key, x) if key else x
        if out and eq(out[-1][0], k):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(xs)) for k, xs in out])


def sx_ordereddict(*a, **kw):
    out = collections.OrderedDict()
    for k, v in sx_dict(*a, **kw).items():
        out[k] = v
    return out


def sx_defaultdict(factory=None, *a, **kw):
    out = collections.defaultdict(factory)
    for k, v in sx_dict(*a, **kw).items():
        out[k] = v
    return out


def sx_counter(it=None, **kw):
    out = collections.Counter()
    it = vals.raw(it) if it is not None else ()
    if hasattr(it, "keys"):
        for k, v in sx_dict(it).items():
            out[k] = v
    else:
        for x in it:
            x = align(out, x)
            out[x] = out.get(x, 0) + 1
    for k, v in kw.items():
        out[align(out, k)] = out.get(align(out, k), 0) + v
    return out


def sx_repr(x):
    return repr(concretise_deep(x)) if _deep_marked(x) else repr(x)


def sx_ord(c):
    if marked(c):
        return ord(tx.concretise(c))
    return ord(c)


def sx_open(f, *a, **kw):
    from .symh import SymPath

    return f.open(*a, **kw) if isinstance(f, SymPath) else open(f, *a, **kw)


FUNCS = {
    builtins.open: sx_open, builtins.int: sx_int, builtins.bool: sx_bool, builtins.isinstance: sx_isinstance, builtins.type: sx_type,
    builtins.dict: sx_dict, builtins.set: sx_set, builtins.len: sx_len, builtins.str: sx_str,
    builtins.sorted: sx_sorted, builtins.ord: sx_ord,
    builtins.max: _best(">"), builtins.min: _best("<"), builtins.repr: sx_repr, itertools.groupby: sx_groupby,
    collections.OrderedDict: sx_ordereddict, collections.defaultdict: sx_defaultdict, collections.Counter: sx_counter,
    builtins.frozenset: lambda *a: frozenset(sx_set(*a)),
    dict.fromkeys: lambda keys, value=None: mkdict_pairs((k, value) for k in vals.raw(keys)),
    operator.eq: eq, operator.ne: lambda a, b: not eq(a, b), operator.contains: contains, operator.getitem: lambda o, k: getitem(o, k),
    operator.setitem: lambda o, k, v: setitem(o, k, v), operator.is_: lambda a, b: cmp("is", a, b),
    operator.lt: lambda a, b: cmp("<", a, b), operator.gt: lambda a, b: cmp(">", a, b),
    operator.le: lambda a, b: cmp("<=", a, b), operator.ge: lambda a, b: cmp(">=", a, b),
}


def _install_re(mod):
    for n in _RE_NAMES:
        def f(pat, string, *a, _n=n, _m=mod, **kw):
            flags = kw.pop("flags", a[0] if a and _n != "split" else 0)
            p = pat if _is_pat(pat) else _m.compile(pat, flags)
            return re_call(p, _n, (string,), {})

        FUNCS[getattr(mod, n)] = f

    def sub(pat, repl, string, count=0, flags=0, _m=mod):
        p = pat if _is_pat(pat) else _m.compile(pat, flags)
        return _re_sub(p, repl, string, count)

    def subn(pat, repl, string, count=0, flags=0, _m=mod):
        p = pat if _is_pat(pat) else _m.compile(pat, flags)
        return _re_subn(p, repl, string, count)

    FUNCS[mod.sub] = sub
    FUNCS[mod.subn] = subn


_install_re(re)


def install_regex():
    try:
        import regex

        _install_re(regex)
    except ImportError:
        pass


def _native_ok(f):
    if f in _PASS_FUNCS:
        return True
    if isinstance(f, type):
        if f in _PASS_TYPES or issubclass(f, (str, BaseException)):
            return True
        return f.__module__.split(".")[0] in NATIVE_MODULES + ("typing", "collections", "types", "functools", "itertools", "operator", "dataclasses", "pathlib")
    mod = getattr(f, "__module__", None) or ""
    if mod.split(".")[0] in NATIVE_MODULES + ("typing", "itertools", "functools", "copy", "operator", "dataclasses", "collections"):
        return True
    if isinstance(f, (types.MethodType,)):
        return True
    return False


def _reaching(a):
    """A built-in passed as a callback, so that it reaches the shims when it is called."""
    if type(a) is operator.methodcaller or type(a) is operator.itemgetter:
        return lambda o: callf(a, o)
    if type(a) is types.MethodDescriptorType and a.__objclass__ in (str, dict, list, tuple, set):
        return lambda o, *r, **k: callm(o, a.__name__, *r, **k)
    if type(a) in (types.BuiltinMethodType, types.MethodWrapperType) and isinstance(a.__self__, (str, dict, list, tuple, set, frozenset)):
        return lambda *r, **k: callm(a.__self__, a.__name__, *r, **k)
    try:
        if a in FUNCS or a in (builtins.len, builtins.bool):
            return lambda *r, **k: callf(a, *r, **k)
    except TypeError:
        pass
    return a


def _takes_callbacks(f):
    if f is map or f is filter or f is functools.reduce or f is functools.partial:
        return True
    return getattr(f, "__module__", None) == "itertools"


def callf(f, /, *args, **kw):
    try:
        s = FUNCS.get(f)
    except TypeError:
        s = None
    if s is not None:
        return s(*args, **kw)
    if type(f) is types.MethodDescriptorType and args and f.__objclass__ in (str, dict, list, tuple, set):
        return callm(args[0], f.__name__, *args[1:], **kw)
    if type(f) is operator.methodcaller and len(f.__reduce__()[1]) and not isinstance(f.__reduce__()[0], functools.partial):
        name, *rest = f.__reduce__()[1]
        return callm(args[0], name, *rest)
    if type(f) is operator.itemgetter:
        r = tuple(getitem(args[0], k) for k in f.__reduce__()[1])
        return r[0] if len(r) == 1 else r
    if _takes_callbacks(f):
        return f(*map(_reaching, args), **kw)
    if isinstance(f, (types.FunctionType, types.MethodType)):
        return f(*args, **kw) if _native_ok(f) or not _any_marked(args, kw) else _call_concrete(f, args, kw)
    if type(f) is types.BuiltinMethodType and getattr(f, "__self__", None) is not None and not isinstance(f.__self__, (types.ModuleType, type)):
        return callm(f.__self__, f.__name__, *args, **kw)
    if _native_ok(f) or not _any_marked(args, kw):
        return f(*args, **kw)
    return _call_concrete(f, args, kw)


def _any_marked(args, kw):
    return any(_deep_marked(a) for a in args) or (bool(kw) and any(_deep_marked(a) for a in kw.values()))


def _call_concrete(f, args, kw):
    n = getattr(f, "__qualname__", None) or repr(f)
    engine.CTX.notes.append(f"concretised call: {n}")
    return f(*[concretise_deep(a) for a in args], **{k: concretise_deep(v) for k, v in kw.items()})


_DICT_KEYED = {"get", "pop", "setdefault", "__contains__", "__getitem__"}


def callm(o, name, /, *args, **kw):
    if type(o) is vals.Opaque:
        o = o._force()
    if isinstance(o, str):
        if _str_has(o) is not None or any(isinstance(a, str) and _str_has(a) is not None for a in args):
            m = tx.METHODS.get(name)
            if m is not None and getattr(type(o), name, None) is getattr(str, name, None):
                return m(o, *args, **kw)
            if name not in tx.NATIVE and getattr(type(o), name, None) is getattr(str, name, None):
                return _call_concrete(getattr(str, name), (o,) + args, kw)
        return getattr(o, name)(*args, **kw)
    if isinstance(o, dict):
        if name in _DICT_KEYED and args:
            args = (align(o, args[0]),) + args[1:]
        elif name == "update":
            for a in args:
                a = vals.raw(a)
                if hasattr(a, "keys"):
                    for k in a.keys():
                        o[align(o, k)] = a[k]
                else:
                    for k, v in a:
                        o[align(o, k)] = v
            for k, v in kw.items():
                o[align(o, k)] = v
            return None
        return getattr(o, name)(*args, **kw)
    if isinstance(o, (set, frozenset)):
        if name in ("add", "discard", "remove", "__contains__") and args:
            args = (align(o, args[0]),)
        elif name in ("union", "intersection", "difference", "symmetric_difference"):
            r = o
            for a in args:
                r = binop({"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name], r, mkset(vals.raw(a)))
            return r
        elif name in ("issubset", "issuperset", "isdisjoint") and args:
            b = mkset(vals.raw(args[0]))
            return cmp("<=", o, b) if name == "issubset" else cmp(">=", o, b) if name == "issuperset" else not binop("&", o, b)
        elif name == "update":
            for a in args:
                for x in vals.raw(a):
                    o.add(align(o, x))
            return None
        return getattr(o, name)(*args, **kw)
    if isinstance(o, (list, tuple)) and name in ("index", "count", "remove") and args:
        x = args[0]
        hits = 0
        for i, y in enumerate(o):
            if y is x or eq(y, x):
                if name == "index":
                    return i
                if name == "remove":
                    del o[i]
                    return None
                hits += 1
        if name == "count":
            return hits
        raise ValueError("not in list")
    if _is_pat(o):
        if name in _RE_NAMES:
            return re_call(o, name, args, kw)
        if name == "sub":
            return _re_sub(o, *args, **kw)
        if name == "subn":
            return _re_subn(o, *args, **kw)
    f = getattr(o, name)
    if isinstance(o, types.ModuleType) or isinstance(o, type):
        if isinstance(o, type) and issubclass(o, str) and args and isinstance(args[0], str) and name in tx.METHODS:
            return callm(args[0], name, *args[1:], **kw)
        return callf(f, *args, **kw)
    return f(*args, **kw)
