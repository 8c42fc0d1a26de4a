"""Operations on strings that contain marker characters (symbolic characters).

A marker is a plane-15 private-use code point; ordinary str operations that only
copy characters keep it intact.  Operations that *inspect* characters are
implemented here and fork the path as needed."""
from __future__ import annotations

import re

from . import engine
from . import formula as fm
from .domain import D, FULL, INDEX, MARK_BASE, MARK_MAX, mask_where
from .formula import FALSE, TRUE, And, EqC, In, Not, Or

MARK_RE = re.compile("[\U000F0000-\U000FFFFF]")
_LO = chr(MARK_BASE)
_HI = chr(MARK_BASE + MARK_MAX)


def has(s):
    return MARK_RE.search(s) is not None


def is_mark(c):
    return _LO <= c <= _HI


def vid(c):
    return ord(c) - MARK_BASE


def ch_in(c, mask):
    """Condition: character c belongs to mask (concrete characters outside D never do)."""
    if _LO <= c <= _HI:
        return In(ord(c) - MARK_BASE, mask)
    i = INDEX.get(c)
    if i is None:
        return FALSE
    return TRUE if mask >> i & 1 else FALSE


def ch_eq(a, b):
    if a == b:
        return TRUE
    ma, mb = _LO <= a <= _HI, _LO <= b <= _HI
    if ma and mb:
        return EqC(ord(a) - MARK_BASE, ord(b) - MARK_BASE)
    if ma:
        i = INDEX.get(b)
        return FALSE if i is None else In(ord(a) - MARK_BASE, 1 << i)
    if mb:
        i = INDEX.get(a)
        return FALSE if i is None else In(ord(b) - MARK_BASE, 1 << i)
    return FALSE


def str_eq(a, b):
    if len(a) != len(b):
        return FALSE
    if str.__eq__(a, b):
        return TRUE
    return And(*[ch_eq(x, y) for x, y in zip(str(a), str(b))])


def decide(f):
    return engine.CTX.decide(f)


def eq(a, b):
    return decide(str_eq(a, b))


_masks = {}


def pmask(name, pred):
    m = _masks.get(name)
    if m is None:
        m = _masks[name] = mask_where(pred)
    return m


def ch_pred(c, name, pred):
    if is_mark(c):
        return In(vid(c), pmask(name, pred))
    return TRUE if pred(c) else FALSE


def concretise(s):
    c = engine.CTX
    return "".join(c.concretise(vid(x)) if is_mark(x) else x for x in s)


def at(s, i, sub):
    """Condition: sub occurs in s at index i."""
    if i < 0 or i + len(sub) > len(s):
        return FALSE
    return And(*[ch_eq(s[i + j], sub[j]) for j in range(len(sub))])


def _bounds(s, start, end):
    n = len(s)
    start = 0 if start is None else start
    end = n if end is None else end
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def find(s, sub, start=None, end=None):
    a, b = _bounds(s, start, end)
    s = str(s)
    for i in range(a, b - len(sub) + 1):
        if decide(at(s, i, sub)):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    a, b = _bounds(s, start, end)
    s = str(s)
    for i in range(b - len(sub), a - 1, -1):
        if decide(at(s, i, sub)):
            return i
    return -1


def index(s, sub, start=None, end=None):
    i = find(s, sub, start, end)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rindex(s, sub, start=None, end=None):
    i = rfind(s, sub, start, end)
    if i < 0:
        raise ValueError("substring not found")
    return i


def contains(s, sub):
    if sub == "":
        return True
    s = str(s)
    return decide(Or(*[at(s, i, sub) for i in range(len(s) - len(sub) + 1)]))


def count(s, sub, start=None, end=None):
    a, b = _bounds(s, start, end)
    s = str(s)
    if sub == "":
        return max(0, b - a) + 1
    n, i = 0, a
    while i + len(sub) <= b:
        if decide(at(s, i, sub)):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def startswith(s, prefix, start=None, end=None):
    a, b = _bounds(s, start, end)
    t = str(s)[a:b]
    if isinstance(prefix, tuple):
        return any(startswith(t, p) for p in prefix)
    return decide(at(t, 0, prefix)) if len(prefix) <= len(t) else False


def endswith(s, suffix, start=None, end=None):
    a, b = _bounds(s, start, end)
    t = str(s)[a:b]
    if isinstance(suffix, tuple):
        return any(endswith(t, p) for p in suffix)
    return decide(at(t, len(t) - len(suffix), suffix)) if len(suffix) <= len(t) else False


def removeprefix(s, p):
    t = str(s)
    return t[len(p):] if startswith(t, p) else t


def removesuffix(s, p):
    t = str(s)
    return t[: len(t) - len(p)] if p and endswith(t, p) else t


def _strip_pred(chars):
    if chars is None:
        return lambda c: ch_pred(c, "isspace", str.isspace)
    chars = str(chars)
    return lambda c: Or(*[ch_eq(c, x) for x in chars])


def lstrip(s, chars=None):
    p = _strip_pred(chars)
    t = str(s)
    i = 0
    while i < len(t) and decide(p(t[i])):
        i += 1
    return t[i:]


def rstrip(s, chars=None):
    p = _strip_pred(chars)
    t = str(s)
    i = len(t)
    while i > 0 and decide(p(t[i - 1])):
        i -= 1
    return t[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def split(s, sep=None, maxsplit=-1):
    t = str(s)
    if sep is None:
        p = _strip_pred(None)
        out, i, n = [], 0, len(t)
        while True:
            while i < n and decide(p(t[i])):
                i += 1
            if i >= n:
                return out
            if 0 <= maxsplit <= len(out):
                out.append(rstrip(t[i:]))
                return out
            j = i
            while j < n and not decide(p(t[j])):
                j += 1
            out.append(t[i:j])
            i = j
    if sep == "":
        raise ValueError("empty separator")
    out, last, i = [], 0, 0
    while i + len(sep) <= len(t):
        if (maxsplit < 0 or len(out) < maxsplit) and decide(at(t, i, sep)):
            out.append(t[last:i])
            i += len(sep)
            last = i
        else:
            i += 1
    out.append(t[last:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        return concretise(str(s)).rsplit(None, maxsplit)
    t = str(s)
    out, last, i = [], len(t), len(t) - len(sep)
    while i >= 0:
        if len(out) < maxsplit and decide(at(t, i, sep)):
            out.append(t[i + len(sep):last])
            last = i
            i -= len(sep)
        else:
            i -= 1
    out.append(t[:last])
    out.reverse()
    return out


def partition(s, sep):
    i = find(s, sep)
    t = str(s)
    return (t, "", "") if i < 0 else (t[:i], t[i:i + len(sep)], t[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    t = str(s)
    return ("", "", t) if i < 0 else (t[:i], t[i:i + len(sep)], t[i + len(sep):])


def replace(s, old, new, cnt=-1):
    t = str(s)
    if old == "":
        return t.replace(old, new, cnt)
    out, i, n = [], 0, 0
    while i < len(t):
        if (cnt < 0 or n < cnt) and i + len(old) <= len(t) and decide(at(t, i, old)):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


_LINES = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def splitlines(s, keepends=False):
    t = str(s)
    out, last, i = [], 0, 0
    while i < len(t):
        if decide(Or(*[ch_eq(t[i], x) for x in _LINES])):
            j = i + 1
            if j < len(t) and decide(And(ch_eq(t[i], "\r"), ch_eq(t[j], "\n"))):
                j += 1
            out.append(t[last:j] if keepends else t[last:i])
            last = i = j
        else:
            i += 1
    if last < len(t):
        out.append(t[last:])
    return out


_derived = {}


def _map_char(c, fn, name):
    """Character-wise mapping of a symbolic character through fn (a total str->str)."""
    ctx = engine.CTX
    k = vid(c)
    dom = ctx.dom.get(k, FULL)
    same = pmask("same:" + name, lambda x: fn(x) == x)
    if dom & ~same == 0:
        return c
    ok = pmask("closed:" + name, lambda x: fn(x) in INDEX)
    if not ctx.decide(In(k, ok)):
        return fn(ctx.concretise(k))
    if ctx.decide(In(k, same)):
        return c
    live = ctx.dom.get(k, FULL) & ok & ~same
    groups = {}
    for i in range(256):
        if live >> i & 1:
            groups[i] = INDEX[fn(D[i])]
    if len(groups) == 1:
        return D[next(iter(groups.values()))]
    m2 = 0
    for v in groups.values():
        m2 |= 1 << v
    n = ctx.new_char(m2)
    k2 = vid(n)
    key = ("map", name, k, k2, live)

    def build():
        z3 = fm.z3mod()
        a, b = fm.zvar(k), fm.zvar(k2)
        return z3.And([z3.Implies(a == i, b == v) for i, v in groups.items()])

    ctx.add(fm.Raw(key, build, (k, k2)))
    return n


def _mapper(name, fn):
    def run(s):
        return "".join(_map_char(c, fn, name) if is_mark(c) else fn(c) for c in str(s))

    return run


lower = _mapper("lower", str.lower)
upper = _mapper("upper", str.upper)
casefold = _mapper("casefold", str.casefold)
swapcase = _mapper("swapcase", str.swapcase)


def capitalize(s):
    t = str(s)
    up = _mapper("title1", str.title)
    return up(t[:1]) + lower(t[1:])


def _all(name, pred):
    def run(s):
        t = str(s)
        return bool(t) and all(decide(ch_pred(c, name, pred)) for c in t)

    return run


isdigit = _all("isdigit", str.isdigit)
isdecimal = _all("isdecimal", str.isdecimal)
isnumeric = _all("isnumeric", str.isnumeric)
isalpha = _all("isalpha", str.isalpha)
isalnum = _all("isalnum", str.isalnum)
isspace = _all("isspace", str.isspace)


def isascii(s):
    return all(decide(ch_pred(c, "isascii", str.isascii)) for c in str(s))


def isprintable(s):
    return all(decide(ch_pred(c, "isprintable", str.isprintable)) for c in str(s))


def isidentifier(s):
    t = str(s)
    if not t:
        return False
    if not decide(ch_pred(t[0], "idstart", str.isidentifier)):
        return False
    return all(decide(ch_pred(c, "idcont", lambda x: ("a" + x).isidentifier())) for c in t[1:])


def lt(a, b):
    """a < b, lexicographic by code point."""
    a, b = str(a), str(b)
    for x, y in zip(a, b):
        if decide(ch_eq(x, y)):
            continue
        mx, my = is_mark(x), is_mark(y)
        if not mx and not my:
            return x < y
        if mx and not my:
            return decide(In(vid(x), mask_where(lambda c: c < y)))
        if my and not mx:
            return decide(In(vid(y), mask_where(lambda c: c > x)))
        kx, ky = vid(x), vid(y)

        def build():
            return fm.z3mod().ULT(fm.zvar(kx), fm.zvar(ky))

        return decide(fm.Raw(("ult", kx, ky), build, (kx, ky)))
    return len(a) < len(b)


def encode(s, *args, **kw):
    return concretise(str(s)).encode(*args, **kw)


# methods that only copy characters
NATIVE = {
    "join", "format", "format_map", "ljust", "rjust", "center", "zfill", "__str__", "__len__", "__getitem__",
    "__add__", "__mul__", "__rmul__", "__iter__", "__class__", "__hash__", "__new__", "__init__",
}

METHODS = {
    n: globals()[n]
    for n in (
        "find rfind index rindex count startswith endswith removeprefix removesuffix lstrip rstrip strip split rsplit "
        "partition rpartition replace splitlines lower upper casefold swapcase capitalize isdigit isdecimal isnumeric "
        "isalpha isalnum isspace isascii isprintable isidentifier encode"
    ).split()
}
METHODS["__contains__"] = contains
METHODS["__eq__"] = lambda a, b: eq(a, b) if isinstance(b, str) else NotImplemented
METHODS["__ne__"] = lambda a, b: (not eq(a, b)) if isinstance(b, str) else NotImplemented


def expandtabs(s, tabsize=8):
    return concretise(str(s)).expandtabs(tabsize)


METHODS["expandtabs"] = expandtabs


def translate(s, table):
    out = []
    keys = list(table) if hasattr(table, "keys") else None
    if keys is None:
        return concretise(str(s)).translate(table)
    for c in str(s):
        if not is_mark(c):
            out.append(c.translate(table))
            continue
        for k in keys:
            if type(k) is int and decide(ch_eq(c, chr(k))):
                out.append(chr(k).translate(table))
                break
        else:
            out.append(c)
    return "".join(out)


METHODS["translate"] = translate
