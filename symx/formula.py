"""Hash-consed boolean formulas over symbolic characters, with a fast abstract
evaluation over per-character domains and a translation to z3."""
from __future__ import annotations

from .domain import FULL

_table = {}
_next = 0


class F:
    __slots__ = ("op", "a", "b", "id", "size")

    def __repr__(self):
        return f"F({self.op},{self.a},{self.b})"

    def __bool__(self):
        raise TypeError("formula used as bool")


def _mk(op, a, b=None):
    if op in ("and", "or"):
        key = (op, tuple(x.id for x in a))
    elif op == "not":
        key = (op, a.id)
    else:
        key = (op, a, b)
    f = _table.get(key)
    if f is None:
        f = F()
        f.op, f.a, f.b = op, a, b
        global _next
        f.id = _next = _next + 1
        _table[key] = f
    return f


TRUE = _mk("const", True)
FALSE = _mk("const", False)
_raw = {}


def reset_tables():
    """Drop interned formulas (between paths; nothing may keep references)."""
    _table.clear()
    _zcache.clear()
    _table[("const", True, None)] = TRUE
    _table[("const", False, None)] = FALSE


def In(k, mask):
    if mask == 0:
        return FALSE
    if mask == FULL:
        return TRUE
    return _mk("in", k, mask)


def EqC(a, b):
    if a == b:
        return TRUE
    if a > b:
        a, b = b, a
    return _mk("eqc", a, b)


def Raw(key, builder, vars_):
    """Opaque z3 atom. key identifies it; builder(zvar) -> z3 BoolRef."""
    k = ("raw", key)
    f = _table.get(k)
    if f is None:
        f = F()
        f.op, f.a, f.b = "raw", builder, tuple(vars_)
        global _next
        f.id = _next = _next + 1
        _table[k] = f
    return f


def Not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "in":
        return In(f.a, FULL & ~f.b)
    if f.op == "not":
        return f.a
    return _mk("not", f)


def And(*fs):
    ins = {}
    rest = {}
    stack = list(reversed(fs))
    while stack:
        f = stack.pop()
        if f is TRUE:
            continue
        if f is FALSE:
            return FALSE
        if f.op == "and":
            stack.extend(f.a)
        elif f.op == "in":
            m = ins.get(f.a, FULL) & f.b
            if m == 0:
                return FALSE
            ins[f.a] = m
        else:
            rest[f.id] = f
    for f in rest.values():
        if f.op == "not" and f.a.id in rest:
            return FALSE
    out = [In(k, m) for k, m in sorted(ins.items())] + [rest[i] for i in sorted(rest)]
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out))


def Or(*fs):
    ins = {}
    rest = {}
    stack = list(reversed(fs))
    while stack:
        f = stack.pop()
        if f is FALSE:
            continue
        if f is TRUE:
            return TRUE
        if f.op == "or":
            stack.extend(f.a)
        elif f.op == "in":
            m = ins.get(f.a, 0) | f.b
            if m == FULL:
                return TRUE
            ins[f.a] = m
        else:
            rest[f.id] = f
    for f in rest.values():
        if f.op == "not" and f.a.id in rest:
            return TRUE
    out = [In(k, m) for k, m in sorted(ins.items())] + [rest[i] for i in sorted(rest)]
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out))


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def ev(f, dom, memo=None):
    """Three-valued evaluation under per-variable domains: True/False/None."""
    op = f.op
    if op == "const":
        return f.a
    if op == "in":
        d = dom.get(f.a, FULL)
        if d & f.b == 0:
            return False
        if d & ~f.b == 0:
            return True
        return None
    if op == "eqc":
        da, db = dom.get(f.a, FULL), dom.get(f.b, FULL)
        if da & db == 0:
            return False
        if da == db and da & (da - 1) == 0:
            return True
        return None
    if op == "raw":
        return None
    if memo is None:
        memo = {}
    r = memo.get(f.id, 0)
    if r != 0:
        return r
    if op == "not":
        r = ev(f.a, dom, memo)
        r = None if r is None else not r
    elif op == "and":
        r = True
        for x in f.a:
            v = ev(x, dom, memo)
            if v is False:
                r = False
                break
            if v is None:
                r = None
    else:
        r = False
        for x in f.a:
            v = ev(x, dom, memo)
            if v is True:
                r = True
                break
            if v is None:
                r = None
    memo[f.id] = r
    return r


def variables(f, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if f.id in seen:
        return acc
    seen.add(f.id)
    if f.op == "in":
        acc.add(f.a)
    elif f.op == "eqc":
        acc.update((f.a, f.b))
    elif f.op == "raw":
        acc.update(f.b)
    elif f.op == "not":
        variables(f.a, acc, seen)
    elif f.op in ("and", "or"):
        for x in f.a:
            variables(x, acc, seen)
    return acc


# --- z3 ---------------------------------------------------------------------
_z3 = None
_zcache = {}
_zvars = {}


def z3mod():
    global _z3
    if _z3 is None:
        import z3

        _z3 = z3
    return _z3


def zvar(k):
    v = _zvars.get(k)
    if v is None:
        v = _zvars[k] = z3mod().BitVec(f"c{k}", 8)
    return v


def _ranges(mask):
    out = []
    i = 0
    while i < 256:
        if mask >> i & 1:
            j = i
            while j + 1 < 256 and mask >> (j + 1) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return out


def to_z3(f):
    z = _zcache.get(f.id)
    if z is not None:
        return z
    z3 = z3mod()
    op = f.op
    if op == "const":
        z = z3.BoolVal(f.a)
    elif op == "in":
        v = zvar(f.a)
        mask = f.b
        neg = False
        rs = _ranges(mask)
        rs2 = _ranges(FULL & ~mask)
        if len(rs2) < len(rs):
            rs, neg = rs2, True
        parts = []
        for lo, hi in rs:
            if lo == hi:
                parts.append(v == lo)
            elif lo == 0:
                parts.append(z3.ULE(v, hi))
            elif hi == 255:
                parts.append(z3.UGE(v, lo))
            else:
                parts.append(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        z = parts[0] if len(parts) == 1 else z3.Or(parts)
        if neg:
            z = z3.Not(z)
    elif op == "eqc":
        z = zvar(f.a) == zvar(f.b)
    elif op == "raw":
        z = f.a()
    elif op == "not":
        z = z3.Not(to_z3(f.a))
    elif op == "and":
        z = z3.And([to_z3(x) for x in f.a])
    else:
        z = z3.Or([to_z3(x) for x in f.a])
    _zcache[f.id] = z
    return z
