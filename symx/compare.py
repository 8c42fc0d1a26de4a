"""Typed structural comparison and canonical forms, shared by the symbolic and
the concrete runs."""
from __future__ import annotations


class Ordered(dict):
    """An expected dict whose keys come in this order."""


def ordered(v):
    """The expected value with the keys of its objects in the written order."""
    if type(v) is list:
        return [ordered(x) for x in v]
    if type(v) is dict and not (len(v) == 1 and ("operator" in v or "function" in v)) and "loop_type" not in v and "depends_on" not in v:
        return Ordered((k, ordered(x)) for k, x in v.items())
    return v


def kind(x):
    from lark import Token
    from pycep.models import BicepElement

    if x is None:
        return "null"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, BicepElement):
        return "element"
    if isinstance(x, Token):
        return "token"
    if isinstance(x, str):
        return "str"
    if isinstance(x, list):
        return "list"
    if isinstance(x, dict):
        return "dict"
    return "other:" + type(x).__name__


def canon(x):
    """JSON form with type tags (concrete values only)."""
    k = kind(x)
    if k in ("null",):
        return ["null"]
    if k in ("bool", "int"):
        return [k, int(x)]
    if k in ("element", "str", "token"):
        return [k, str(x)]
    if k == "list":
        return [k, [canon(y) for y in x]]
    if k == "dict":
        return [k, sorted(([canon(a), canon(b)] for a, b in x.items()), key=repr)]
    return [k, repr(x)]


def diff(actual, expected, path="$", out=None):
    """Concrete typed difference, for messages."""
    if out is None:
        out = []
    if len(out) > 4:
        return out
    ka, ke = kind(actual), kind(expected)
    if ka != ke:
        out.append(f"{path}: got {ka} {short(actual)}, expected {ke} {short(expected)}")
    elif ka == "dict":
        for k in expected:
            if k not in actual:
                out.append(f"{path}: missing key {k!r}")
            else:
                diff(actual[k], expected[k], f"{path}.{k}", out)
        for k in actual:
            if k not in expected:
                out.append(f"{path}: unexpected key {k!r} = {short(actual[k])}")
        if type(expected) is Ordered and len(actual) == len(expected) and list(actual) != list(expected):
            out.append(f"{path}: keys {list(actual)}, expected {list(expected)}")
    elif ka == "list":
        if len(actual) != len(expected):
            out.append(f"{path}: {len(actual)} items {short(actual)}, expected {len(expected)} {short(expected)}")
        else:
            for i, (a, b) in enumerate(zip(actual, expected)):
                diff(a, b, f"{path}[{i}]", out)
    elif actual != expected:
        out.append(f"{path}: got {short(actual)}, expected {short(expected)}")
    return out


def short(x):
    r = repr(x)
    return r if len(r) < 200 else r[:197] + "..."
