"""Expected documents and value positions shared by the harnesses."""
from symx.compare import Ordered, ordered


def doc(scope="resourceGroup", **sections):
    d = {"globals": {"scope": {"value": scope}}}
    d.update(sections)
    return d


def var(value, decorators=None, **kw):
    d = {"decorators": decorators or [], "value": value}
    d.update(kw)
    return d


def param(type_, default=None, decorators=None):
    return {"decorators": decorators or [], "type": type_, "default": default}


def output(type_, value, decorators=None):
    return {"decorators": decorators or [], "type": type_, "value": value}


def resource(type_, api, config, existing=False, decorators=None):
    return {"decorators": decorators or [], "type": type_, "api_version": api, "existing": existing, "config": config}


def module(type_, detail, config, decorators=None):
    return {"decorators": decorators or [], "type": type_, "detail": detail, "config": config}


def local_module(path, config, decorators=None):
    return module("local", {"full": path, "path": path}, config, decorators)


def ctype(value, decorators=None):
    return {"decorators": decorators or [], "value": value}


def func(args, type_, expression, decorators=None):
    return {"decorators": decorators or [], "args": Ordered(args), "type": type_, "expression": expression}


def op2(kind, a, b):
    return {"operator": {"type": kind, "operands": {"operand_1": a, "operand_2": b}}}


def fn(kind, **params):
    return {"function": {"type": kind, "parameters": params}}


def cond(c, t, f):
    return {"operator": {"type": "conditional", "operands": {"condition": c, "true_value": t, "false_value": f}}}


def not_(v):
    return {"operator": {"type": "not", "operands": {"bool_value": v}}}


def minus(v):
    return {"operator": {"type": "minus", "operands": {"integer_value": v}}}


def index(a, b):
    return op2("index_accessor", a, b)


def prop(a, b):
    return op2("property_accessor", a, b)


def loop_array(item, source, config, condition=None):
    return {"loop_type": {"type": "array", "detail": {"item_name": item, "array_name": source}}, "condition": condition, "config": config}


# Every place a value may stand in: name -> (text before, text after, expected document of a value)
def _k(h):
    return h.el("k")


POSITIONS = {
    "var": ("var x = ", "\n", lambda h, v: doc(variables={"x": var(v)})),
    "param": ("param x string = ", "\n", lambda h, v: doc(parameters={"x": param("string", v)})),
    "output": ("output x string = ", "\n", lambda h, v: doc(outputs={"x": output("string", v)})),
    "item": ("var x = [\n  1\n  ", "\n  2\n]\n", lambda h, v: doc(variables={"x": var([1, v, 2])})),
    "items": ("var x = [1, ", ", 2]\n", lambda h, v: doc(variables={"x": var([1, v, 2])})),
    "prop": ("var x = {\n  a: 1\n  b: ", "\n  c: 2\n}\n", lambda h, v: doc(variables={"x": var({"a": 1, "b": v, "c": 2})})),
    "arg": ("var x = foo(1, ", ", 2)\n", lambda h, v: doc(variables={"x": var(fn("foo", arg_1=1, arg_2=v, arg_3=2))})),
    "deco": ("@foo(", ")\nparam x string\n", lambda h, v: doc(parameters={"x": param("string", None, [{"type": "foo", "argument": v}])})),
    "paren": ("var x = (", ")\n", lambda h, v: doc(variables={"x": var(v)})),
    "left": ("var x = (", ") == k\n", lambda h, v: doc(variables={"x": var(op2("equals", v, _k(h)))})),
    "right": ("var x = k == ", "\n", lambda h, v: doc(variables={"x": var(op2("equals", _k(h), v))})),
    "then": ("var x = k ? ", " : 2\n", lambda h, v: doc(variables={"x": var(cond(_k(h), v, 2))})),
    "else": ("var x = k ? 1 : ", "\n", lambda h, v: doc(variables={"x": var(cond(_k(h), 1, v))})),
    "index": ("var x = k[", "]\n", lambda h, v: doc(variables={"x": var(index(_k(h), v))})),
    "config": ("resource r 'a/b@1' = {\n  p: ", "\n}\n", lambda h, v: doc(resources={"r": resource("a/b", "1", {"p": v})})),
    "module": ("module m './m.bicep' = {\n  params: {\n    p: ", "\n  }\n}\n",
               lambda h, v: doc(modules={"m": local_module("./m.bicep", {"params": {"p": v}})})),
    "loop": ("var x = [for i in k: ", "]\n", lambda h, v: doc(variables={"x": var(loop_array("i", _k(h), v))})),
    "body": ("func f(a int) string => ", "\n", lambda h, v: doc(functions={"f": func({"a": "int"}, "string", v)})),
}


def positions(h, quick):
    return h.choose(quick if not h.thorough() else list(POSITIONS))


def embed(h, name, src, value):
    """(text, expected document) of an expression at a position."""
    a, b, d = POSITIONS[name]
    return a + src + b, d(h, value)


def expect(h, name, src, value, msg="result", **kw):
    text, d = embed(h, name, src, value)
    v = h.good(h.parse(text), f"{msg} at {name}")
    h.eq(v, d, f"{msg} at {name}", **kw)


def name(h, n=1):
    """A symbolic identifier of n characters."""
    return h.sym(1, "identstart") + (h.sym(n - 1, "ident") if n > 1 else "")


def facc(base, func_name, *args):
    d = {"operand_1": base, "func_name": func_name}
    for i, a in enumerate(args):
        d[f"operand_{i + 2}"] = a
    return {"operator": {"type": "function_accessor", "operands": d}}


def fargs(*args):
    return {f"arg_{i + 1}": a for i, a in enumerate(args)}


def unknown(nm, *args):
    return fn(nm, **fargs(*args))
