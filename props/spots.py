"""Places a name or text may stand in, and values that Python takes for equal although they differ."""
from props.common import *


def _v(src, val):
    """A spot inside the value of a variable."""
    def f(h, w, x):
        return "var " + x + " = " + src.replace("@", w) + "\n", "variables", x, var(val(h, w))
    return f


def _d(src, val):
    """A spot inside a decorator."""
    def f(h, w, x):
        return src.replace("#", w) + "var " + x + " = 1\n", "variables", x, var(1, val(h, w))
    return f


def _t(src, val):
    """A spot inside the type of a parameter."""
    def f(h, w, x):
        return "param " + x + " " + src.replace("@", w) + "\n", "parameters", x, param(val(w))
    return f


def _arr(t):
    return {"type": "array", "item_type": t}


def _lam(expr, *names):
    d = {"var_" + str(i + 1): n for i, n in enumerate(names)}
    d["expression"] = expr
    return {"type": "lambda_expression", "detail": d}


def _loop(item, kind="array", **detail):
    return lambda config, cond_=None: {"loop_type": {"type": kind, "detail": {"item_name": item, **detail}}, "condition": cond_, "config": config}


def letters(h, w):
    h.assume(w.isascii() and w.isalpha())
    return w


def plain(h, w):
    """No namespace."""
    h.assume(w != "az" and w != "sys")
    return w


SPOTS = {
    "name": _v("@", lambda h, w: h.el(w)),
    "text": _v("'@'", lambda h, w: w),
    "lines": _v("'''@'''", lambda h, w: w),
    "interpolated": _v("'${@}'", lambda h, w: "${" + w + "}"),
    "item": _v("[@, '@']", lambda h, w: [h.el(w), w]),
    "key": _v("{ @: 1 }", lambda h, w: {w: 1}),
    "value": _v("{ a: @, b: '@' }", lambda h, w: {"a": h.el(w), "b": w}),
    "call": _v("z@(1)", lambda h, w: unknown("z" + w, 1)),
    "call_end": _v("@z()", lambda h, w: unknown(w + "z")),
    "arg": _v("foo(@, '@')", lambda h, w: unknown("foo", h.el(w), w)),
    "known": _v("contains(@, '@')", lambda h, w: fn("contains", container=h.el(w), item_to_find=w)),
    "not": _v("!@", lambda h, w: not_(h.el(w))),
    "sum": _v("@ + '@'", lambda h, w: op2("add", h.el(w), w)),
    "cond": _v("k ? @ : '@'", lambda h, w: cond(h.el("k"), h.el(w), w)),
    "base": lambda h, w, x: _v("@.b", lambda h, w: prop(h.el(w), h.el("b")))(h, plain(h, w), x),
    "prop": _v("k.@", lambda h, w: prop(h.el("k"), h.el(w))),
    "index": _v("k['@']", lambda h, w: index(h.el("k"), w)),
    "nested": _v("k::@", lambda h, w: op2("nested_resource_accessor", h.el("k"), h.el(w))),
    "list": lambda h, w, x: _v("k.list@()", lambda h, w: facc(h.el("k"), "list" + w))(h, letters(h, w), x),
    "list_arg": _v("k.listKeys('@')", lambda h, w: facc(h.el("k"), "listKeys", w)),
    "lambda": _v("map(k, @ => @)", lambda h, w: unknown("map", h.el("k"), _lam(h.el(w), w))),
    "lambda2": _v("map(k, (a, @) => '@')", lambda h, w: unknown("map", h.el("k"), _lam(w, "a", w))),
    "loop": _v("[for @ in k: 1]", lambda h, w: _loop(w, array_name=h.el("k"))(1)),
    "source": _v("[for i in @: '@']", lambda h, w: _loop("i", array_name=h.el(w))(w)),
    "index_name": _v("[for (i, @) in k: 1]", lambda h, w: _loop("i", "array_index", index_name=w, array_name=h.el("k"))(1)),
    "items": _v("[for @ in items (k): 1]", lambda h, w: _loop(w, "object", object_name=h.el("k"))(1)),
    "filter": _v("[for i in k: if (@) { a: '@' }]", lambda h, w: _loop("i", array_name=h.el("k"))({"a": w}, h.el(w))),
    "deco": _d("@z#()\n", lambda h, w: [{"type": "z" + w}]),
    "deco_arg": _d("@foo(#)\n@foo('#')\n", lambda h, w: [{"type": "foo", "argument": h.el(w)}, {"type": "foo", "argument": w}]),
    "description": _d("@description('#')\n", lambda h, w: [{"type": "description", "argument": w}]),
    "allowed": _d("@allowed(['#', #])\n", lambda h, w: [{"type": "allowed", "argument": [w, h.el(w)]}]),
    "type": _t("@", lambda w: w),
    "array_type": _t("@[]", lambda w: _arr(w)),
    "union_type": _t("(@ | b)", lambda w: {"type": "union", "members": [w, "b"]}),
    "value_type": lambda h, w, x: ("type " + x + " = 'a' | '" + w + "'\n", "types", x, ctype("a | " + w)),
    "output_type": lambda h, w, x: ("output " + x + " " + w + " = 1\n", "outputs", x, output(w, 1)),
    "var_type": lambda h, w, x: ("var " + x + " " + w + " = 1\n", "variables", x, var(1, type=w)),
    "func_arg": lambda h, w, x: ("func " + x + "(" + w + " " + w + ") " + w + " => " + w + "\n", "functions", x, func({w: w}, w, h.el(w))),
    "resource_type": lambda h, w, x: ("resource " + x + " 'a/" + w + "@1' = {\n}\n", "resources", x, resource("a/" + w, "1", {})),
    "api_version": lambda h, w, x: ("resource " + x + " 'a/b@" + w + "' = {\n}\n", "resources", x, resource("a/b", w, {})),
    "resource_key": lambda h, w, x: ("resource " + x + " 'a/b@1' = {\n  " + w + ": '" + w + "'\n}\n", "resources", x, resource("a/b", "1", {w: w})),
    "resource_cond": lambda h, w, x: ("resource " + x + " 'a/b@1' = if (" + w + ") {\n}\n", "resources", x, resource("a/b", "1", {"condition": h.el(w), "config": {}})),
    "local": lambda h, w, x: ("module " + x + " './" + w + "' = {\n}\n", "modules", x, local_module("./" + w, {})),
    "public": lambda h, w, x: ("module " + x + " 'br:mcr.microsoft.com/z" + w + ":1' = {\n}\n", "modules", x, module(
        "bicep_registry", {"full": "mcr.microsoft.com/z" + w + ":1", "registry_name": "mcr.microsoft.com", "path": "z" + w, "tag": "1", "public": True}, {})),
    "tag": lambda h, w, x: ("module " + x + " 'br/al:p:z" + w + "' = {\n}\n", "modules", x, module(
        "bicep_registry_alias", {"full": "al:p:z" + w, "alias": "al", "path": "p", "tag": "z" + w, "public": False}, {})),
    "spec": lambda h, w, x: ("module " + x + " 'ts:0/rg/z" + w + ":1' = {\n}\n", "modules", x, module(
        "template_spec", {"full": "0/rg/z" + w + ":1", "subscription_id": "0", "resource_group_id": "rg", "name": "z" + w, "version": "1"}, {})),
    "import_file": lambda h, w, x: ("import " + x + " from '" + w + "'\n", "imports", x, {"file_path": w}),
    "import_alias": lambda h, w, x: ("import " + x + " as " + w + " from 'f'\n", "imports", x, {"file_path": "f", "alias": w}),
    "metadata": lambda h, w, x: ("metadata " + x + " = '" + w + "'\n", "metadata", x, {"value": w}),
    "extension": lambda h, w, x: ("extension " + x + " with {\n  a: '" + w + "'\n} as " + w + "\n", "extensions", x, {"config": {"a": w}, "alias": w}),
}


def related(h):
    """Two names that are easily taken for one."""
    n = name(h, 1)
    return h.choose((n, h.sym(1, "identstart")), (n, n + h.sym(1, "ident")), (n + h.sym(1, "ident"), n), (n + "x", h.sym(1, "identstart") + "x"), (n + "_", "_" + n))


# pairs of values that are easily taken for one: source and value of both
ALIKE = [
    (("true", lambda h: True), ("1", lambda h: 1)), (("false", lambda h: False), ("0", lambda h: 0)), (("k", lambda h: h.el("k")), ("'k'", lambda h: "k")),
    (("'1'", lambda h: "1"), ("1", lambda h: 1)), (("'true'", lambda h: "true"), ("true", lambda h: True)), (("null", lambda h: None), ("'null'", lambda h: "null")),
    (("[]", lambda h: []), ("{}", lambda h: {})), (("''", lambda h: ""), ("null", lambda h: None)), (("[0]", lambda h: [0]), ("[false]", lambda h: [False])),
    (("{ a: 1 }", lambda h: {"a": 1}), ("{ a: true }", lambda h: {"a": True})), (("[k]", lambda h: [h.el("k")]), ("['k']", lambda h: ["k"])),
    (("foo(1)", lambda h: unknown("foo", 1)), ("foo(true)", lambda h: unknown("foo", True))), (("!k", lambda h: not_(h.el("k"))), ("!'k'", lambda h: not_("k"))),
    (("k == 0", lambda h: op2("equals", h.el("k"), 0)), ("k == false", lambda h: op2("equals", h.el("k"), False))),
    (("k[0]", lambda h: index(h.el("k"), 0)), ("k[false]", lambda h: index(h.el("k"), False))), (("'''k'''", lambda h: "k"), ("k", lambda h: h.el("k"))),
    (("[k, j]", lambda h: [h.el("k"), h.el("j")]), ("[j, k]", lambda h: [h.el("j"), h.el("k")])), (("[k]", lambda h: [h.el("k")]), ("[k, k]", lambda h: [h.el("k"), h.el("k")])),
    (("[k]", lambda h: [h.el("k")]), ("[[k]]", lambda h: [[h.el("k")]])), (("foo(k, j)", lambda h: unknown("foo", h.el("k"), h.el("j"))), ("foo(j, k)", lambda h: unknown("foo", h.el("j"), h.el("k")))),
    (("k == j", lambda h: op2("equals", h.el("k"), h.el("j"))), ("j == k", lambda h: op2("equals", h.el("j"), h.el("k")))),
    (("k.j", lambda h: prop(h.el("k"), h.el("j"))), ("j.k", lambda h: prop(h.el("j"), h.el("k")))), (("k.j", lambda h: prop(h.el("k"), h.el("j"))), ("k['j']", lambda h: index(h.el("k"), "j"))),
    (("k ? 1 : 0", lambda h: cond(h.el("k"), 1, 0)), ("k ? 0 : 1", lambda h: cond(h.el("k"), 0, 1))), (("{ a: k, b: j }", lambda h: {"a": h.el("k"), "b": h.el("j")}), ("{ a: j, b: k }", lambda h: {"a": h.el("j"), "b": h.el("k")})),
    (("{ a: 1 }", lambda h: {"a": 1}), ("{ A: 1 }", lambda h: {"A": 1})), (("'a b'", lambda h: "a b"), ("'a  b'", lambda h: "a  b")), (("foo()", lambda h: {"function": {"type": "foo", "parameters": {}}}), ("foo(null)", lambda h: unknown("foo", None))),
    (("k.listKeys(1, 2)", lambda h: facc(h.el("k"), "listKeys", 1, 2)), ("k.listKeys(2, 1)", lambda h: facc(h.el("k"), "listKeys", 2, 1))),
    (("union(k, j)", lambda h: fn("union", arg_1=h.el("k"), arg_2=h.el("j"))), ("intersection(k, j)", lambda h: fn("intersection", arg_1=h.el("k"), arg_2=h.el("j")))),
    (("map(k, (a, b) => a)", lambda h: unknown("map", h.el("k"), _lam(h.el("a"), "a", "b"))), ("map(k, (b, a) => a)", lambda h: unknown("map", h.el("k"), _lam(h.el("a"), "b", "a")))),
    (("01", lambda h: 1), ("true", lambda h: True)), (("-1", lambda h: minus(1)), ("-true", lambda h: minus(True))),
]


def alike(h):
    a, b = h.choose(ALIKE)
    return (a, b) if h.choose(True, False) else (b, a)


def _u(*members):
    return {"type": "union", "members": list(members)}


# pairs of types that are easily taken for one
ALIKE_TYPES = [
    (("(a | b)", _u("a", "b")), ("(b | a)", _u("b", "a"))), (("(a | b)", _u("a", "b")), ("(a | b | b)", _u("a", "b", "b"))), (("a", "a"), ("a[]", _arr("a"))), (("a[]", _arr("a")), ("a[][]", _arr(_arr("a")))),
    (("(a[] | b)", _u(_arr("a"), "b")), ("(a | b)[]", _arr(_u("a", "b")))), (("(a | b[])", _u("a", _arr("b"))), ("(a[] | b)", _u(_arr("a"), "b"))), (("a", "a"), ("A", "A")), (("(a | A)", _u("a", "A")), ("(A | a)", _u("A", "a"))),
    (("((a | b) | c)", _u(_u("a", "b"), "c")), ("(a | (b | c))", _u("a", _u("b", "c")))), (("(ab | c)", _u("ab", "c")), ("(a | bc)", _u("a", "bc"))), (("(a | a)", _u("a", "a")), ("(a | a | a)", _u("a", "a", "a"))),
    (("(a | b)", _u("a", "b")), ("ab", "ab")), (("array", "array"), ("object[]", _arr("object"))), (("(a | b)", _u("a", "b")), ("(a | c)", _u("a", "c"))),
]
# declarations with a type
TYPED = {
    "param": lambda h, t, v, x: ("param " + x + " " + t + "\n", "parameters", x, param(v)),
    "default": lambda h, t, v, x: ("param " + x + " " + t + " = 1\n", "parameters", x, param(v, 1)),
    "output": lambda h, t, v, x: ("output " + x + " " + t + " = 1\n", "outputs", x, output(v, 1)),
    "var": lambda h, t, v, x: ("var " + x + " " + t + " = 1\n", "variables", x, var(1, type=v)),
    "func_arg": lambda h, t, v, x: ("func " + x + "(a " + t + ", b int) int => 1\n", "functions", x, func({"a": v, "b": "int"}, "int", 1)),
    "func": lambda h, t, v, x: ("func " + x + "() " + t + " => 1\n", "functions", x, func({}, v, 1)),
}
# lists of decorators that are easily taken for one
ALIKE_DECORATORS = [
    (("@a()\n@b()\n", [{"type": "a"}, {"type": "b"}]), ("@b()\n@a()\n", [{"type": "b"}, {"type": "a"}])), (("@a()\n", [{"type": "a"}]), ("@a()\n@a()\n", [{"type": "a"}, {"type": "a"}])),
    (("@a()\n", [{"type": "a"}]), ("@a(null)\n", [{"type": "a", "argument": None}])), (("@a(1)\n", [{"type": "a", "argument": 1}]), ("@a(true)\n", [{"type": "a", "argument": True}])),
    (("@secure()\n", [{"type": "secure"}]), ("@Secure()\n", [{"type": "Secure"}])), (("@minLength(1)\n", [{"type": "min_length", "argument": 1}]), ("@maxLength(1)\n", [{"type": "max_length", "argument": 1}])),
    (("@minLength(1)\n@maxLength(2)\n", [{"type": "min_length", "argument": 1}, {"type": "max_length", "argument": 2}]), ("@maxLength(1)\n@minLength(2)\n", [{"type": "max_length", "argument": 1}, {"type": "min_length", "argument": 2}])),
    (("@allowed([1, 2])\n", [{"type": "allowed", "argument": [1, 2]}]), ("@allowed([2, 1])\n", [{"type": "allowed", "argument": [2, 1]}])), (("@description('a')\n", [{"type": "description", "argument": "a"}]), ("@description('A')\n", [{"type": "description", "argument": "A"}])),
    (("", []), ("@a()\n", [{"type": "a"}])), (("@minValue(-1)\n", [{"type": "min_value", "argument": -1}]), ("@minValue(1)\n", [{"type": "min_value", "argument": 1}])),
]
DECORATED = {
    "param": lambda h, t, v, x: (t + "param " + x + " int\n", "parameters", x, param("int", None, v)),
    "var": lambda h, t, v, x: (t + "var " + x + " = 1\n", "variables", x, var(1, v)),
    "output": lambda h, t, v, x: (t + "output " + x + " int = 1\n", "outputs", x, output("int", 1, v)),
    "resource": lambda h, t, v, x: (t + "resource " + x + " 'a@1' = {\n}\n", "resources", x, resource("a", "1", {}, False, v)),
    "module": lambda h, t, v, x: (t + "module " + x + " './m' = {\n}\n", "modules", x, local_module("./m", {}, v)),
    "type": lambda h, t, v, x: (t + "type " + x + " = 1\n", "types", x, ctype(1, v)),
    "func": lambda h, t, v, x: (t + "func " + x + "() int => 1\n", "functions", x, func({}, "int", 1, v)),
}


def alike_parts(h):
    """Two forms f(h, name) of one declaration with types or decorators that are easily taken for one."""
    hosts, pairs = h.choose((TYPED, ALIKE_TYPES), (DECORATED, ALIKE_DECORATORS))
    (s, v), (t, w) = h.choose(pairs)
    if h.choose(True, False):
        (s, v), (t, w) = (t, w), (s, v)
    f = hosts[h.choose(list(hosts))]
    g = hosts[h.choose(list(hosts))] if h.thorough() else f
    return (lambda h, n: f(h, s, v, n)), (lambda h, n: g(h, t, w, n))


# spots whose name stands in quotes only
QUOTED = {"text", "lines", "index", "list_arg", "description", "import_file", "metadata"}


def constant(h, keys):
    """Names (texts, where quoted) that contain one the code itself mentions, at one of the spots."""
    k = h.choose(list(keys))
    ws = h.words()
    if k in QUOTED:
        ws = sorted({*ws, *[t for t in h.literals() if not any(c in t for c in "'\\$")]})
    w = h.choose(ws)
    c = h.sym(1, "ident" if k not in QUOTED else "alnum")
    if k in QUOTED:
        w = h.choose(w + c, c + w, w + " " + w, " " + w + " ")
    else:
        w = h.choose(w + c, "q" + w, w + "_" + w)
    src, sec, key, attrs = SPOTS[k](h, w, "zz")
    h.eq(h.good(h.parse(src)), doc(**{sec: {key: attrs}}), "a text that contains one of the code's")


def structured(h):
    """A value whose parts are named like something the code mentions and hold nothing: (source, value)."""
    w = h.choose(h.words())
    q = h.choose("", "q")
    e, v = h.choose(("null", None), ("''", ""), ("false", False), ("0", 0), ("[]", []), ("{}", {})) if h.thorough() else h.choose(("null", None), ("''", ""), ("[]", []))
    k = w + q
    return h.choose(
        ("{ " + k + ": " + e + " }", {k: v}),
        ("{ " + k + ": 1, b_: " + e + " }", {k: 1, "b_": v}),
        ("{ a_: { " + k + ": " + e + " } }", {"a_": {k: v}}),
        ("['" + k + "', " + e + "]", [k, v]),
    )


# small values that a rule about a value's form may single out
SMALL = [
    ("[]", lambda h: []), ("{}", lambda h: {}), ("''", lambda h: ""), ("null", lambda h: None), ("0", lambda h: 0), ("1", lambda h: 1), ("-1", lambda h: minus(1)), ("true", lambda h: True),
    ("false", lambda h: False), ("k", lambda h: h.el("k")), ("'k'", lambda h: "k"), ("[0]", lambda h: [0]), ("[k]", lambda h: [h.el("k")]), ("['k']", lambda h: ["k"]), ("[null]", lambda h: [None]),
    ("['']", lambda h: [""]), ("[true]", lambda h: [True]), ("[[]]", lambda h: [[]]), ("[{}]", lambda h: [{}]), ("[[1]]", lambda h: [[1]]), ("[[k]]", lambda h: [[h.el("k")]]), ("[[[]]]", lambda h: [[[]]]),
    ("[[1], [2]]", lambda h: [[1], [2]]), ("[[1, 2]]", lambda h: [[1, 2]]), ("[{ a: 1 }]", lambda h: [{"a": 1}]), ("{ a: {} }", lambda h: {"a": {}}), ("{ a: [] }", lambda h: {"a": []}),
    ("{ a: { a: 1 } }", lambda h: {"a": {"a": 1}}), ("{ a: [1] }", lambda h: {"a": [1]}), ("{ a: null }", lambda h: {"a": None}), ("{ a: a }", lambda h: {"a": h.el("a")}), ("{ a: 'a' }", lambda h: {"a": "a"}),
    ("[1, 1]", lambda h: [1, 1]), ("[k, k]", lambda h: [h.el("k"), h.el("k")]), ("[1, 2, 3]", lambda h: [1, 2, 3]), ("[for i in k: i]", lambda h: loop_array("i", h.el("k"), h.el("i"))),
    ("foo()", lambda h: unknown("foo")), ("[foo()]", lambda h: [unknown("foo")]), ("!k", lambda h: not_(h.el("k"))),
    ("k.a", lambda h: prop(h.el("k"), h.el("a"))), ("k[0]", lambda h: index(h.el("k"), 0)), ("'${k}'", lambda h: "${k}"), ("['${k}']", lambda h: ["${k}"]), ("range(0, 3)", lambda h: fn("range", start_index=0, count=3)),
    ("(k ? 1 : 2)", lambda h: cond(h.el("k"), 1, 2)), ("(k)", lambda h: h.el("k")), ("([1])", lambda h: [1]), ("[(1)]", lambda h: [1]), ("[-1]", lambda h: [minus(1)]), ("(k == 1)", lambda h: op2("equals", h.el("k"), 1)),
]


def small(h, loops=False):
    """(source, value)"""
    s, v = h.choose([x for x in SMALL if loops or "for " not in x[0]])
    return s, v(h)
