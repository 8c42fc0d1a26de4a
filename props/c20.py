from props import c06, c15
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every declaration kind and form (26), every value shape in 18 positions and pairwise inside every operator, accessor, loop and collection; every built-in function with "
             "every argument count, every decorator on every host, all type forms, module path schemes, nested resources in every place; symbolic names, keys and "
             "text of 1 to 2 characters; line numbers on and off; nesting depth 3; 0..6 decorators, arguments, names, members, properties or levels",
    "thorough": "as quick with nesting depth 4, symbolic text of up to 4 characters and all pairs of declaration kinds",
}
ASSUMPTIONS = ["the JSON round trip itself (json.dumps, json.loads) is run on the unmodified package's result for each path's witness; the encoding shows for all values of the "
               "path that keys are plain strings and values only dict, list, str, BicepElement, int, bool or None by exact type, on which json is faithful; lone "
               "surrogates, which cannot stand in a UTF-8 file, are outside"]


def plain(h, r, ln=False):
    """All parts of a result are plain data, by exact type."""
    if not r.ok:
        return
    h.check(type(r.value) is dict, "a dictionary")
    _plain(h, r.value, "$", set())
    if not h.symbolic:
        import json

        s = json.dumps(r.value)
        h.check(json.loads(s) == r.value, "JSON round trip")
        h.check(json.dumps(json.loads(s)) == s, "JSON round trip, again")


def is_plain_str(h, x):
    from pycep.models import BicepElement

    return h.exact_type(x) in (str, BicepElement)


def _plain(h, x, path, stack):
    t = h.exact_type(x)
    if t is dict:
        h.check(id(x) not in stack, "no cycle at " + path)
        stack.add(id(x))
        for k, v in x.items():
            h.check(is_plain_str(h, k), "plain string key at " + path)
            h.check("__child_resource__" not in k and "child resource" not in k and "__name__" not in k, "no placeholder key at " + path)
            _plain(h, v, path + ".*", stack)
        stack.discard(id(x))
    elif t is list:
        h.check(id(x) not in stack, "no cycle at " + path)
        stack.add(id(x))
        for y in x:
            _plain(h, y, path + "[]", stack)
        stack.discard(id(x))
    elif t is not None:
        h.check(x is None or t in (int, bool) or is_plain_str(h, x), "plain value at " + path)


def same(h, text, want, ln=None):
    """The text parses to exactly this, by exact types."""
    ln = h.choose(False, True) if ln is None else ln
    r = h.parse(text, add_line_numbers=ln)
    h.good(r)
    plain(h, r)
    if not ln:
        h.eq(r.value, want, "result", strict=True)


@harness("declarations")
def declarations(h):
    d = c15.decls(h, 1)[h.choose(c15.NAMES)]()
    w = doc()
    w.setdefault(d.section, {})[d.nm] = d.attrs
    same(h, d.src + "\n", w)


@harness("pairs", thorough_only=True)
def pairs(h):
    d = c15.decls(h, 1)[h.choose(c15.NAMES)]()
    e = c15.decls(h, 2)[h.choose(c15.NAMES)]()
    h.assume(not (d.section == e.section == "globals"))
    w = doc()
    for x in (d, e):
        w.setdefault(x.section, {})[x.nm] = x.attrs
    same(h, d.src + "\n" + e.src + "\n", w)


@harness("shapes")
def shapes(h):
    """Every shape in every position."""
    a = h.shape()
    pos = h.choose(list(POSITIONS))
    h.assume(not (pos == "loop" and a.src.startswith("if(")))  # reads as a filter there
    t, w = embed(h, pos, a.src, a.val)
    same(h, t, w)


BIN = [("==", "equals"), ("!=", "not_equals"), (">=", "greater_than_or_equals"), ("<=", "less_than_or_equals"), (">", "greater_than"), ("<", "less_than"),
       ("=~", "equals_case_insensitive"), ("!~", "not_equals_case_insensitive"), ("&&", "and"), ("||", "or"), ("??", "coalesce"), ("+", "add"),
       ("-", "subtract"), ("*", "multiply"), ("/", "divide"), ("%", "modulo")]


def inside(h, depth):
    """An expression with a shape somewhere inside; (source, is exact value known)."""
    if depth == 0:
        k = h.choose("any", "string", "name", "number")
        if k == "any":
            return h.opaque(without=("iffn",)).src
        return {"string": lambda: "'" + h.sym(2, "alnum") + "'", "name": lambda: name(h, 2), "number": lambda: h.digits(2)}[k]()
    k = h.choose("bin", "not", "minus", "if", "call", "method", "index", "dot", "nested", "array", "object", "loop", "loop_i", "loop_o", "loop_p", "string", "paren", "builtin", "lambda")
    a = inside(h, depth - 1)
    if k == "bin":
        o, _ = h.choose(BIN if depth == 1 else BIN[:1] + BIN[8:12])
        return "(k " + o + " " + a + ")" if h.choose(0, 1) else "(" + a + " " + o + " k)"
    return {"not": "(!k)", "minus": "(-3)", "if": "(k ? " + a + " : k)", "call": "foo(k, " + a + ")", "method": "k.listKeys(" + a + ")", "index": "k[" + a + "]",
            "dot": "k.b.c", "nested": "k::b", "array": "[" + a + ", k]", "object": "{ a: " + a + " }", "loop": "[for i in k: " + a + "]",
            "loop_p": "[for i in items (" + a + "): i]", "loop_i": "[for (i, j) in k: " + a + "]", "loop_o": "[for i in items(k): " + a + "]", "string": "'a${k}b'", "paren": "(" + a + ")",
            "builtin": "union(" + a + ", k)", "lambda": "map(k, i => " + a + ")"}[k]


@harness("expressions")
def expressions(h):
    """Expressions inside each other; not all texts are accepted, but what is accepted is plain."""
    t = inside(h, 2)
    plain(h, h.parse("var x = " + t + "\n", add_line_numbers=h.choose(False, True)))


@harness("expressions_deep", thorough_only=True)
def expressions_deep(h):
    plain(h, h.parse("param p object = " + inside(h, 3) + "\n"))


@harness("functions")
def functions(h):
    nm = h.choose(list(c06.T))
    n = h.choose([c for c in c06.counts(h, nm) if c <= 4])
    m = h.choose(range(n)) if n > 1 else 0
    args = [h.opaque() if j == m else h.opaque(kinds=("ref",)) for j in range(n)]
    pre = h.choose("", "sys.", "az.")
    want = doc(variables={"x": var(c06.expected(nm, [a.val for a in args]))})
    r = h.parse("var x = " + pre + nm + "(" + ", ".join(a.src for a in args) + ")\n")
    plain(h, r)
    if pre == "":
        h.eq(h.good(r), want, "result", strict=True)


@harness("decorators")
def decorators(h):
    from props.c08 import HOSTS, WITH, WITHOUT

    n = h.choose(list(WITH) + list(WITHOUT) + ["foo"])
    t, d = HOSTS[h.choose(list(HOSTS))]
    sys = h.choose("", "sys.")
    if n in WITHOUT:
        same(h, "@" + sys + n + "()\n" + t, d([{"type": WITHOUT[n]}]), h.choose(False, True))
    else:
        a = h.shape(without=("minus",))
        k = WITH.get(n, sys + n)
        same(h, "@" + sys + n + "(" + a.src + ")\n" + t, d([{"type": k, "argument": a.val}]))


@harness("signed")
def signed(h):
    """Negative numbers as decorator arguments."""
    from props.c08 import HOSTS, NUMERIC, WITH

    n = h.choose(NUMERIC)
    d = h.sym(h.choose(1, 2), "digit")
    t, w = HOSTS[h.choose("param", "output")]
    same(h, "@" + n + "(-" + d + ")\n" + t, w([{"type": WITH[n], "argument": -int(d)}]), False)


@harness("names")
def names(h):
    """Symbolic names, keys, strings and numbers are plain strings and integers."""
    n = name(h, 2 if h.thorough() else 1)
    s = h.sym(2 if not h.thorough() else 4, "alnum")
    d = h.sym(2, "digit")
    ts = {
        "var": ("var " + n + " = " + n + "\n", lambda: doc(variables={n: var(h.el(n))})),
        "str": ("var x = '" + s + "'\n", lambda: doc(variables={"x": var(s)})),
        "mls": ("var x = '''" + s + "'''\n", lambda: doc(variables={"x": var(s)})),
        "int": ("var x = " + d + "\n", lambda: doc(variables={"x": var(int(d))})),
        "neg": ("var x = -" + d + "\n", lambda: doc(variables={"x": var(minus(int(d)))})),
        "param": ("param " + n + " " + n + "\n", lambda: doc(parameters={n: param(n)})),
        "ptype": ("param p " + n + "[] = '" + s + "'\n", lambda: doc(parameters={"p": param({"type": "array", "item_type": n}, s)})),
        "union": ("param p " + n + " | b\n", lambda: doc(parameters={"p": param({"type": "union", "members": [n, "b"]})})),
        "output": ("output " + n + " " + n + " = " + d + "\n", lambda: doc(outputs={n: output(n, int(d))})),
        "resource": ("resource " + n + " '" + s + "/b@" + d + "' = {\n " + n + ": " + n + "\n}\n",
                     lambda: doc(resources={n: resource(s + "/b", d, {n: h.el(n)})})),
        "module": ("module " + n + " './" + s + "' = {}\n", lambda: doc(modules={n: local_module("./" + s, {})})),
        "type": ("type " + n + " = " + n + "\n", lambda: doc(types={n: ctype(h.el(n))})),
        "func": ("func f(" + n + " " + n + ") " + n + " => " + n + "\n", lambda: doc(functions={"f": func({n: n}, n, h.el(n))})),
        "meta": ("metadata " + n + " = '" + s + "'\n", lambda: doc(metadata={n: {"value": s}})),
        "import": ("import " + n + " as " + n + " from '" + s + "'\n", lambda: doc(imports={n: {"file_path": s, "alias": n}})),
        "ns": ("import '" + s + "'\n", lambda: doc(imports={s: {}})),
        "ext": ("extension " + n + " with {\n " + n + ": 1\n} as " + n + "\n", lambda: doc(extensions={n: {"config": {n: 1}, "alias": n}})),
        "call": ("var x = " + n + "(" + n + ")\n", lambda: doc(variables={"x": var(unknown(n, h.el(n)))})),
        "ncall": ("var x = " + n + "." + n + "(" + n + ")\n", None),
        "dot": ("var x = k." + n + "." + n + "\n", None),
        "dotx": ("var x = " + n + "::" + n + "\n", lambda: doc(variables={"x": var(op2("nested_resource_accessor", h.el(n), h.el(n)))})),
        "deco": ("@" + n + "('" + s + "')\nparam x int\n", lambda: doc(parameters={"x": param("int", None, [{"type": n, "argument": s}])})),
        "skey": ("var x = {\n '" + s + "': 1\n}\n", lambda: doc(variables={"x": var({"'" + s + "'": 1})})),
        "loop": ("var x = [for " + n + " in " + n + ": " + n + "]\n", lambda: doc(variables={"x": var(loop_array(n, h.el(n), h.el(n)))})),
        "loopi": ("var x = [for (" + n + ", j) in k: 1]\n", None),
        "loopo": ("var x = [for " + n + " in items (" + n + "): 1]\n", lambda: doc(variables={"x": var({"loop_type": {"type": "object", "detail": {"item_name": n, "object_name": h.el(n)}},
                                                                                              "condition": None, "config": 1})})),
        "lambda": ("var x = map(k, " + n + " => " + n + ")\n", None),
        "lambda2": ("var x = map(k, (" + n + ", b) => " + n + ")\n", None),
    }
    k = h.choose(list(ts))
    t, w = ts[k]
    ln = h.choose(False, True)
    r = h.parse(t, add_line_numbers=ln)
    plain(h, r)
    if w is not None and not ln and k != "deco" and r.ok:
        h.eq(r.value, w(), "result", strict=True)


@harness("modules")
def modules(h):
    """Every module path scheme."""
    a, b, c = h.sym(1, "=ghijz"), h.sym(1, "=abz"), h.sym(1, "alnum")
    p = h.choose("./" + a + ".bicep", "br:" + a + ".azurecr.io/" + b + "/c:" + c, "br:mcr.microsoft.com/bicep/" + a + ":" + c, "br/" + a + ":" + b + "/d:" + c, "br/public:" + b + ":" + c,
                 "ts:00000000-0000-0000-0000-000000000000/" + a + "/t:" + c, "ts/" + a + ":" + b + ":" + c)
    cfg = h.choose("{\n}", "if (k) {\n name: 'x'\n}", "[for i in k: {\n name: i\n}]")
    r = h.parse("module m '" + p + "' = " + cfg + "\n", add_line_numbers=h.choose(False, True))
    h.good(r)
    plain(h, r)


@harness("children")
def children(h):
    """Nested resources wherever they may stand leave no placeholder and no token."""
    n = name(h, 1)
    a = h.shape()
    before = h.choose("", "  p: " + a.src + "\n")
    after = h.choose("", "  q: [\n    " + a.src + "\n  ]\n", "  dependsOn: [\n    k\n  ]\n")
    deep = h.choose("", "    resource d 'z' = {\n    }\n", "    resource d 'z' existing = {\n      name: k\n    }\n")
    ex = h.choose("", " existing")
    child = "  resource " + n + " 'y'" + ex + " = " + h.choose("", "if (k) ", "[for i in k: ")
    h.assume(not (deep and child.endswith(": ")))  # resources cannot be nested in a loop body
    child = child + "{\n    b: " + a.src + "\n" + deep + "  }" + ("]" if child.endswith(": ") else "") + "\n"
    body = "{\n" + before + child + after + "}"
    top = h.choose(body, "if (k) " + body)
    r = h.parse("resource p 'a/b@1' = " + top + "\nvar v = 1\n", add_line_numbers=h.choose(False, True))
    h.good(r)
    plain(h, r)


@harness("types")
def types(h):
    """All type forms, on everything that has a type."""
    n = name(h, 1)
    t = h.choose("int", n, n + "[]", n + "[][]", "a | " + n, "(a | b)[]", "'" + n + "'", "'a' | 'b'", "1", "true", "null", "{\n a: " + n + "\n}", "[\n int\n " + n + "\n]", "k.id", "k?", "a | b | " + n,
                 "resource<'a'>", "-1", "'a' | 1", "n.m", "object?")
    host = h.choose("param p {}\n", "output o {} = k\n", "var v {} = k\n", "type t = {}\n", "func f(a {}) {} => k\n", "type t = {\n a: {}\n}\n")
    plain(h, h.parse(host.replace("{}", t), add_line_numbers=h.choose(False, True)))


@harness("anything")
def anything(h):
    """A few free characters in places where they may mean many things."""
    n = 3 if h.thorough() else 2
    s = h.sym(n, "printable")
    t = h.choose("var x = {}\n", "param x {}\n", "{} x = 1\n", "var x = k{}\n", "resource r 'a/b@1' = {\n{}\n}\n", "import {} from 'f'\n", "module m '{}' = {}\n",
                 "@{}()\nvar x = 1\n", "var x = foo({})\n", "var x = [{}]\n", "extension e {}\n", "func f({}) int => 1\n")
    i = t.index("{}")
    plain(h, h.parse(t[:i] + s + t[i + 2:], add_line_numbers=h.choose(False, True)))


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions in every place of a name: plain data, and no placeholder but what was written."""
    w = h.choose([x for x in h.words() if "__child_resource__" not in x and x != "__name__"])
    t = h.choose("var W = W\n", "param W W = 'W'\n", "output W W = { W: W }\n", "resource W 'W/b@1' = {\n  W: W\n}\n", "module W './W' = {\n  W: W\n}\n", "type W = W | W\n",
                 "func W(W W) W => W\n", "metadata W = 'W'\n", "import W as W from 'W'\n", "extension W with {\n  W: W\n} as W\n", "@foo('W')\nvar x = foo(W, 'W')\n",
                 "resource p 'a/b@1' = {\n  resource W 'W' = {\n    W: 'W'\n  }\n}\n", "var x = [for W in W: W]\n", "var x = [for (W, W) in W: W]\n", "var x = [for W in items (W): W]\n", "import 'W'\n", "var x = k.W\n", "var x = map(k, W => W)\n",
                 "var x = k.W(1)\n", "var x = W(1, 2)\n", "@W()\nvar x = 1\n", "var x = W::W\n")
    plain(h, h.parse(t.replace("W", w), add_line_numbers=h.choose(False, True)))


@harness("long_numbers")
def long_numbers(h):
    """Numbers of any size stay integers."""
    n = h.choose(sorted({8, 9, 10, 16, 17, 18, 19, 20, 38, 39, 77, 155, 308, 309, 310, 331, 400, 617, 1234, 4300, *h.sizes(1, 2001)}))
    t = h.choose("1" + "0" * (n - 1), "9" * n, "1" * n)
    pos = h.choose("var", "item", "arg", "prop")
    t, w = embed(h, pos, t, int(t))
    same(h, t, w, False)


@harness("counts")
def counts(h):
    """Any number of decorators, arguments, names, members, properties, levels or declarations, in every place."""
    from props import c16

    ln = h.choose(False, True)
    r = h.parse(c16.counted(h), add_line_numbers=ln)
    plain(h, r, ln)
