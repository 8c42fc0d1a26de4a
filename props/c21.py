from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "types built from symbolic names of 1 to 4 characters, 0 to 3 [] suffixes, unions of 2 to 3 members nested to depth 2, with every spacing, on parameters (with and without "
             "default, nullable), outputs, variables, function arguments and results; functions with 0 to 3 arguments, every body value; type declarations with every value, "
             "unions of 2 to 3 members over names, symbolic string literals and numbers; neighbours before and after; decorators; nine types with every small value in five places",
    "thorough": "as quick with nesting depth 3, 5 suffixes, 4 members, 4 arguments and symbolic names of up to 8 characters",
}
ASSUMPTIONS = ["type expressions the library does not accept at all (string literals, object types or unparenthesised unions as the type of a parameter, suffixes in a type "
               "declaration) are rejected and so outside; a union in a type declaration is reported as its members' text joined with ' | ' (pinned by the tests), for members that are names, "
               "strings or numbers; argument names of one function are distinct, as in Bicep"]


def ty(h, depth, n=1, more=True):
    """(source, expected) of a type."""
    if depth > 0 and h.choose(True, False):
        k = h.choose(2, 3, 4) if h.thorough() else h.choose(2, 3)
        i = h.choose(range(k))
        ms = [ty(h, depth - 1, n, False) if j == i else (("b", "b"), ("c[]", arr("c")), ("d", "d"), ("e", "e"))[j] for j in range(k)]
        sep = h.choose(" | ", "|") if depth == 1 else " | "
        src, val = "(" + sep.join(m[0] for m in ms) + ")", {"type": "union", "members": [m[1] for m in ms]}
    else:
        src = name(h, n)
        val = src
    s = h.choose(range(4 if not h.thorough() else 6)) if more else h.choose(0, 1)
    for _ in range(s):
        src = src + "[]"
        val = arr(val)
    return src, val


def arr(t):
    return {"type": "array", "item_type": t}


def tvar(t, v):
    d = var(v)
    d["type"] = t
    return d


HOSTS = {
    "param": ("param x {}\n", lambda h, t: doc(parameters={"x": param(t)})),
    "default": ("param x {} = k\n", lambda h, t: doc(parameters={"x": param(t, h.el("k"))})),
    "nullable": ("param x {}?\n", lambda h, t: doc(parameters={"x": param(t)})),
    "nullable_default": ("param x {}? = 1\n", lambda h, t: doc(parameters={"x": param(t, 1)})),
    "output": ("output x {} = k\n", lambda h, t: doc(outputs={"x": output(t, h.el("k"))})),
    "nullable_output": ("output x {}? = k\n", lambda h, t: doc(outputs={"x": output(t, h.el("k"))})),
    "var": ("var x {} = k\n", lambda h, t: doc(variables={"x": tvar(t, h.el("k"))})),
    "arg": ("func f(x {}) string => k\n", lambda h, t: doc(functions={"f": func({"x": t}, "string", h.el("k"))})),
    "arg2": ("func f(w int, x {}, y int) string => k\n", lambda h, t: doc(functions={"f": func({"w": "int", "x": t, "y": "int"}, "string", h.el("k"))})),
    "result": ("func f() {} => k\n", lambda h, t: doc(functions={"f": func({}, t, h.el("k"))})),
    "result1": ("func f(a int) {} => k\n", lambda h, t: doc(functions={"f": func({"a": "int"}, t, h.el("k"))})),
}


@harness("types")
def types(h):
    """A type means the same on every host."""
    src, val = ty(h, 3 if h.thorough() else 2)
    a, d = HOSTS[h.choose(list(HOSTS))]
    h.eq(h.good(h.parse(a.replace("{}", src))), d(h, val), "type")


@harness("same_everywhere")
def same_everywhere(h):
    """One file with the type on every host."""
    src, val = ty(h, 1, 2)
    text = ("param p " + src + "\noutput o " + src + " = k\nvar v " + src + " = k\nfunc f(a " + src + ", b " + src + ") " + src + " => k\nparam q " + src + "\n")
    h.eq(h.good(h.parse(text)), doc(parameters={"p": param(val), "q": param(val)}, outputs={"o": output(val, h.el("k"))}, variables={"v": tvar(val, h.el("k"))},
                                    functions={"f": func({"a": val, "b": val}, val, h.el("k"))}), "the same type")


@harness("type_names")
def type_names(h):
    """Any identifier is a type name, keywords included."""
    n = h.choose(2, 3, 4, 5, 6, 7, 8) if h.thorough() else h.choose(3, 4)
    t = name(h, n)
    a, d = HOSTS[h.choose(list(HOSTS))]
    suf = h.choose(0, 1)
    h.eq(h.good(h.parse(a.replace("{}", t + "[]" * suf))), d(h, arr(t) if suf else t), "type name")


def suffixed(h, t):
    """The name with 0 to 3 suffixes, or in a union of such."""
    n = h.choose(0, 1, 2, 3)
    src, v = t + "[]" * n, t
    for _ in range(n):
        v = arr(v)
    return (src, v) if h.choose(True, False) else ("(b | " + src + ")[][]", arr(arr({"type": "union", "members": ["b", v]})))


@harness("known_names")
def known_names(h):
    t = h.choose("int", "string", "bool", "Array", "Object", "object", "array", "any", "resource", "type", "param", "null", "true", "false", "existing", "module", "for", "in", "if", "items", "func",
                 "targetScope", "import", "extension", "with", "as", "from", "metadata", "output", "var", "secureString", "listKeys", "getSecret") + h.sym(h.choose(0, 1), "ident")
    src, v = suffixed(h, t)
    a, d = HOSTS[h.choose(list(HOSTS))]
    h.eq(h.good(h.parse(a.replace("{}", src))), d(h, v), "type name")


@harness("spacing")
def spacing(h):
    s = [h.choose("", " ", "\t ") for _ in range(3)]
    n = name(h, 1)
    src = "(" + s[0] + n + s[1] + "|" + s[2] + "b" + s[0] + "[" + s[1] + "]" + s[2] + ")" + s[1] + "[" + s[0] + "]"
    a, d = HOSTS[h.choose("param", "output", "var", "arg2", "result")]
    h.eq(h.good(h.parse(a.replace("{}", src))), d(h, arr({"type": "union", "members": [n, arr("b")]})), "type")


@harness("value_of_declarations")
def value_of_declarations(h):
    """Every value stands with every type."""
    src, val = h.choose(("int", "int"), ("a[]", arr("a")), ("(a | b)[]", arr({"type": "union", "members": ["a", "b"]})))
    o = h.opaque()
    which = h.choose("param", "output", "var", "func")
    q = h.choose("", "?") if which != "func" else ""
    t, w = {
        "param": ("param x " + src + q + " = " + o.src + "\n", lambda: doc(parameters={"x": param(val, o.val)})),
        "output": ("output x " + src + q + " = " + o.src + "\n", lambda: doc(outputs={"x": output(val, o.val)})),
        "var": ("var x " + src + q + " = " + o.src + "\n", lambda: doc(variables={"x": tvar(val, o.val)})),
        "func": ("func x(a " + src + ") " + src + " => " + o.src + "\n", lambda: doc(functions={"x": func({"a": val}, val, o.val)})),
    }[which]
    h.eq(h.good(h.parse(t)), w(), "value")


@harness("functions")
def functions(h):
    """Arguments in order with their own types, return type and body."""
    n = h.choose(range(4 if not h.thorough() else 5))
    f = name(h, 2)
    names, args, src = [], {}, []
    for i in range(n):
        a = name(h, 1)
        for b in names:
            h.assume(a != b)
        names.append(a)
        s, v = (name(h, 1),) * 2 if i != 1 else h.choose(("int[]", arr("int")), ("(a | b)", {"type": "union", "members": ["a", "b"]}))
        src.append(a + " " + s)
        args[a] = v
    rs, rv = ty(h, 0)
    o = h.opaque()
    text = "func " + f + "(" + ", ".join(src) + ") " + rs + " => " + o.src + "\n"
    r = h.good(h.parse(text))
    h.eq(r, doc(functions={f: func(args, rv, o.val)}), "function")
    got = list(r["functions"][f]["args"])
    h.check(len(got) == n and all(x == y for x, y in zip(got, names)), "arguments in source order")


@harness("bodies")
def bodies(h):
    """Every body shape, written out."""
    a = h.shape()
    b, v = h.choose((a.src, a.val), ("a == " + a.src, op2("equals", h.el("a"), a.val)), ("[\n  " + a.src + "\n]", [a.val]), ("{\n  a: " + a.src + "\n}", {"a": a.val}), ("foo(a, " + a.src + ")", unknown("foo", h.el("a"), a.val)),
                    ("k ? " + a.src + " : a", cond(h.el("k"), a.val, h.el("a"))))
    host = h.choose("", "@foo()\n")
    h.assume(not (b.startswith("k ?") and a.src.startswith("(") and False))
    after = h.choose("", "func g() int => 1\n", "var z = 1\n")
    w = doc(functions={"f": func({"a": "int"}, "string", v, [{"type": "foo"}] if host else [])})
    if after:
        if after.startswith("func"):
            w["functions"]["g"] = func({}, "int", 1)
        else:
            w["variables"] = {"z": var(1)}
    h.eq(h.good(h.parse(host + "func f(a int) string => " + b + "\n" + after)), w, "function body")


@harness("several_functions")
def several_functions(h):
    """Functions with the same argument names and types do not mix."""
    n, t, u = name(h, 1), name(h, 2), name(h, 2)
    text = ("func f(" + n + " " + t + ", z int) " + u + "[] => " + n + "\nfunc g(z " + u + ") " + t + " => z\nfunc h() " + u + " => 1\n")
    h.assume(n != "z")
    h.eq(h.good(h.parse(text)), doc(functions={"f": func({n: t, "z": "int"}, arr(u), h.el(n)), "g": func({"z": u}, t, h.el("z")), "h": func({}, u, 1)}), "functions")


def member(h, i):
    """(source, text) of a union member"""
    k = h.choose("string", "name", "number", "fixed")
    if k == "string":
        s = h.sym(2, "alnum")
        return "'" + s + "'", s
    if k == "name":
        s = name(h, 2)
        h.assume(s not in ("if",))
        return s, s
    if k == "number":
        s = h.sym(1, "=123456789") + h.sym(1, "digit")
        return s, s
    return "'x y'", "x y"


@harness("unions")
def unions(h):
    """A union in a type declaration keeps all members, in order."""
    k = h.choose(2, 3, 4) if h.thorough() else h.choose(2, 3)
    ms = [member(h, i) for i in range(k)]
    sep = h.choose(" | ", "|", "  |\t") if k == 2 or h.thorough() else " | "
    dec = h.choose("", "@foo()\n")
    after = h.choose("", "type u = 'q' | 'r'\n")
    w = doc(types={"t": ctype(" | ".join(m[1] for m in ms), [{"type": "foo"}] if dec else [])})
    if after:
        w["types"]["u"] = ctype("q | r")
    h.eq(h.good(h.parse(dec + "type t = " + sep.join(m[0] for m in ms) + "\n" + after)), w, "union members")


@harness("single")
def single(h):
    """A type declaration with one value yields that value."""
    o = h.opaque() if h.choose(True, False) else h.shape()
    n = name(h, 2)
    paren = h.choose("", "(")
    v = h.good(h.parse("type " + n + " = " + paren + o.src + (")" if paren else "") + "\n"))
    h.eq(v, doc(types={n: ctype(o.val)}), "value of the type")


@harness("object_types")
def object_types(h):
    """Object and tuple types keep members and their values; a nullable mark changes nothing else."""
    n, m = name(h, 1), name(h, 2)
    h.assume(n != "b")
    s = h.sym(2, "alnum")
    q, q2 = h.choose("", "?"), h.choose("", "?")
    t, w = h.choose(
        ("{\n  " + n + ": " + m + q + "\n  b: '" + s + "'" + q2 + "\n}", {n: h.el(m), "b": s}),
        ("{\n  " + n + ": {\n    b: " + m + q + "\n  }\n  b: int" + q2 + "\n}", {n: {"b": h.el(m)}, "b": h.el("int")}),
        ("[\n  " + n + "\n  " + m + "\n  '" + s + "'\n]", [h.el(n), h.el(m), s]),
        ("{\n  " + n + ": [\n    " + m + "\n  ]\n  b: {}\n}", {n: [h.el(m)], "b": {}}),
    )
    h.assume(m != "if")
    h.eq(h.good(h.parse("type t = " + t + "\n")), doc(types={"t": ctype(w)}), "value of the type")


@harness("decorated")
def decorated(h):
    """Decorators do not disturb the type."""
    src, val = ty(h, 1)
    a = h.opaque(without=("minus",))
    d = [{"type": "secure"}, {"type": "foo", "argument": a.val}]
    k = h.choose("param", "output", "var", "func", "type")
    text, w = {
        "param": ("param x " + src + "\n", lambda: doc(parameters={"x": param(val, None, d)})),
        "output": ("output x " + src + " = k\n", lambda: doc(outputs={"x": output(val, h.el("k"), d)})),
        "var": ("var x " + src + " = 1\n", lambda: doc(variables={"x": dict(tvar(val, 1), decorators=d)})),
        "func": ("func x(a " + src + ") " + src + " => a\n", lambda: doc(functions={"x": func({"a": val}, val, h.el("a"), d)})),
        "type": ("type x = a | b\n", lambda: doc(types={"x": ctype("a | b", d)})),
    }[k]
    h.eq(h.good(h.parse("@secure()\n@foo(" + a.src + ")\n" + text)), w(), "decorated")


@harness("neighbours")
def neighbours(h):
    """Types next to each other stay apart."""
    s1, v1 = ty(h, 1)
    s2, v2 = ty(h, 0, 2)
    h.eq(h.good(h.parse("param a " + s1 + "\nparam b " + s2 + " = 1\noutput c " + s1 + " = 2\n")),
         doc(parameters={"a": param(v1), "b": param(v2, 1)}, outputs={"c": output(v1, 2)}), "types")


@harness("rejected_types")
def rejected_types(h):
    """Incomplete types are rejected."""
    n = name(h, 1)
    t = h.choose("", n + "[", n + "]", "()", "(" + n + " |)", "(| " + n + ")", "(" + n + " | b", n + " | b)", n + " " + n, "[]", n + "[1]", n + "[][", n + "(", "(" + n + " b)", "1", "'a", n + "??")
    a, _ = HOSTS[h.choose("param", "output", "arg", "arg2", "result")]
    h.bad(h.parse(a.replace("{}", t)), "an incomplete type")


@harness("rejected_functions")
def rejected_functions(h):
    n = name(h, 1)
    t = h.choose("func f(" + n + ") int => 1", "func f(" + n + " int int => 1", "func f " + n + " int) int => 1", "func f(" + n + " int) => 1", "func f(" + n + " int) int", "func f(" + n + " int) int =>",
                 "func f(" + n + " int) int = 1", "func (" + n + " int) int => 1", "func f(" + n + " int, ) int => 1", "func f(, " + n + " int) int => 1", "func f(" + n + " int b int) int => 1", "func " + n + "() => 1",
                 "func f(" + n + " int) int => 1 2", "type " + n, "type " + n + " =", "type " + n + " = |", "type " + n + " = a |", "type " + n + " = | a", "type = " + n, "type " + n + " = a b", "type " + n + " = a || ")
    h.bad(h.parse(t + "\n"), "an incomplete declaration")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions as types, arguments and union members."""
    w = h.choose(h.words())
    k = h.choose(list(HOSTS) + ["names", "union", "member", "unions", "text"])
    if k in HOSTS:
        a, d = HOSTS[k]
        src, v = suffixed(h, w) if k in ("param", "var", "result") else h.choose((w, w), (w + "[]", arr(w)))
        h.eq(h.good(h.parse(a.replace("{}", src))), d(h, v), "type name")
    elif k == "names":
        h.eq(h.good(h.parse("func " + w + "(" + w + " int, q_ " + w + ") " + w + " => k\n")), doc(functions={w: func({w: "int", "q_": w}, w, h.el("k"))}), "function")
    elif k == "union":
        h.eq(h.good(h.parse("param p (" + w + " | b)\n")), doc(parameters={"p": param({"type": "union", "members": [w, "b"]})}), "union")
    elif k == "member":
        h.eq(h.good(h.parse("param p (b | " + w + "[])[]\n")), doc(parameters={"p": param(arr({"type": "union", "members": ["b", arr(w)]}))}), "union")
    elif k == "unions":
        h.assume(w not in ("true", "false", "null"))
        h.eq(h.good(h.parse("type t = " + w + " | '" + w + "'\n")), doc(types={"t": ctype(w + " | " + w)}), "union members")
    else:
        h.eq(h.good(h.parse("type t = '" + w + "'\n")), doc(types={"t": ctype(w)}), "value of the type")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of suffixes, members and arguments around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    k = h.choose("suffix", "members", "same members", "arguments", "union", "depth")
    if k == "arguments":
        o = h.opaque()
        h.eq(h.good(h.parse("func f(" + ", ".join("a" + str(i) + " t" + str(i) for i in range(n)) + ") r => " + o.src + "\n")),
             doc(functions={"f": func({"a" + str(i): "t" + str(i) for i in range(n)}, "r", o.val)}), "function")
        return
    if k == "union":
        h.assume(n > 1)
        h.eq(h.good(h.parse("type t = " + " | ".join("'m" + str(i) + "'" for i in range(n)) + "\n")), doc(types={"t": ctype(" | ".join("m" + str(i) for i in range(n)))}), "union members")
        return
    if k == "suffix":
        src, val = "b" + "[]" * n, "b"
        for _ in range(n):
            val = arr(val)
    elif k == "depth":
        h.assume(n < 60)
        src, val = "b", "b"
        for i in range(n):
            src, val = "(m" + str(i) + " | " + src + ")", {"type": "union", "members": ["m" + str(i), val]}
    else:
        ms = ["m" + str(i) if k == "members" else "m" for i in range(n + 1)]
        src, val = "(" + " | ".join(ms) + ")", {"type": "union", "members": ms}
    a, d = HOSTS[h.choose(list(HOSTS))]
    h.eq(h.good(h.parse(a.replace("{}", src))), d(h, val), "type")


@harness("equal_members")
def equal_members(h):
    """Members that equal each other or the union's other parts are all kept."""
    n = name(h, 1)
    src, val = h.choose(("(N | N)", [n, n]), ("(N | N | b)", [n, n, "b"]), ("(N | b | N)", [n, "b", n]), ("(N[] | N)", [arr(n), n]), ("(N[] | N[])", [arr(n), arr(n)]), ("(N[][] | N[])", [arr(arr(n)), arr(n)]),
                        ("((N | b) | N)", [{"type": "union", "members": [n, "b"]}, n]), ("((N | b) | (N | b))", [{"type": "union", "members": [n, "b"]}] * 2),
                        ("(N | (N | (N | b)))", [n, {"type": "union", "members": [n, {"type": "union", "members": [n, "b"]}]}]))
    val = {"type": "union", "members": val}
    s = h.choose(0, 1, 2)
    src = src.replace("N", "\0")
    out = ""
    for c in src:
        out = out + (n if c == "\0" else c)
    for _ in range(s):
        val = arr(val)
    a, d = HOSTS[h.choose(list(HOSTS))]
    h.eq(h.good(h.parse(a.replace("{}", out + "[]" * s))), d(h, val), "type")


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Names as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    w = "z" + "q" * n + h.sym(1, "letter")
    src, d = h.choose(
        ("type " + w + " = " + w + "\n", doc(types={w: ctype(h.el(w))})),
        ("type t = " + w + " | '" + w + "'\n", doc(types={"t": ctype(w + " | " + w)})),
        ("param p " + w + "\n", doc(parameters={"p": param(w, None)})),
        ("func " + w + "(" + w + " " + w + ") " + w + " => 1\n", doc(functions={w: func({w: w}, w, 1)})),
    )
    h.eq(h.good(h.parse(src)), d, "declaration")


@harness("alike_types")
def alike_types(h):
    """Types that are easily taken for one, in one declaration or in two."""
    (s, v), (t, w) = h.choose(spots.ALIKE_TYPES)
    if h.choose(True, False):
        (s, v), (t, w) = (t, w), (s, v)
    src, d = h.choose(
        ("func f(a " + s + ", b " + t + ") " + s + " => 1\n", doc(functions={"f": func({"a": v, "b": w}, v, 1)})),
        ("func f(a " + s + ", b " + t + ", c " + s + ") " + t + " => 1\n", doc(functions={"f": func({"a": v, "b": w, "c": v}, w, 1)})),
        ("param p (" + s + " | " + t + ")\n", doc(parameters={"p": param({"type": "union", "members": [v, w]})})),
        ("param p (" + s + " | " + t + "[])[]\n", doc(parameters={"p": param(arr({"type": "union", "members": [v, arr(w)]}))})),
        ("param p " + s + "\nparam q " + t + "\n", doc(parameters={"p": param(v), "q": param(w)})),
        ("param p " + s + "\noutput q " + t + " = 1\n", doc(parameters={"p": param(v)}, outputs={"q": output(w, 1)})),
        ("var p " + s + " = 1\nfunc q(a " + t + ") " + s + " => 1\n", doc(variables={"p": var(1, type=v)}, functions={"q": func({"a": w}, v, 1)})),
    )
    h.eq(h.good(h.parse(src)), d, "types")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["type", "array_type", "union_type", "value_type", "output_type", "var_type", "func_arg"])


@harness("type_and_value")
def type_and_value(h):
    """The type is as written whatever the value is, and the value whatever the type is."""
    s, v = spots.small(h)
    t, tv = h.choose(*[(x, x) for x in ("string", "int", "bool", "object", "array", "secureString", "k")], ("object[]", arr("object")), ("(string | int)", {"type": "union", "members": ["string", "int"]}))
    k = h.choose("param", "output", "var", "func", "arg")
    if k == "param":
        h.eq(h.good(h.parse("param x " + t + " = " + s + "\n")), doc(parameters={"x": param(tv, v)}), "parameter")
    elif k == "output":
        h.eq(h.good(h.parse("output x " + t + " = " + s + "\n")), doc(outputs={"x": output(tv, v)}), "output")
    elif k == "var":
        h.eq(h.good(h.parse("var x " + t + " = " + s + "\n")), doc(variables={"x": tvar(tv, v)}), "variable")
    elif k == "func":
        h.eq(h.good(h.parse("func x() " + t + " => " + s + "\n")), doc(functions={"x": func({}, tv, v)}), "function")
    else:
        h.eq(h.good(h.parse("func x(a " + t + ", b string) int => " + s + "\n")), doc(functions={"x": func({"a": tv, "b": "string"}, "int", v)}), "function")
