from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every documented decorator with and without sys., uninterpreted and every written-out argument; unknown names of 1..3 symbolic "
             "characters; numbers of 1..3 symbolic digits with and without sign; all 6 decorated declaration kinds; lists of 0..3 decorators; two "
             "declarations with separate lists; small values as argument, 0..5 decorators of every kind mixed, names declared in the same file",
    "thorough": "as quick with names of up to 4 symbolic characters, 5 digits, lists of up to 5 decorators",
}

WITH = {"allowed": "allowed", "batchSize": "batchSize", "description": "description", "minLength": "min_length", "maxLength": "max_length",
        "minValue": "min_value", "maxValue": "max_value", "metadata": "metadata"}
WITHOUT = {"export": "export", "sealed": "sealed", "secure": "secure"}
NUMERIC = ("minValue", "maxValue")

HOSTS = {
    "param": ("param x string\n", lambda d: doc(parameters={"x": param("string", None, d)})),
    "var": ("var x = 1\n", lambda d: doc(variables={"x": var(1, d)})),
    "output": ("output x string = 's'\n", lambda d: doc(outputs={"x": output("string", "s", d)})),
    "resource": ("resource x 'a/b@1' = {}\n", lambda d: doc(resources={"x": resource("a/b", "1", {}, decorators=d)})),
    "module": ("module x './m.bicep' = {}\n", lambda d: doc(modules={"x": local_module("./m.bicep", {}, d)})),
    "type": ("type x = 1\n", lambda d: doc(types={"x": ctype(1, d)})),
    "func": ("func x() string => 's'\n", lambda d: doc(functions={"x": func({}, "string", "s", d)})),
}


def on(h, host, src, decorators, msg="decorators"):
    text, d = HOSTS[host]
    h.eq(h.good(h.parse(src + text), msg), d(decorators), msg)


def hosts(h):
    return h.choose(list(HOSTS))


def d1(kind, *arg):
    return {"type": kind, "argument": arg[0]} if arg else {"type": kind}


def shaped(h):
    """Shapes that are a decorator argument; numbers with a sign are asked separately."""
    return h.shape(without=("minus",))


@harness("documented")
def documented(h):
    n = h.choose(list(WITH))
    ns = h.choose("", "sys.")
    a = h.opaque(without=("minus",))
    on(h, hosts(h), f"@{ns}{n}({a.src})\n", [d1(WITH[n], a.val)])


@harness("documented_shapes")
def documented_shapes(h):
    n = h.choose(list(WITH))
    a = h.shape(without=("minus",))
    on(h, "param", f"@{n}({a.src})\n", [d1(WITH[n], a.val)])


@harness("without_argument")
def without_argument(h):
    n = h.choose(list(WITHOUT))
    on(h, hosts(h), "@" + h.choose("", "sys.") + n + "()\n", [d1(WITHOUT[n])])


@harness("numbers")
def numbers(h):
    """Numeric arguments keep value and sign."""
    n = h.choose("minValue", "maxValue", "minLength", "maxLength", "batchSize")
    d = h.digits(h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 5))
    ns = h.choose("", "sys.")
    sign = h.choose("", "-") if n in NUMERIC else ""
    paren = h.choose(False, True)
    src = "(" + sign + d + ")" if paren else sign + d
    on(h, hosts(h), f"@{ns}{n}({src})\n", [d1(WITH[n], int(d) if not sign else -int(d))])


@harness("negated_expressions")
def negated_expressions(h):
    """A negated expression that is no number is kept as it is."""
    n = h.choose(NUMERIC)
    o = h.opaque(without=("zero", "int"))
    on(h, "param", f"@{n}(-{o.src})\n", [d1(WITH[n], minus(o.val))])


@harness("strings")
def strings(h):
    n = h.choose("description", "foo")
    s = h.sym(h.choose(0, 1, 2, 3), "printable")
    h.assume("'" not in s and "\\" not in s and "$" not in s)
    on(h, hosts(h), f"@{n}('" + s + "')\n", [d1(n, s)])


@harness("multi_line")
def multi_line(h):
    s = h.sym(h.choose(0, 1, 2), "nocr")
    h.assume("'" not in s)
    h.assume(len(s) == 0 or s[0] != "\n")
    on(h, "param", "@description('''" + s + "''')\n", [d1("description", s)])


def known(nm):
    for x in list(WITH) + list(WITHOUT):
        if len(x) == len(nm) and x == nm:
            return True
    return False


@harness("unknown")
def unknown_decorator(h):
    nm = h.choose("", "sys.") + name(h, h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 4))
    if h.choose(True, False):
        a = h.opaque()
        on(h, "param", "@" + nm + "(" + a.src + ")\n", [d1(nm, a.val)])
    else:
        on(h, "param", "@" + nm + "()\n", [d1(nm)])


@harness("unknown_shapes")
def unknown_shapes(h):
    a = h.shape()
    on(h, hosts(h), "@foo(" + a.src + ")\n", [d1("foo", a.val)])


@harness("near_names")
def near_names(h):
    b = h.choose(list(WITH) + list(WITHOUT))
    how = h.choose("replace", "prefix", "suffix")
    if how == "replace":
        i = h.choose(range(len(b)))
        nm = b[:i] + (h.sym(1, "ident") if i else h.sym(1, "identstart")) + b[i + 1:]
    elif how == "prefix":
        nm = name(h) + b
    else:
        nm = b + h.sym(1, "ident")
    h.assume(not known(nm))
    a = h.opaque()
    on(h, "param", "@" + nm + "(" + a.src + ")\n", [d1(nm, a.val)])


@harness("order")
def order(h):
    """Lists keep order and repetitions, however they are laid out."""
    n = h.choose(0, 1, 2, 3) if not h.thorough() else h.choose(0, 1, 2, 3, 4, 5)
    src, want = "", []
    sep = h.choose("\n", " ", "\n\n", " // c\n", "\r\n")
    for i in range(n):
        k = h.choose("known", "secure", "unknown")
        if k == "known":
            d = h.digits(1)
            src, want = src + "@minLength(" + d + ")" + sep, want + [d1("min_length", int(d))]
        elif k == "secure":
            src, want = src + "@secure()" + sep, want + [d1("secure")]
        else:
            m = name(h)
            src, want = src + "@" + m + "()" + sep, want + [d1(m)]
    on(h, hosts(h) if n < 2 else "param", src, want)


@harness("many")
def many(h):
    """Repetitions of the same decorator."""
    n = h.choose(2, 3, 6)
    src, want = "", []
    k = h.choose(list(WITH) + list(WITHOUT) + ["foo", "foo()"])
    ns = h.choose("", "sys.", "every other")
    for i in range(n):
        p = "sys." if ns == "sys." or ns and i % 2 else ""
        nm = k.removesuffix("()")
        t = WITH.get(nm) or WITHOUT.get(nm) or p + nm
        if k in WITHOUT or k == "foo()":
            src, want = src + "@" + p + nm + "()\n", want + [d1(t)]
        else:
            src, want = src + "@" + p + nm + "(0)\n", want + [d1(t, 0)]
    on(h, hosts(h), src, want)


@harness("own_declaration")
def own_declaration(h):
    """A decorator belongs to the next declaration only."""
    a, b = h.opaque(), h.opaque()
    k = h.choose("first", "second", "both", "none")
    first = [d1("description", a.val)] if k in ("first", "both") else []
    second = [d1("foo", b.val), d1("secure")] if k in ("second", "both") else []
    s1 = "@description(" + a.src + ")\n" if first else ""
    s2 = "@foo(" + b.src + ")\n@secure()\n" if second else ""
    one, two = h.choose(list(HOSTS)), h.choose(list(HOSTS))
    h.assume(one != two)
    r = h.good(h.parse(s1 + HOSTS[one][0] + s2 + HOSTS[two][0]))
    want = HOSTS[one][1](first)
    want.update(HOSTS[two][1](second))
    h.eq(r, want, "decorators of two declarations")


@harness("same_kind")
def same_kind(h):
    """The same for two declarations of one kind, and for decorators that equal each other."""
    d = h.digits(1)
    e = h.digits(1)
    r = h.good(h.parse("@minValue(" + d + ")\nparam a int\n@minValue(" + e + ")\n@secure()\nparam b int\nparam c int\n"))
    h.eq(r, doc(parameters={"a": param("int", None, [d1("min_value", int(d))]),
                            "b": param("int", None, [d1("min_value", int(e)), d1("secure")]), "c": param("int")}))


@harness("lists")
def lists(h):
    """A list argument keeps its items."""
    a, b = h.opaque(), h.opaque()
    s = h.sym(h.choose(0, 1), "alnum")
    nl = h.choose("\n", ", ")
    lead = "\n" if nl == "\n" else ""
    on(h, hosts(h), "@allowed([" + lead + a.src + nl + "'" + s + "'" + nl + b.src + lead + "])\n", [d1("allowed", [a.val, s, b.val])])


@harness("malformed")
def malformed(h):
    src = h.choose("@secure\n", "@\n", "@foo(1, 2)\n", "@foo(1\n", "@foo)\n", "@foo()", "secure()\n", "@foo.bar()\n", "@az.foo()\n", "@@foo()\n")
    text = h.choose("param x string\n", "")
    h.assume(text == "" or src != "@foo()")
    h.bad(h.parse(src + text), "malformed decorator")


@harness("undecorated_kinds")
def undecorated_kinds(h):
    """Declarations that take no decorators reject them."""
    h.bad(h.parse("@foo()\n" + h.choose("targetScope = 'tenant'\n", "metadata a = 'b'\n", "import 'a@1'\n", "extension a\n")), "no decorators here")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions as decorators and as arguments."""
    w = h.choose(h.words())
    host = h.choose(list(HOSTS))
    if not known(w):
        on(h, host, "@" + w + "()\n@" + w + "('" + w + "')\n", [d1(w), d1(w, w)])
    k = h.choose(list(WITH) + ["foo"])
    on(h, host, "@" + k + "('" + w + "')\n", [d1(WITH.get(k, k), w)])


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of decorators, and numeric arguments, around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    host = h.choose(list(HOSTS))
    k = h.choose(list(WITH))
    on(h, host, ("@" + k + "(" + str(n) + ")\n") * n, [d1(WITH[k], n)] * n)


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Decorator names and texts as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    host = h.choose(list(HOSTS))
    w = "z" * n + h.sym(1, "letter")
    src, v = h.choose(("@" + w + "()\n", {"type": w}), ("@" + w + "(k)\n", d1(w, h.el("k"))), ("@description('" + w + "')\n", d1("description", w)),
                      ("@foo(" + w + ")\n", d1("foo", h.el(w))))
    on(h, host, src, [v])


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["deco", "deco_arg", "description", "allowed"])


@harness("structured_arguments")
def structured_arguments(h):
    """Objects and arrays with names the code mentions and empty parts, as arguments."""
    src, v = spots.structured(h)
    host = h.choose("param", "var", "output") if h.thorough() else "param"
    k = h.choose(list(WITH) + ["foo"]) if h.thorough() else h.choose("metadata", "allowed", "description", "minValue", "foo")
    on(h, host, "@" + k + "(" + src + ")\n", [d1(WITH.get(k, k), v)])


def named(h, host, nm):
    """The host's declaration under another name."""
    text, d = HOSTS[host]
    i = text.index(" x") + 1

    def want(decorators):
        w = d(decorators)
        for k, v in w.items():
            if k != "globals":
                w[k] = {nm: v["x"]}
        return w
    return text[:i] + nm + text[i + 1:], want


LISTS = [
    ("@a()\n@b()\n", [d1("a"), d1("b")]), ("@secure()\n@a(1)\n@description('d')\n", [d1("secure"), d1("a", 1), d1("description", "d")]), ("@minLength(1)\n@maxLength(2)\n", [d1("min_length", 1), d1("max_length", 2)]),
    ("@minValue(-1)\n@maxValue(1)\n@minValue(-1)\n", [d1("min_value", -1), d1("max_value", 1), d1("min_value", -1)]), ("@sys.export()\n@export()\n", [d1("export"), d1("export")]),
    ("@metadata({\n  a: 1\n})\n@allowed([\n  1\n])\n", [d1("metadata", {"a": 1}), d1("allowed", [1])]), ("@a([])\n", [d1("a", [])]),
]


@harness("declaration_names")
def declaration_names(h):
    """The decorators do not depend on the name of what they decorate."""
    how = h.choose("free", "known", "code")
    src, v = h.choose(LISTS if how == "known" else LISTS[:2])
    if how == "free":
        nm = name(h, h.choose(1, 2) if h.thorough() else 1)
    elif how == "known":
        nm = h.choose("_x", "__x", "x_", "x__y", "X", "X1", "secure", "description", "a", "b", "string", "int", "param", "decorators", "type", "argument", "x2", "test", "private", "_private")
    else:
        nm = h.choose(h.words())
    text, d = named(h, hosts(h), nm)
    h.eq(h.good(h.parse(src + text)), d(v), "decorators")


@harness("small_arguments")
def small_arguments(h):
    """Small and nested values as arguments."""
    s, v = spots.small(h)
    k = h.choose(list(WITH) + ["foo"])
    h.assume(not (k in NUMERIC and s == "-1"))
    on(h, "param", "@" + k + "(" + s + ")\n@secure()\n", [d1(WITH.get(k, k), v), d1("secure")])
