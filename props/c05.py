from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "bases: uninterpreted, every written-out shape in parentheses, calls, accessors; selectors: identifiers of 1..3 symbolic characters, "
             "uninterpreted and every written-out index; function accessors with names list/List + 0..3 symbolic letters and getSecret, 0..4 uninterpreted "
             "arguments, and every written-out argument shape; chains of 3 accessors; small values as base, index and argument",
    "thorough": "as quick with identifiers up to 4 characters, list names up to 5 letters, 0..6 arguments, at every position",
}
QUICK = ["var", "param", "items", "prop", "arg", "deco", "right", "config", "loop"]


def base(h):
    how = h.choose("opaque", "paren", "call", "index", "nested")
    if how == "opaque":
        o = h.opaque()
        return o.src, o.val
    if how == "paren":
        o = h.shape()
        return "(" + o.src + ")", o.val
    n = name(h)
    if how == "call":
        o = h.opaque()
        return n + "(" + o.src + ")", unknown(n, o.val)
    if how == "index":
        o = h.opaque()
        return "(" + n + "[" + o.src + "])", index(h.el(n), o.val)
    m = name(h)
    return "(" + n + "::" + m + ")", op2("nested_resource_accessor", h.el(n), h.el(m))


@harness("property_access")
def property_access(h):
    b, v = base(h)
    p = name(h, h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 4))
    s = h.choose("", "?")
    expect(h, "var", b + "." + s + p, prop(v, h.el(p)), "property access")


@harness("index_access")
def index_access(h):
    b, v = base(h)
    i = h.opaque()
    s = h.choose("", "?")
    expect(h, "var", b + "[" + s + i.src + "]", index(v, i.val), "index access")


@harness("index_shapes")
def index_shapes(h):
    """Every written-out index, digits and names included."""
    o = h.opaque()
    how = h.choose("shape", "digits", "string", "negative")
    if how == "shape":
        i = h.shape()
        src, val = i.src, i.val
    elif how == "digits":
        src = h.digits(h.choose(1, 2, 3))
        val = int(src)
    elif how == "string":
        val = h.sym(h.choose(0, 1, 2), "printable")
        h.assume("'" not in val and "\\" not in val and "$" not in val)
        src = "'" + val + "'"
    else:
        d = h.digits(1)
        src, val = "-" + d, minus(int(d))
    expect(h, "var", o.src + "[" + src + "]", index(o.val, val), "index access")


@harness("nested_access")
def nested_access(h):
    b, v = base(h)
    n = name(h, h.choose(1, 2, 3))
    expect(h, "var", b + "::" + n, op2("nested_resource_accessor", v, h.el(n)), "nested resource access")


def list_name(h):
    k = h.choose("list", "List", "getSecret")
    if k == "getSecret":
        return k
    return k + h.sym(h.choose(0, 1, 3) if not h.thorough() else h.choose(0, 1, 2, 5), "letter")


@harness("function_access")
def function_access(h):
    """Name and arguments of a function access, whatever their values."""
    b, v = base(h)
    f = list_name(h)
    n = h.choose(0, 1, 2, 3, 4) if not h.thorough() else h.choose(0, 1, 2, 3, 4, 5, 6)
    args = [h.opaque() for _ in range(n)]
    expect(h, "var", b + "." + f + "(" + ", ".join([a.src for a in args]) + ")", facc(v, f, *[a.val for a in args]), "function access")


@harness("function_arguments")
def function_arguments(h):
    """Arguments written out, at each place of the list."""
    a = h.shape()
    how = h.choose("only", "first", "middle", "last", "same")
    src, vals = {
        "only": (a.src, [a.val]),
        "first": (a.src + ", 1", [a.val, 1]),
        "middle": ("1, " + a.src + ", k", [1, a.val, h.el("k")]),
        "last": ("k, " + a.src, [h.el("k"), a.val]),
        "same": (a.src + "," + a.src, [a.val, a.val]),
    }[how]
    f = list_name(h)
    expect(h, "var", "k." + f + "(" + src + ")", facc(h.el("k"), f, *vals), "function access")


@harness("literal_arguments")
def literal_arguments(h):
    a = h.digits(h.choose(1, 2))
    b = h.sym(h.choose(0, 1, 2), "alnum")
    c = h.digits(1)
    expect(h, "var", "k.listKeys(" + a + ", '" + b + "', " + c + ")", facc(h.el("k"), "listKeys", int(a), b, int(c)), "function access")


@harness("places")
def places(h):
    """Every accessor at every place."""
    n, m = name(h), name(h, 2)
    o = h.opaque()
    src, v = {
        "prop": (n + "." + m, prop(h.el(n), h.el(m))),
        "index": (n + "[" + o.src + "]", index(h.el(n), o.val)),
        "nested": (n + "::" + m, op2("nested_resource_accessor", h.el(n), h.el(m))),
        "func": (n + ".listKeys(" + o.src + ")", facc(h.el(n), "listKeys", o.val)),
        "func0": (n + ".getSecret()", facc(h.el(n), "getSecret")),
        "call": (n + "." + m + "(" + o.src + ")", prop(h.el(n), unknown(m, o.val))),
    }[h.choose("prop", "index", "nested", "func", "func0", "call")]
    expect(h, positions(h, QUICK), src, v, "accessor")


@harness("other_functions")
def other_functions(h):
    """A call after a dot that is no list*/getSecret function is a property access of a call."""
    n = name(h)
    f = h.choose("lis", "mylist", "list2", "getSecrets", "getsecret", "GetSecret", "LIST", "xgetSecret", "list3Keys")
    o = h.opaque()
    expect(h, "var", n + "." + f + "(" + o.src + ")", prop(h.el(n), unknown(f, o.val)), "call after a dot")


@harness("list_properties")
def list_properties(h):
    """A property whose name merely looks like a list function."""
    n = name(h)
    f = h.choose("list", "listKeys", "getSecret", "List") + h.sym(h.choose(0, 1), "ident")
    expect(h, "var", n + "." + f, prop(h.el(n), h.el(f)), "property access")


def flat(v):
    """Accessors of a chain, left to right."""
    if isinstance(v, dict) and len(v) == 1 and "operator" in v:
        o = v["operator"]["operands"]
        k = v["operator"]["type"]
        if k == "function_accessor":
            rest = [[x, o[x]] for x in o if x != "operand_1"]
            return flat(o["operand_1"]) + [k, rest]
        if k == "index_accessor":
            return flat(o["operand_1"]) + [k, o["operand_2"]]
        if len(o) != 2:
            return ["bad operand count"]
        return flat(o["operand_1"]) + [k] + flat(o["operand_2"])
    return [v]


@harness("chains")
def chains(h):
    """No part of a chain of accessors is lost, repeated or moved."""
    n = name(h)
    src, want = n, [h.el(n)]
    for i in range(3 if not h.thorough() else 4):
        k = h.choose(".", "::", "[]", "call", "") if i else h.choose(".", "::", "[]", "call")
        if k == "":
            break
        if k == "[]":
            d = h.digits(1)
            src, want = src + "[" + d + "]", want + ["index_accessor", int(d)]
        elif k == "call":
            d = h.digits(1)
            src = src + ".listX(" + d + ", k)"
            want = want + ["function_accessor", [["func_name", "listX"], ["operand_2", int(d)], ["operand_3", h.el("k")]]]
        else:
            m = name(h)
            src, want = src + k + m, want + ["property_accessor" if k == "." else "nested_resource_accessor", h.el(m)]
    h.eq(flat(h.var(src)), want, "accessors in order")


@harness("spacing")
def spacing(h):
    s = h.sym(h.choose(0, 1, 2), "= \t")
    expect(h, "var", "k.listKeys(" + s + "1" + s + "," + s + "''" + s + ")", facc(h.el("k"), "listKeys", 1, ""), "spacing")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions, as bases, selectors and methods."""
    w = h.choose(h.words())
    h.assume(w not in ("true", "false", "null"))
    o = h.opaque()
    k = h.choose("prop", "base", "index", "key", "nested", "nbase", "func", "safe")
    h.assume(not (k == "base" and (w == "az" or w == "sys")))  # a namespace
    src, v = {
        "prop": lambda: (o.src + "." + w, prop(o.val, h.el(w))),
        "safe": lambda: (o.src + ".?" + w, prop(o.val, h.el(w))),
        "base": lambda: (w + ".p", prop(h.el(w), h.el("p"))),
        "index": lambda: (o.src + "[" + w + "]", index(o.val, h.el(w))),
        "key": lambda: (o.src + "['" + w + "']", index(o.val, w)),
        "nested": lambda: (o.src + "::" + w, op2("nested_resource_accessor", o.val, h.el(w))),
        "nbase": lambda: (w + "::p", op2("nested_resource_accessor", h.el(w), h.el("p"))),
        "func": lambda: (o.src + ".listKeys(" + w + ", '" + w + "')", facc(o.val, "listKeys", h.el(w), w)),
    }[k]()
    expect(h, "var", src, v, "accessor")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of arguments around the numbers the code mentions."""
    n = h.choose(h.sizes(0, 300))
    d = h.digits(1)
    args = [h.choose("k" + str(n), d) if i == n - 1 else "k" + str(i) for i in range(n)]
    vals = [int(a) if a is d else h.el(a) for a in args]
    expect(h, "var", "k.listKeys(" + ", ".join(args) + ")", facc(h.el("k"), "listKeys", *vals), "function access")
    expect(h, "var", "k[" + str(n) + "]", index(h.el("k"), n), "index access")


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Names as long, and chains as deep, as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 300))
    o = h.opaque()
    w = h.sym(1, "letter") + "q" * (n - 1)
    k = h.choose("property", "base", "key", "nested", "function", "argument", "indices", "properties")
    if k == "indices" or k == "properties":
        h.assume(n <= 60)
        src, v = "k", h.el("k")
        for i in range(n):
            if k == "indices":
                src, v = src + "[" + str(i) + "]", index(v, i)
            else:
                src, v = "(" + src + ").p" + str(i), prop(v, h.el("p" + str(i)))
        expect(h, "var", src, v, "chain")
        return
    src, v = {
        "property": lambda: (o.src + "." + w, prop(o.val, h.el(w))),
        "base": lambda: (w + ".p", prop(h.el(w), h.el("p"))),
        "key": lambda: (o.src + "['" + w + "']", index(o.val, w)),
        "nested": lambda: (o.src + "::" + w, op2("nested_resource_accessor", o.val, h.el(w))),
        "function": lambda: (o.src + ".list" + w + "()", facc(o.val, "list" + w)),
        "argument": lambda: ("k.listKeys('" + w + "', " + o.src + ")", facc(h.el("k"), "listKeys", w, o.val)),
    }[k]()
    expect(h, "var", src, v, "accessor")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["base", "prop", "index", "nested", "list", "list_arg"])


@harness("small_parts")
def small_parts(h):
    """Small and nested values as base, index and argument."""
    (a, v), k = spots.small(h), h.el("k")
    s = h.choose("k[" + a + "]", "(" + a + ").b", "(" + a + ")[0]", "(" + a + ")::b", "(" + a + ").list()", "k.listKeys(" + a + ")", "k.listKeys(k, " + a + ")", "k.getSecret(" + a + ", k)", "(k[" + a + "].b)[" + a + "]", "(" + a + ")[" + a + "]")
    w = {"k[" + a + "]": lambda: index(k, v), "(" + a + ").b": lambda: prop(v, h.el("b")), "(" + a + ")[0]": lambda: index(v, 0), "(" + a + ")::b": lambda: op2("nested_resource_accessor", v, h.el("b")),
         "(" + a + ").list()": lambda: facc(v, "list"), "k.listKeys(" + a + ")": lambda: facc(k, "listKeys", v), "k.listKeys(k, " + a + ")": lambda: facc(k, "listKeys", k, v),
         "k.getSecret(" + a + ", k)": lambda: facc(k, "getSecret", v, k), "(k[" + a + "].b)[" + a + "]": lambda: index(prop(index(k, v), h.el("b")), v), "(" + a + ")[" + a + "]": lambda: index(v, v)}[s]()
    expect(h, "var", s, w, "accessor")
