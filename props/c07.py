from props import spots
from props.common import *
from props.c06 import T
from symx.harness import harness

BOUNDS = {
    "quick": "names of 1..3 symbolic identifier characters; every documented name with one character replaced by, preceded by or followed by an "
             "arbitrary identifier character, with another case of its first letter and with the other namespace; 0..14 uninterpreted arguments; every "
             "written-out argument shape at every place of three arguments; small values as arguments",
    "thorough": "names of up to 5 symbolic characters; 0..24 arguments; 18 positions",
}
QUICK = ["var", "param", "items", "prop", "arg", "deco", "right", "config", "loop"]
NAMES = set(T)


def known(nm):
    for x in NAMES:
        if len(x) == len(nm) and nm == x:
            return True
    return False


@harness("short_names")
def short_names(h):
    nm = name(h, h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 4, 5))
    h.assume(not known(nm))
    n = h.choose(range(6 if not h.thorough() else 10)) if len(nm) < 3 else h.choose(0, 2)
    args = [h.opaque() for _ in range(n)]
    expect(h, "var", nm + "(" + ", ".join([a.src for a in args]) + ")", unknown(nm, *[a.val for a in args]), "unknown function")


@harness("near_names")
def near_names(h):
    """One character away from a documented name."""
    b = h.choose(sorted(NAMES))
    how = h.choose("replace", "prefix", "suffix", "drop")
    if how == "replace":
        i = h.choose(range(len(b)))
        nm = b[:i] + (h.sym(1, "ident") if i else h.sym(1, "identstart")) + b[i + 1:]
    elif how == "prefix":
        nm = name(h) + b
    elif how == "suffix":
        nm = b + h.sym(1, "ident")
    else:
        i = h.choose(range(len(b)))
        nm = b[:i] + b[i + 1:]
    h.assume(not known(nm))
    h.assume(nm[0] not in "0123456789")
    a, c = h.opaque(), h.opaque()
    expect(h, "var", nm + "(" + a.src + ", " + c.src + ")", unknown(nm, a.val, c.val), "unknown function")


@harness("near_no_arguments")
def near_no_arguments(h):
    b = h.choose("tenant", "newGuid", "deployment", "utcNow", "resourceGroup", "any")
    nm = h.choose(["prefix", "suffix"])
    nm = name(h) + b if nm == "prefix" else b + h.sym(1, "ident")
    expect(h, "var", nm + "()", unknown(nm), "unknown function")


@harness("cases")
def cases(h):
    b = h.choose(sorted(NAMES))
    nm = h.choose(b.upper(), b[0].upper() + b[1:], b.lower())
    h.assume(nm not in NAMES)
    a = h.opaque()
    expect(h, "var", nm + "(" + a.src + ")", unknown(nm, a.val), "unknown function")


@harness("namespaces")
def namespaces(h):
    """The namespace stays part of an unknown name; a documented name in the other namespace is unknown."""
    b = h.choose(sorted(NAMES) + ["foo", "x_1"])
    ns = h.choose("sys", "az")
    h.assume(b not in T or T[b][0] != ns)
    nm = ns + "." + b
    a, c = h.opaque(), h.opaque()
    expect(h, "var", nm + "(" + a.src + ", " + c.src + ")", unknown(nm, a.val, c.val), "unknown function")


@harness("symbolic_namespaced")
def symbolic_namespaced(h):
    nm = h.choose("sys", "az") + "." + name(h, h.choose(1, 2))
    a = h.opaque()
    expect(h, "var", nm + "(" + a.src + ")", unknown(nm, a.val), "unknown function")


@harness("shapes")
def shapes(h):
    a = h.shape()
    n = h.choose(1, 2, 3)
    at = h.choose(range(n))
    srcs, vals = [], []
    for i in range(n):
        if i == at:
            srcs.append(a.src)
            vals.append(a.val)
        else:
            o = h.opaque()
            srcs.append(o.src)
            vals.append(o.val)
    nm = name(h)
    expect(h, "var", nm + "(" + ", ".join(srcs) + ")", unknown(nm, *vals), "unknown function")


@harness("many")
def many(h):
    """Any number of arguments; they are listed in the order they are written."""
    n = h.choose(range(5, 25 if h.thorough() else 15))
    nm = name(h, h.choose(1, 3))
    h.assume(not known(nm))
    args = [h.opaque() for _ in range(n)]
    v = h.var(nm + "(" + ", ".join([a.src for a in args]) + ")")
    h.eq(v, unknown(nm, *[a.val for a in args]), "unknown function")
    h.eq(list(v["function"]["parameters"]), [f"arg_{i + 1}" for i in range(n)], "order of the arguments")


@harness("all_same")
def all_same(h):
    """Equal arguments are kept apart."""
    a = h.shape()
    n = h.choose(2, 3, 4)
    expect(h, "var", "f(" + ", ".join([a.src] * n) + ")", unknown("f", *[a.val] * n), "unknown function")


@harness("literals")
def literals(h):
    n = h.choose(1, 2, 3, 4)
    srcs, vals = [], []
    for i in range(n):
        if h.choose(True, False):
            s = h.sym(h.choose(0, 1), "alnum")
            srcs.append("'" + s + "'")
            vals.append(s)
        else:
            d = h.digits(1)
            srcs.append(d)
            vals.append(int(d))
    expect(h, "var", "f(" + ",".join(srcs) + ")", unknown("f", *vals), "unknown function")


@harness("places")
def places(h):
    nm = name(h, h.choose(1, 2))
    h.assume(nm != "if")  # a filter directly after the colon of a loop
    n = h.choose(0, 1, 2)
    args = [h.opaque() for _ in range(n)]
    expect(h, positions(h, QUICK), nm + "(" + ", ".join([a.src for a in args]) + ")", unknown(nm, *[a.val for a in args]), "unknown function")


@harness("nested")
def nested(h):
    f, g = name(h), name(h)
    a, b, c = h.opaque(), h.opaque(), h.opaque()
    how = h.choose("first", "second", "both")
    inner, iv = f"{g}({b.src}, {c.src})", unknown(g, b.val, c.val)
    if how == "first":
        expect(h, "var", f + "(" + inner + ", " + a.src + ")", unknown(f, iv, a.val), "nested call")
    elif how == "second":
        expect(h, "var", f + "(" + a.src + ", " + inner + ")", unknown(f, a.val, iv), "nested call")
    else:
        expect(h, "var", f + "(" + inner + "," + f + "())", unknown(f, iv, unknown(f)), "nested call")


@harness("malformed")
def malformed(h):
    """A missing argument is an error."""
    a = h.opaque()
    src = h.choose("f(,)", "f(,k)", "f(k,)", "f(k,,k)", "f(k", "f(k k)", "f(k;k)", "f)", "f(k))")
    h.bad(h.parse("var x = " + src + "\n"), "malformed call")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions, unless they are built-in functions; and as arguments."""
    w = h.choose(h.words())
    o = h.opaque()
    if w not in NAMES and w not in ("if", "sys", "az") and not w.startswith("list"):
        expect(h, "var", w + "(" + o.src + ", k)", unknown(w, o.val, h.el("k")), "unknown function")
    if w not in ("true", "false", "null"):
        expect(h, "var", "foo('" + w + "', " + w + ")", unknown("foo", w, h.el(w)), "unknown function")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of arguments around the numbers the code mentions."""
    n = h.choose(h.sizes(0, 300))
    d = h.digits(1)
    expect(h, "var", "foo(" + ", ".join(["k"] * n + [d]) + ")", unknown("foo", *([h.el("k")] * n + [int(d)])), "unknown function")


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Function names and texts as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    c = h.sym(1, "letter")
    w = "zq" * (n // 2) + "z" * (n % 2)
    w = w[:-1] + c if n > 6 else w
    src, v = h.choose((w + "(k)", unknown(w, h.el("k"))), ("foo('" + w + "', k)", unknown("foo", w, h.el("k"))), ("foo(" + w + "_)", unknown("foo", h.el(w + "_"))))
    expect(h, h.choose("var", "arg", "prop"), src, v, "unknown function")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["call", "call_end", "arg"])


@harness("structured_arguments")
def structured_arguments(h):
    """Objects and arrays with names the code mentions and empty parts, as arguments."""
    src, v = spots.structured(h)
    at = h.choose(0, 1)
    expect(h, "var", "foo(" + ", ".join([src, "k"] if at == 0 else ["k", src]) + ")", unknown("foo", *([v, h.el("k")] if at == 0 else [h.el("k"), v])), "unknown function")


@harness("small_arguments")
def small_arguments(h):
    """Small and nested values as arguments."""
    nm = h.choose("foo", "sys.foo", "az.foo", "Concat", "items", "map")
    n = h.choose(1, 2, 3)
    at = h.choose([*range(n), None])
    a, v = spots.small(h)
    expect(h, "var", nm + "(" + ", ".join(a if at in (i, None) else "k" for i in range(n)) + ")", unknown(nm, *[v if at in (i, None) else h.el("k") for i in range(n)]), nm)
