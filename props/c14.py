from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every loop kind x filter x place (variable, output, property, resource, module, nested resource) with uninterpreted source, filter and body; "
             "symbolic iterator and index names of 1..2 characters; every written-out shape and 7 unparenthesised compound expressions as source, "
             "filter, condition and body; spacing and line breaks; loops inside loops to depth 3; two loops next to each other; small and nested values as source, filter, condition and body",
    "thorough": "as quick with names of up to 4 characters, every pair of shapes for source and filter and depth 4",
}
ASSUMPTIONS = ["directly after the colon of a loop, if( starts a filter (a function cannot be called if there)"]

COMPOUND = [
    ("k == 1", lambda h: op2("equals", h.el("k"), 1)), ("!k", lambda h: not_(h.el("k"))), ("k && m", lambda h: op2("and", h.el("k"), h.el("m"))),
    ("k.m", lambda h: prop(h.el("k"), h.el("m"))), ("k[0]", lambda h: index(h.el("k"), 0)), ("range(0, 3)", lambda h: fn("range", start_index=0, count=3)),
    ("(k ? 1 : 2)", lambda h: cond(h.el("k"), 1, 2)),
]


class V:
    def __init__(self, src, val):
        self.src, self.val = src, val


def compound(h):
    s, v = h.choose(COMPOUND)
    return V(s, v(h))


def head(h, kind, i, j, source):
    """(text between for and the colon, expected loop type)"""
    if kind == "array":
        return i + " in " + source.src, {"type": "array", "detail": {"item_name": i, "array_name": source.val}}
    if kind == "array_index":
        return "(" + i + ", " + j + ") in " + source.src, {"type": "array_index", "detail": {"item_name": i, "index_name": j, "array_name": source.val}}
    return i + " in items (" + source.src + ")", {"type": "object", "detail": {"item_name": i, "object_name": source.val}}


KINDS = ["array", "array_index", "object"]


def loop(h, kind, i, j, source, filt, body):
    a, t = head(h, kind, i, j, source)
    f = "" if filt is None else "if (" + filt.src + ") "
    return "[for " + a + ": " + f + body.src + "]", {"loop_type": t, "condition": None if filt is None else filt.val, "config": body.val}


PLACES = ["var", "output", "property", "resource", "module", "child", "typed"]


def at(h, place, src, val):
    if place == "var":
        return "var x = " + src + "\n", doc(variables={"x": var(val)})
    if place == "typed":
        return "var x t[] = " + src + "\n", doc(variables={"x": var(val, type={"type": "array", "item_type": "t"})})
    if place == "output":
        return "output x t[] = " + src + "\n", doc(outputs={"x": output({"type": "array", "item_type": "t"}, val)})
    if place == "property":
        return "resource x 'a/b@1' = {\n  p: {\n    q: " + src + "\n    s: 1\n  }\n}\n", doc(resources={"x": resource("a/b", "1", {"p": {"q": val, "s": 1}})})
    if place == "resource":
        return "resource x 'a/b@1' = " + src + "\n", doc(resources={"x": resource("a/b", "1", val)})
    if place == "module":
        return "module x './m' = " + src + "\n", doc(modules={"x": local_module("./m", val)})
    val = dict(val)
    val["depends_on"] = [h.el("x")]
    return "resource x 'a/b@1' = {\n  resource c 'y' = " + src + "\n}\n", doc(resources={
        "x": resource("a/b", "1", {}), "x__c": resource("a/b/y", "1", val)})


def run(h, place, src, val, **kw):
    t, d = at(h, place, src, val)
    h.eq(h.good(h.parse(t), "loop at " + place), d, "loop at " + place, **kw)


def plain(h):
    return h.opaque(without=("iffn",))


def obj(o):
    return V("{\n  a: " + o.src + "\n}", {"a": o.val})


def body(h, place):
    """Resources and modules have an object as their body."""
    o = plain(h)
    return obj(o) if place in ("resource", "module", "child") or h.choose(True, False) else o


@harness("kinds")
def kinds(h):
    """Every kind with and without filter in every place."""
    place, kind = h.choose(PLACES), h.choose(KINDS)
    f = h.choose(False, True)
    src, val = loop(h, kind, name(h, 1), name(h, 1), h.opaque(), h.opaque() if f else None, body(h, place))
    run(h, place, src, val)


@harness("names")
def names(h):
    n = h.choose(1, 2) if not h.thorough() else h.choose(1, 2, 4)
    m = h.choose(1, 2)
    src, val = loop(h, h.choose(KINDS), name(h, n), name(h, m), V("k", h.el("k")), None, V("[" + "k, 1]", [h.el("k"), 1]))
    run(h, "var", src, val)


@harness("keyword_names")
def keyword_names(h):
    nm = h.choose("items", "in_", "for_", "existing", "resource", "string", "_", "param")
    w = h.choose("item", "index", "source", "body")
    k = h.choose(KINDS)
    src, val = loop(h, k, nm if w == "item" else "i", nm if w == "index" else "j", V(nm, h.el(nm)) if w == "source" else h.opaque(), None,
                    V(nm, h.el(nm)) if w == "body" else plain(h))
    run(h, h.choose("var", "output", "property"), src, val)


@harness("source_shapes")
def source_shapes(h):
    s = h.shape() if h.choose(True, False) else compound(h)
    kind = h.choose(KINDS)
    f = h.choose(None, V("k", h.el("k")))
    src, val = loop(h, kind, "i", "j", s, f, plain(h))
    run(h, "var", src, val)


@harness("filter_shapes")
def filter_shapes(h):
    f = h.shape() if h.choose(True, False) else compound(h)
    s = h.shape() if h.thorough() else h.opaque()
    src, val = loop(h, h.choose(KINDS), "i", "j", s, f, h.opaque(without=("iffn",)))
    run(h, "var", src, val)


@harness("body_shapes")
def body_shapes(h):
    """The body is kept, with and without a filter in front of it."""
    if h.choose(True, False):
        f = h.choose(None, V("k", h.el("k")))
        b = h.shape(without=("iffn",)) if f is None else h.shape()
    else:
        f, b = h.choose(None, V("k", h.el("k"))), compound(h)
    src, val = loop(h, h.choose(KINDS), "i", "j", h.opaque(), f, b)
    run(h, h.choose("var", "output", "property"), src, val)


@harness("filter_spacing")
def filter_spacing(h):
    a, f, b = h.opaque(), h.opaque(), h.opaque()
    sp = h.choose("", " ", "\t", "  ")
    t = "[for i in " + a.src + ":" + h.choose("", " ") + "if" + sp + "(" + sp + f.src + sp + ")" + h.choose("", " ", "\t") + "{" + sp + "a: " + b.src + " }]"
    run(h, h.choose("var", "resource"), t, loop_array("i", a.val, {"a": b.val}, f.val))


@harness("line_breaks")
def line_breaks(h):
    """A loop may start and end on lines of its own."""
    a, b = h.opaque(), h.opaque()
    n1, n2 = h.choose("", "\n", "\r\n", " // c\n"), h.choose("", "\n", "\r\n", " // c\n")
    run(h, h.choose("var", "resource", "module"), "[" + n1 + "for i in " + a.src + ": {\n  a: " + b.src + "\n}" + n2 + "]", loop_array("i", a.val, {"a": b.val}))


@harness("items_function")
def items_function(h):
    """Iterating over the items of an object."""
    a = h.opaque()
    arr = loop_array("i", fn("items", arg_1=a.val), {"b": 1})
    want = {"loop_type": {"type": "object", "detail": {"item_name": "i", "object_name": a.val}}, "condition": None, "config": {"b": 1}}
    t, d = at(h, "resource", "[for i in items(" + a.src + "): {\n b: 1\n}]", want)
    h.eq(h.good(h.parse(t)), d, "object loop", known="object-loop", wrong=at(h, "resource", "", arr)[1])


@harness("items_near_miss")
def items_near_miss(h):
    """Only items is the object iteration; other functions and other cases are array loops."""
    a = h.opaque()
    n = h.choose("Items", "item", "itemss", "sys.items", "az.items", "items2") if h.choose(True, False) else name(h, 1)
    src, val = loop(h, h.choose("array", "array_index"), "i", "j", V(n + "(" + a.src + ")", fn(n, arg_1=a.val)), None, plain(h))
    run(h, "var", src, val)


@harness("items_more")
def items_more(h):
    """A variable called items, and accessors of it, are ordinary sources."""
    s, v = h.choose(("items", lambda h: h.el("items")), ("items.a", lambda h: prop(h.el("items"), h.el("a"))), ("items[0]", lambda h: index(h.el("items"), 0)),
                    ("(items)", lambda h: h.el("items")))
    src, val = loop(h, h.choose("array", "array_index"), "i", "j", V(s, v(h)), None, plain(h))
    run(h, "var", src, val)


@harness("loops_in_loops")
def loops_in_loops(h):
    """Loops inside the body of a loop."""
    n = h.choose(2, 3) if not h.thorough() else h.choose(2, 3, 4)
    o = plain(h)
    b = V(o.src, o.val)
    names = ["i", "i", "k", "l"]
    for d in range(n):
        kind = h.choose(KINDS if n < 4 else KINDS[:2])
        f = h.choose(None, V("f", h.el("f"))) if d < 2 else None
        src, val = loop(h, kind, names[d], "j" + str(d), V("s" + str(d), h.el("s" + str(d))), f, b)
        b = V("{\n  p: " + src + "\n}", {"p": val})
    run(h, h.choose("var", "resource"), src, val)


@harness("two_loops")
def two_loops(h):
    """Loops of two declarations, and of two properties, do not mix."""
    a, b = h.choose(KINDS), h.choose(KINDS)
    s1, v1 = loop(h, a, "i", "j", h.opaque(), h.choose(None, V("f", h.el("f"))), plain(h))
    s2, v2 = loop(h, b, "k", "l", h.opaque(), h.choose(None, V("g", h.el("g"))), plain(h))
    if h.choose(True, False):
        h.eq(h.good(h.parse("var x = " + s1 + "\nvar y = " + s2 + "\n")), doc(variables={"x": var(v1), "y": var(v2)}), "two loops")
    else:
        h.eq(h.good(h.parse("var x = {\n  a: " + s1 + "\n  b: " + s2 + "\n}\n")), doc(variables={"x": var({"a": v1, "b": v2})}), "two loops")


@harness("conditions")
def conditions(h):
    """A conditional resource or module: condition and body."""
    c = h.opaque()
    b = h.opaque()
    place = h.choose("resource", "module", "child")
    sp = h.choose("", " ")
    t = h.choose("", "\n  ") + "if" + sp + "(" + sp + c.src + sp + ")" + sp + "{\n  a: " + b.src + "\n}"
    run(h, place, t, {"condition": c.val, "config": {"a": b.val}})


@harness("condition_shapes")
def condition_shapes(h):
    c = h.shape() if h.choose(True, False) else compound(h)
    o = h.opaque()
    n = h.choose(0, 1, 2)
    b = "{\n" + "  a: 1\n" * (n > 0) + ("  b: " + o.src + "\n" if n > 1 else "") + "}"
    w = {}
    if n:
        w["a"] = 1
    if n > 1:
        w["b"] = o.val
    run(h, h.choose("resource", "module", "child"), "if (" + c.src + ") " + b, {"condition": c.val, "config": w})


@harness("condition_bodies")
def condition_bodies(h):
    """Body properties that are named like the result's own entries stay in the body."""
    a, c = h.opaque(), h.opaque()
    k = h.choose("condition", "config", "loop_type", "if", "for")
    run(h, h.choose("resource", "module"), "if (" + c.src + ") {\n  " + k + ": " + a.src + "\n}", {"condition": c.val, "config": {k: a.val}})


@harness("plain_bodies")
def plain_bodies(h):
    """A body without loop and condition is reported as it is."""
    a = h.opaque()
    k = h.choose("condition", "config", "loop_type", "if", "for", "x")
    run(h, h.choose("resource", "module"), "{\n  " + k + ": " + a.src + "\n}", {k: a.val})


@harness("not_a_loop")
def not_a_loop(h):
    """Arrays that start with something that resembles for, or hold more than a loop."""
    n = name(h, h.choose(1, 2))
    h.assume(n != "in")
    nm = h.choose("for" + n, "_for", "For", "fo")
    o = h.opaque()
    h.eq(h.var("[" + nm + ", " + o.src + "]"), [h.el(nm), o.val], "array")


@harness("incomplete")
def incomplete(h):
    """A loop or condition that lacks a part is rejected."""
    t = h.choose("[for in k: 1]", "[for i k: 1]", "[for i in : 1]", "[for i in k 1]", "[for i in k:]", "[for i in k: 1", "[for (i) in k: 1]", "[for (i, ) in k: 1]",
                 "[for (i, j, l) in k: 1]", "[for (i, j in k: 1]", "[for i, j in k: 1]", "[for i in k: if () 1]", "[for i in k: if (l 1]", "[for i in k: if (l)]",
                 "[for i in items (): 1]", "[for i in k: 1 2]", "[for i in k: 1, 2]", "[for 'i' in k: 1]", "[for 1 in k: 1]", "[for i of k: 1]",
                 "[for i in k: if (l) if (m) 1]", "if (k) {}", "[for i in k; 1]")
    if t == "[for i in k: if (l) if (m) 1]":
        h.bad(h.parse("var x = " + t + "\n"), "incomplete")
        return
    p = h.choose("var x = ", "resource x 'a/b@1' = ", "output x t = ", "var x = {\n  a: ")
    if t == "if (k) {}" and p[0] == "r":
        return
    h.bad(h.parse(p + t + ("\n}\n" if p[-3] == "a" else "\n")), "incomplete")


@harness("incomplete_condition")
def incomplete_condition(h):
    t = h.choose("if {}", "if () {}", "if (k {}", "if k) {}", "if (k)", "(k) {}", "iff (k) {}", "if (k) {", "if (k) (l) {}", "if (k, l) {}", "if (k) if (l) {}")
    p = h.choose("resource x 'a/b@1' = ", "module x './m' = ")
    h.bad(h.parse(p + t + "\n"), "incomplete")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions as iterator, index, source, filter and body."""
    w = h.choose(h.words())
    h.assume(w not in ("true", "false", "null"))
    kind = h.choose(KINDS)
    which = h.choose("item", "index", "source", "filter", "body", "key", "text")
    k = V(w, h.el(w))
    o = plain(h)
    b = {"body": k, "key": V("{\n  " + w + ": " + o.src + "\n}", {w: o.val}), "text": V("'" + w + "'", w)}.get(which, o)
    src, val = loop(h, kind, w if which == "item" else "i", w if which == "index" else "j", k if which == "source" else V("k", h.el("k")),
                    k if which == "filter" else None, b)
    run(h, "var", src, val)
    if which in ("key", "source", "item"):
        run(h, "resource", "if (" + w + ") {\n  " + w + ": " + o.src + "\n}", {"condition": k.val, "config": {w: o.val}})


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of properties of a body, and of loops, around the numbers the code mentions."""
    n = h.choose(h.sizes(0, 60))
    o = plain(h)
    b = V("{\n" + "".join("p" + str(i) + ": " + o.src + "\n" for i in range(n)) + "}", {"p" + str(i): o.val for i in range(n)})
    place = h.choose("var", "resource", "module", "child")
    if h.choose(True, False) or place == "var":
        src, val = loop(h, h.choose(KINDS), "i", "j", V("k", h.el("k")), h.choose(None, V("f", h.el("f"))), b)
    else:
        src, val = "if (k) " + b.src, {"condition": h.el("k"), "config": b.val}
    run(h, place, src, val)


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Names of loops as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    w = "q" * n + h.sym(1, "letter")
    src, val = loop(h, h.choose(KINDS), w, w + "2", V(w + "3", h.el(w + "3")), h.choose(None, V(w, h.el(w))), V("{\n" + w + ": " + w + "\n}", {w: h.el(w)}))
    run(h, h.choose("var", "resource", "module", "child"), src, val)


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["loop", "source", "index_name", "items", "filter", "resource_cond"])


@harness("small_parts")
def small_parts(h):
    """Small and nested values as source, filter, condition and body."""
    s = V(*spots.small(h))
    w = h.choose("source", "filter", "body", "condition")
    place = h.choose(PLACES if w != "condition" else ["resource", "module", "child"])
    k = V("k", h.el("k"))
    objs = place in ("resource", "module", "child")
    if w == "condition":
        run(h, place, "if (" + s.src + ") {\n  a: " + s.src + "\n}", {"condition": s.val, "config": {"a": s.val}})
        return
    f = s if w == "filter" else h.choose(None, k) if w == "body" else None
    h.assume(not (w == "body" and f is None and s.src == "(k)"))
    b = V("{\n  a: " + (s.src if w == "body" else "k") + "\n}", {"a": s.val if w == "body" else k.val}) if objs or w != "body" else s
    src, val = loop(h, h.choose(KINDS), "i", "j", s if w == "source" else k, f, b)
    run(h, place, src, val)
