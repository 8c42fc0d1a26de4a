from props.c01 import wellformed
from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "arrays of 0..4 items with uninterpreted items and every separator combination (comma, newline, comma + newline, CRLF, comment line); "
             "each written-out item shape next to each other one; objects of 0..3 properties, keys of 1..3 symbolic characters bare or quoted, with "
             "equal values; nesting to depth 4 chosen level by level; every pair of small values as items and properties; 0..6 entries in every context",
    "thorough": "as quick with 6 items, 5 properties, keys of up to 5 characters, depth 6 and every position",
}
QUICK = ["var", "param", "items", "prop", "arg", "deco", "right", "config", "loop"]
_expect = expect


def expect(h, place, src, v, msg):
    _expect(h, place, src, ordered(v), msg)


SEPS = [", ", "\n", ",\n", "\r\n", "\n\n", "\n// c\n", " // c, 'd' ]\n", "\n  "]


@harness("arrays")
def arrays(h):
    """Every item once and in order, whatever the separators."""
    n = h.choose(0, 1, 2, 3) if not h.thorough() else h.choose(0, 1, 2, 3, 4)
    lead = h.choose("", "\n", "\n// c\n")
    tail = h.choose("", "\n")
    items = [h.opaque() for _ in range(n)]
    src = ""
    for i, o in enumerate(items):
        src = src + o.src + (h.choose(SEPS) if i < n - 1 else "")
    expect(h, "var", "[" + lead + src + tail + "]", [o.val for o in items], "array")


@harness("array_shapes")
def array_shapes(h):
    """Neighbouring items never merge, whatever they look like."""
    a, b = h.shape(), h.shape()
    sep = h.choose(", ", "\n", ",")
    expect(h, "var", "[" + ("\n" if sep == "\n" else "") + a.src + sep + b.src + "]", [a.val, b.val], "array")


@harness("array_comma_newline")
def array_comma_newline(h):
    a, b = h.shape(), h.shape()
    expect(h, "var", "[\n" + a.src + ",\n" + b.src + "\n]", [a.val, b.val], "array")


@harness("numbers_in_arrays")
def numbers_in_arrays(h):
    n = h.choose(1, 2, 3, 4)
    src, want = "[", []
    for i in range(n):
        d = h.digits(h.choose(1, 2) if n < 4 else 1)
        minus_ = h.choose("", "-") if n < 3 else ""
        src, want = src + ("\n  " if i or n > 2 else "") + minus_ + d, want + [minus(int(d)) if minus_ else int(d)]
    expect(h, "var", src + "\n]", want, "array")


@harness("same_items")
def same_items(h):
    """Equal items are all kept."""
    a = h.shape()
    n = h.choose(2, 3, 5)
    sep = h.choose(", ", "\n")
    expect(h, "var", "[" + sep.join([a.src] * n) + "]", [a.val] * n, "array")


@harness("string_items")
def string_items(h):
    a = h.sym(h.choose(0, 1), "alnum")
    b = h.sym(h.choose(0, 1), "alnum")
    c = h.sym(h.choose(0, 1), "alnum")
    s, t = h.choose(", ", "\n", ",\n"), h.choose(", ", "\n", ",\n")
    expect(h, "var", "['" + a + "'" + s + "'" + b + "'" + t + "'" + c + "']", [a, b, c], "array")


def key(h, n):
    """(source, reported key)"""
    k = name(h, n)
    if h.choose(False, True):
        return "'" + k + "'", "'" + k + "'"
    return k, k


@harness("objects")
def objects(h):
    """One entry per property with its key text and value."""
    n = h.choose(0, 1, 2, 3) if not h.thorough() else h.choose(0, 1, 2, 3, 4)
    names = ["a", "bb", "null", "resource", "e"]
    src, want = "", {}
    for i in range(n):
        o = h.opaque()
        src = src + names[i] + ":" + h.choose(" ", "") + o.src + (h.choose(", ", "\n", "\r\n", " // c: d\n") if i < n - 1 else "")
        want[names[i]] = o.val
    expect(h, "var", "{" + h.choose("\n", "", " ") + src + h.choose("\n", "", " ") + "}", want, "object")


@harness("keys")
def keys(h):
    """Symbolic keys, bare and quoted, next to each other."""
    k1, w1 = key(h, h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 5))
    k2, w2 = key(h, h.choose(1, 2))
    h.assume(w1 != w2)
    h.assume(w1 != "resource" and w2 != "resource")
    a, b = h.opaque(), h.opaque()
    expect(h, "var", "{\n  " + k1 + ": " + a.src + "\n  " + k2 + ": " + b.src + "\n}", {w1: a.val, w2: b.val}, "object")


@harness("empty_key")
def empty_key(h):
    """A key of no characters at all, before, after and between others."""
    a, b, c = h.opaque(), h.opaque(kinds=("ref",)), h.opaque(kinds=("null", "empty"))
    n = name(h, 1)
    ps = [("''", a), (n, b), ("'" + n + "'", c)]
    k = h.choose(1, 2, 3)
    i = h.choose(range(3))
    ps = (ps[i:] + ps[:i])[:k]
    sep = h.choose(", ", "\n")
    expect(h, h.choose("var", "item", "prop", "config", "deco"), "{" + sep.strip(",") + sep.join([x + ": " + o.src for x, o in ps]) + sep.strip(",") + "}", {x: o.val for x, o in ps}, "object")


@harness("key_order")
def key_order(h):
    """Keys keep the order they are written in."""
    n = h.choose(2, 3) if not h.thorough() else h.choose(2, 3, 4)
    ks = [h.sym(1, "identstart") for _ in range(n)]
    f = h.choose(range(5)) if n == 2 else 0
    ks = [k if f == 0 else "'" + k + "'" if f == 1 or f == 3 + i else k + "1" for i, k in enumerate(ks)]
    for i in range(n):
        for j in range(i):
            h.assume(ks[i] != ks[j])
    expect(h, h.choose("var", "item", "config", "arg") if n == 2 else "var", "{\n" + "".join([k + ": k\n" for k in ks]) + "}", {k: h.el("k") for k in ks}, "object")


@harness("quoted_keys")
def quoted_keys(h):
    """Quoted keys keep every character."""
    k = h.sym(h.choose(1, 2, 3, 4) if not h.thorough() else h.choose(1, 2, 3, 4, 5), "line")
    h.assume(wellformed(k))
    a = h.opaque()
    expect(h, "var", "{\n  '" + k + "': " + a.src + "\n  other: 1\n}", {"'" + k + "'": a.val, "other": 1}, "object")


@harness("interpolated_keys")
def interpolated_keys(h):
    k = name(h, h.choose(1, 2))
    pre, post = h.choose("", "a", "\\'", "$", "\\${"), h.choose("-x", "", "\\\\", "\\'", "${b}", "}")
    a = h.opaque()
    key_ = "'" + pre + "${" + k + "}" + post + "'"
    expect(h, "var", "{\n  " + key_ + ": " + a.src + "\n}", {key_: a.val}, "object")


@harness("value_shapes")
def value_shapes(h):
    a, b = h.shape(), h.shape()
    expect(h, "var", "{\n  a: " + a.src + "\n  b: " + b.src + "\n}", {"a": a.val, "b": b.val}, "object")


@harness("same_values")
def same_values(h):
    a = h.shape()
    expect(h, "var", "{ a: " + a.src + ", b: " + a.src + ", c: " + a.src + " }", {"a": a.val, "b": a.val, "c": a.val}, "object")


def nest(h, depth):
    if depth == 0:
        how = h.choose("value", "[]", "{}")
        if how == "value":
            o = h.opaque()
            return o.src, o.val
        return how, [] if how == "[]" else {}
    src, v = nest(h, depth - 1)
    how = h.choose("[x]", "[x, 1]", "[1\nx]", "{x}", "{1 x}")
    if how == "[x]":
        return "[" + src + "]", [v]
    if how == "[x, 1]":
        return "[" + src + ", 1]", [v, 1]
    if how == "[1\nx]":
        return "[\n1\n" + src + "\n]", [1, v]
    if how == "{x}":
        return "{ p: " + src + " }", {"p": v}
    return "{\n  o: 1\n  p: " + src + "\n}", {"o": 1, "p": v}


@harness("nesting")
def nesting(h):
    src, v = nest(h, h.choose(0, 1, 2, 3) if not h.thorough() else h.choose(0, 1, 2, 3, 4))
    expect(h, "var", src, v, "nesting")


@harness("wide_and_deep")
def wide_and_deep(h):
    a, b, c, d = h.opaque(), h.opaque(), h.opaque(), h.opaque()
    sep = h.choose(", ", "\n")
    expect(h, positions(h, QUICK), f"[[{a.src}{sep}[]]{sep}{{ p: [{b.src}], q: {{ r: {c.src} }} }}{sep}[[{d.src}]]{sep}{{}}]",
           [[a.val, []], {"p": [b.val], "q": {"r": c.val}}, [[d.val]], {}], "nesting")


@harness("places")
def places(h):
    a, b = h.opaque(), h.opaque()
    k = name(h, 2)
    how = h.choose("array", "object", "[]", "{}")
    src, v = {"array": (f"[{a.src}, {b.src}]", [a.val, b.val]), "object": ("{\n" + k + ": " + a.src + "\no: " + b.src + "\n}", {k: a.val, "o": b.val}),
              "[]": ("[]", []), "{}": ("{}", {})}[how]
    expect(h, positions(h, QUICK), src, v, how)


@harness("empties")
def empties(h):
    """Empty arrays and objects stay empty, whatever stands inside them."""
    s = h.choose("", " ", "\n", "\n\n", " // a, b\n", "\n// c\n", " /* x: 1 */ ", "\r\n", "\t")
    k = h.choose("[]", "{}")
    expect(h, h.choose("var", "config", "prop", "arg"), k[0] + s + k[1], [] if k == "[]" else {}, "empty")


@harness("spacing")
def spacing(h):
    s = h.sym(h.choose(0, 1, 2), "= \t")
    a, b = h.opaque(), h.opaque()
    if h.choose(True, False):
        expect(h, "var", "[" + s + a.src + s + "," + s + b.src + s + "]", [a.val, b.val], "spacing")
    else:
        expect(h, "var", "{" + s + "a" + s + ":" + s + a.src + s + "," + s + "b:" + b.src + s + "}", {"a": a.val, "b": b.val}, "spacing")


@harness("malformed")
def malformed(h):
    src = h.choose("[,]", "[1,,2]", "[,1]", "{,}", "{ a }", "{ a: }", "{ : 1 }", "{ a: 1,, b: 2 }", "{ , a: 1 }", "[", "]", "{", "}", "[1", "{ a: 1",
                   "[1}", "{ a: 1]", "{ 1: 2 }", "[a: 1]", "{ a = 1 }", "[1;2]", "[[1]", "{ a: { b: 1 }")
    h.bad(h.parse("var x = " + src + "\n"), "malformed " + src)


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Keys and items the code itself mentions."""
    w = h.choose(h.words())
    a, b = h.opaque(), h.opaque()
    place = h.choose("var", "config", "module", "deco", "arg")
    h.assume(not (place == "config" and w == "depends_on"))
    expect(h, place, "{\n  " + w + ": " + a.src + "\n  '" + w + "': " + b.src + "\n}", {w: a.val, "'" + w + "'": b.val}, "object")
    expect(h, place, "[\n'" + w + "'\n" + a.src + "\n]", [w, a.val], "array")


@harness("body_keys_in_the_code")
def body_keys_in_the_code(h):
    """The same directly in the body of a resource or module."""
    w = h.choose(h.words())
    a, b = h.opaque(), h.opaque()
    body, v = "{\n  " + w + ": " + a.src + "\n  '" + w + "': " + b.src + "\n  z_: k\n}\n", {w: a.val, "'" + w + "'": b.val, "z_": h.el("k")}
    v = ordered(v)
    f = h.choose("", "if (k) ")
    if f:
        v = {"condition": h.el("k"), "config": v}
    if h.choose(True, False):
        h.eq(h.good(h.parse("resource r 'a/b@1' = " + f + body)), doc(resources={"r": resource("a/b", "1", v)}), "resource body")
    else:
        h.eq(h.good(h.parse("module r './m' = " + f + body)), doc(modules={"r": local_module("./m", v)}), "module body")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of items and properties around the numbers the code mentions."""
    n = h.choose(h.sizes(0, 300))
    o = h.opaque()
    if h.choose(True, False):
        s = h.choose(", ", "\n")
        expect(h, h.choose("var", "arg"), "[" + s.strip(" ,") + s.join(["k"] * n + [o.src]) + "]", [h.el("k")] * n + [o.val], "array")
    else:
        expect(h, h.choose("var", "arg"), "{\n" + "".join("p" + str(i) + ": k\n" for i in range(n)) + "q: " + o.src + "\n}",
               {**{"p" + str(i): h.el("k") for i in range(n)}, "q": o.val}, "object")


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Keys as long, and nesting as deep, as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    o = h.opaque()
    k = h.choose("key", "quoted", "objects", "arrays", "mixed")
    if k in ("key", "quoted"):
        w = h.sym(1, "letter") + "q" * (n - 1)
        src, val = "{\n" + ("'" + w + "'" if k == "quoted" else w) + ": " + o.src + "\n}", {("'" + w + "'" if k == "quoted" else w): o.val}
    else:
        h.assume(n <= 60)
        src, val = o.src, o.val
        for i in range(n):
            if k == "objects" or k == "mixed" and i % 2:
                src, val = "{\np" + str(i) + ": " + src + "\n}", {"p" + str(i): val}
            else:
                src, val = "[" + src + "]", [val]
    expect(h, h.choose("var", "arg"), src, val, "collection")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["item", "key", "value"])


@harness("structured_values")
def structured_values(h):
    """Names the code mentions with empty parts, in every place."""
    src, v = spots.structured(h)
    expect(h, h.choose("var", "param", "output", "config", "module", "body", "item", "prop"), src, v, "collection")


@harness("small_values")
def small_values(h):
    """Small and nested values next to each other."""
    (a, v), (b, w) = spots.small(h), spots.small(h)
    c = h.choose(1, 2)
    src, val = ("[" + a + ", " + b + "]", [v, w]) if c == 1 else ("{ a: " + a + ", b: " + b + " }", {"a": v, "b": w})
    expect(h, "var", src, val, "values")


@harness("counts")
def counts(h):
    """Collections of any number of entries, alone and as entries of one another, in every context a value has."""
    from props.c26 import ALL

    n = h.choose([0, 1, 2, 3, 4, 5, 6] + h.sizes(7, 12))
    s, v = h.choose(*((e, f(h)) for e, f in (("k", lambda h: h.el("k")), ("0", lambda h: 0), ("null", lambda h: None), ("{}", lambda h: {}), ("[]", lambda h: []), ("[\n  1\n]", lambda h: [1]))))
    arr = "[" + "".join("\n  " + s for _ in range(n)) + "\n]"
    obj = "{\n" + "".join("  p" + str(i) + ": " + s + "\n" for i in range(n)) + "}"
    src, val = h.choose((arr, [v] * n), (obj, {"p" + str(i): v for i in range(n)}), ("[\n" + obj + "\n" + obj + "\n]", [{"p" + str(i): v for i in range(n)}] * 2), ("{\n  a: " + arr + "\n  b: " + arr + "\n}", {"a": [v] * n, "b": [v] * n}))
    pos = h.choose(list(ALL))
    a, b, d = ALL[pos]
    h.eq(h.good(h.parse(a + src + b), "collection at " + pos), d(h, val), "collection at " + pos)
