from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "integers of 1..4 and 9, 16, 20 (with a fixed part: up to 43) arbitrary digits at 9 positions, 25 keywords as names at 29 places, identifiers of 1..3 arbitrary word characters and keyword-affixed "
             "identifiers (14 words, 0..2 characters before and after) at 9 positions; strings that read like constants or names inside every decorator, default, output and collection",
    "thorough": "integers of 1..8 and 9..23 digits, identifiers of 1..5 characters, 18 positions",
}

QUICK = ["param", "item", "items", "prop", "arg", "deco", "right", "else", "config"]


@harness("integers")
def integers(h):
    pos = positions(h, QUICK)
    d = h.digits(h.choose(range(1, 9 if h.thorough() else 5)))
    expect(h, pos, d, int(d), "integer")


@harness("long_integers")
def long_integers(h):
    """Integers are exact at any size, and leading zeros mean nothing."""
    pos = positions(h, QUICK)
    d = h.choose("", "0", "00", "9007199254740", "1" + "0" * 22) + h.digits(h.choose(9, 16, 20) if not h.thorough() else h.choose(range(9, 24)))
    expect(h, pos, d, int(d), "integer")


@harness("constants")
def constants(h):
    pos = positions(h, list(POSITIONS))
    src, v = h.choose([("true", True), ("false", False), ("null", None), ("0", 0), ("9007199254740993", 9007199254740993), ("9223372036854775808", 9223372036854775808), ("1" + "0" * 40, 10 ** 40), ("007", 7), ("0010", 10), ("1", 1), ("''", ""), ("'true'", "true"), ("'0'", "0"), ("'null'", "null")])
    expect(h, pos, src, v, "constant")


# words that introduce something else at the start of a value or declaration
RESERVED = ["true", "false", "null", "for", "if", "existing", "resource", "in", "as", "from", "with", "import", "items", "sys", "az",
            "module", "var", "param", "output", "type", "func", "metadata", "targetScope", "extension"]


@harness("identifiers")
def identifiers(h):
    """Any identifier that is no reserved word is a reference with that name."""
    pos = positions(h, QUICK)
    name = h.sym(1, "identstart") + h.sym(h.choose(range(5 if h.thorough() else 3)), "ident")
    h.assume(name not in RESERVED)
    expect(h, pos, name, h.el(name), "identifier")


@harness("keyword_like")
def keyword_like(h):
    """A keyword with something before or after it is an ordinary identifier."""
    kw = h.choose("true", "false", "null", "existing", "resource", "for", "if", "in", "items", "listKeys", "getSecret", "sys", "az", "as")
    pos = positions(h, ["var", "item", "prop", "arg", "right", "config"])
    side = h.choose("after", "before")
    if side == "after":
        name = kw + h.sym(h.choose(1, 2), "ident")
    else:
        name = h.sym(1, "identstart") + h.sym(h.choose(0, 1), "ident") + kw
    expect(h, pos, name, h.el(name), "identifier")


@harness("case_variants")
def case_variants(h):
    """Keywords are case sensitive: another spelling is an identifier."""
    kw = h.choose("True", "TRUE", "False", "Null", "NULL", "nUll", "falsE")
    pos = positions(h, ["var", "item", "prop", "arg", "right", "config"])
    expect(h, pos, kw, h.el(kw), "identifier")


@harness("string_is_no_reference")
def string_is_no_reference(h):
    """A quoted word never becomes a reference, number, boolean or none."""
    pos = positions(h, QUICK)
    name = h.sym(h.choose(1, 2, 3), "ident")
    q = h.choose("'", "'''")
    expect(h, pos, q + name + q, name, "string")


@harness("names")
def names(h):
    """Words with unicode letters are identifiers too, and keep their spelling."""
    name = h.sym(1, "identstart") + h.sym(1, "any")
    r = h.parse("var x = " + name + "\n")
    h.assume(r.ok)
    v = r.value["variables"]["x"]["value"]
    c = name[1:]
    if c.isspace() or c == "\ufeff" or c == "#":
        return
    if c.isalnum() or c == "_":
        h.eq(v, h.el(name), "identifier")


@harness("mixed")
def mixed(h):
    """Neighbouring scalars keep their own type."""
    a, b = h.digits(h.choose(1, 2)), h.digits(h.choose(1, 2))
    n = h.sym(1, "identstart") + h.sym(1, "ident")
    h.assume(n not in RESERVED)
    expect(h, "var", "[" + a + ", '" + b + "', " + n + ", '" + n + "', true, null]", [int(a), b, h.el(n), n, True, None])


KEYWORDS = ["targetScope", "import", "extension", "metadata", "param", "var", "output", "resource", "module", "type", "func", "as", "in", "existing", "if", "with", "from", "items", "sys", "az", "getSecret", "listKeys", "list", "string", "int"]
PLACES = {
    "item": ("var x = [\n  1\n  ", "\n  2\n]\n", lambda v: doc(variables={"x": var([1, v, 2])})),
    "first": ("var x = [\n  ", "\n  2\n]\n", lambda v: doc(variables={"x": var([v, 2])})),
    "only": ("var x = [", "]\n", lambda v: doc(variables={"x": var([v])})),
    "twice": ("var x = [\n%\n", "\n]\n", lambda v: doc(variables={"x": var([v, v])})),
    "prop": ("var x = {\n  a: 1\n  %: ", "\n  c: 2\n}\n", None),
    "parent": ("resource p 'a@1' = {\n  a: %\n  %: ", "\n}\n", None),
    "child": ("resource p 'a@1' = {\n  resource c 'b' = {\n  a: %\n}\n  z: ", "\n}\n", None),
    "loop": ("var x = [for i in %: ", "]\n", None),
    "iterator": ("var x = [for % in ", ": 1]\n", None),
    "filter": ("var x = [for i in k: if (%) ", "]\n", None),
    "cond": ("resource p 'a@1' = if (", ") {\n  a: %\n}\n", None),
}


@harness("keywords_as_names")
def keywords_as_names(h):
    """A word that is a keyword elsewhere is an ordinary identifier where a value stands."""
    n = h.choose(KEYWORDS)
    v = h.el(n)
    k = h.choose(list(POSITIONS) + list(PLACES))
    if k in POSITIONS:
        expect(h, k, n, v, "keyword as a name")
        return
    a, b, d = PLACES[k]
    h.assume(not (k in ("iterator", "prop", "parent") and n == "existing" and False))
    if d is not None:
        want = d(v)
    elif k == "prop":
        want = doc(variables={"x": var({"a": 1, n: v, "c": 2})})
    elif k == "parent":
        want = doc(resources={"p": resource("a", "1", {"a": v, n: v})})
    elif k == "child":
        want = doc(resources={"p": resource("a", "1", {"z": v}), "p__c": resource("a/b", "1", {"a": v, "depends_on": [h.el("p")]})})
    elif k == "loop":
        want = doc(variables={"x": var(loop_array("i", v, v))})
    elif k == "iterator":
        want = doc(variables={"x": var(loop_array(n, v, 1))})
    elif k == "filter":
        want = doc(variables={"x": var(loop_array("i", h.el("k"), v, v))})
    else:
        want = doc(resources={"p": resource("a", "1", {"condition": v, "config": {"a": v}})})
    h.eq(h.good(h.parse(a.replace("%", n) + n + b.replace("%", n)), f"{n} at {k}"), want, "keyword as a name")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions are references; quoted they are strings."""
    w = h.choose(h.words())
    h.assume(w not in ("true", "false", "null"))
    pos = h.choose("var", "param", "prop", "arg", "config")
    expect(h, pos, w, h.el(w), "identifier")
    expect(h, pos, "'" + w + "'", w, "string")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Integers around the numbers the code mentions."""
    n = h.choose(h.sizes(0, 1101))
    expect(h, positions(h, QUICK), h.choose("", "0") + str(n), n, "integer")


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Names and strings as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    w = h.sym(1, "letter") + "q" * (n - 1)
    s = h.choose("", "'")
    expect(h, positions(h, QUICK), s + w + s, w if s else h.el(w), "name or string")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["name", "text"])


@harness("placed_texts")
def placed_texts(h):
    """Strings that read like a constant, an integer or a name the code mentions, inside every decorator, call and collection, stay strings; the bare forms stay what they are."""
    from props.c08 import WITH

    w = h.choose(["true", "false", "null", "0", "1", "-1", "k", ""] + [x for x in h.words() if x.isidentifier() and x not in ("true", "false", "null")])
    s = "'" + w + "'"
    coll, val = h.choose((s, w), ("[" + s + "]", [w]), ("{\n  a: " + s + "\n}", {"a": w}), ("[1, " + s + "]", [1, w]), ("{\n  a: {\n    b: [" + s + "]\n  }\n}", {"a": {"b": [w]}}))
    k = h.choose("deco", "resource", "default", "extension", "output")
    if k == "deco":
        d = h.choose(list(WITH))
        h.eq(h.good(h.parse("@" + d + "(" + coll + ")\nparam x string\n")), doc(parameters={"x": param("string", None, [{"type": WITH[d], "argument": val}])}), "in a decorator")
    elif k == "resource":
        h.eq(h.good(h.parse("resource x 'a/b@1' = {\n  p: " + coll + "\n}\n")), doc(resources={"x": resource("a/b", "1", {"p": val})}), "in a resource")
    elif k == "default":
        t = h.choose("bool", "int", "object", "array", "string")
        h.eq(h.good(h.parse("param x " + t + " = " + coll + "\n")), doc(parameters={"x": param(t, val)}), "default")
    elif k == "extension":
        h.eq(h.good(h.parse("extension x with {\n  p: " + coll + "\n}\n")), doc(extensions={"x": {"config": {"p": val}}}), "in a configuration")
    else:
        t = h.choose("bool", "int", "object", "array", "string")
        h.eq(h.good(h.parse("output x " + t + " = " + coll + "\n")), doc(outputs={"x": output(t, val)}), "output")
