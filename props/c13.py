from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every type string of 0..5 symbolic characters, and every pair of a 1..3 character type and a 0..2 character version between longer fixed "
             "texts; with and without existing, decorators, and every form of body; every one-character replacement and insertion in a well formed type string; types and versions of nested resources that resemble one another",
    "thorough": "as quick with type strings of up to 9 symbolic characters and two inserted characters",
}
ASSUMPTIONS = ["a type string contains no quote, backslash, $ or line break (C01 covers the string literal itself)"]


def anychar(h):
    c = h.sym(1, "line")
    h.assume(c not in "'\\$")
    return c


def text(h, n):
    s = ""
    for _ in range(n):
        s = s + anychar(h)
    return s


def check(h, t, existing=False, body=("{}", {}), deco=""):
    n = 0
    for c in t:
        if c == "@":
            n += 1
    r = h.parse(deco + "resource r '" + t + "'" + (" existing" if existing else "") + " = " + body[0] + "\n")
    if n != 1:
        h.bad(r, "a type string without exactly one @")
        return
    i = 0
    while t[i] != "@":
        i += 1
    h.eq(h.good(r, "resource"), doc(resources={"r": resource(t[:i], t[i + 1:], body[1], existing, [{"type": "foo", "argument": 1}] if deco else None)}),
         "type, version and existing flag")


@harness("any_text")
def any_text(h):
    """Every short type string: split at its only @, or rejected."""
    n = h.choose(0, 1, 2, 3, 4, 5) if not h.thorough() else h.choose(0, 1, 2, 3, 4, 5, 7, 9)
    check(h, text(h, n), h.choose(False, True))


@harness("well_formed")
def well_formed(h):
    a, b = text(h, h.choose(1, 2, 3)), text(h, h.choose(0, 1, 2))
    h.assume("@" not in a and "@" not in b)
    check(h, h.choose("", "Microsoft.X/y") + a + "@" + h.choose("", "2020-01-01") + b, h.choose(False, True))


BASES = ["Microsoft.Storage/storageAccounts@2019-06-01", "a/b/c@1-preview", "x@y"]


@harness("replaced")
def replaced(h):
    b = h.choose(BASES)
    i = h.choose(range(len(b)))
    check(h, b[:i] + anychar(h) + b[i + 1:])


@harness("inserted")
def inserted(h):
    b = h.choose(BASES)
    i = h.choose(range(len(b) + 1))
    check(h, b[:i] + anychar(h) + (anychar(h) if h.thorough() else "") + b[i:])


@harness("cut")
def cut(h):
    """Every truncation, and every doubled part."""
    b = h.choose(BASES)
    i = h.choose(range(len(b) + 1))
    check(h, h.choose(b[:i], b[i:], b[:i] + b), h.choose(False, True))


BODIES = [
    ("{}", lambda h: {}), ("{\n  existing: 1\n}", lambda h: {"existing": 1}), ("if (existing) {}", lambda h: {"condition": h.el("existing"), "config": {}}),
    ("[for existing in k: {}]", lambda h: loop_array("existing", h.el("k"), {})), ("{\n  a: '@'\n}", lambda h: {"a": "@"}),
    ("{\n  a: existing\n}", lambda h: {"a": h.el("existing")}),
]


@harness("existing_flag")
def existing_flag(h):
    """true exactly when the keyword is written, whatever the body and the decorators are."""
    src, val = h.choose(BODIES)
    e = h.choose(False, True)
    check(h, "a/b@" + text(h, 1), e, (src, val(h)), h.choose("", "@foo(1)\n"))


@harness("keyword_like")
def keyword_like(h):
    """Neither a name nor a type that reads existing sets the flag; anything but the keyword in its place is rejected."""
    e = h.choose(False, True)
    nm = h.choose("existing", "existing_", "Existing")
    t = h.choose("existing@1", "a@existing", "existing/b@1")
    a, v = t.split("@")
    h.eq(h.good(h.parse("resource " + nm + " '" + t + "'" + (" existing" if e else "") + " = {}\n")), doc(resources={nm: resource(a, v, {}, e)}))


@harness("not_the_keyword")
def not_the_keyword(h):
    w = name(h, h.choose(1, 2, 8)) if h.choose(True, False) else h.choose("existin", "existingg", "Existing", "existing existing", "_existing")
    h.assume(w != "existing")
    h.bad(h.parse("resource r 'a/b@1' " + w + " = {}\n"), "another word in place of existing")


@harness("two_resources")
def two_resources(h):
    """Types, versions and flags of several resources do not mix."""
    e1, e2 = h.choose(False, True), h.choose(False, True)
    a, b, c, d = text(h, 1), text(h, 1), text(h, 1), text(h, 1)
    h.assume(a != "@" and b != "@" and c != "@" and d != "@")
    h.eq(h.good(h.parse("resource r '" + a + "@" + b + "'" + (" existing" if e1 else "") + " = {}\nresource s '" + c + "@" + d + "'"
                        + (" existing" if e2 else "") + " = {}\n")),
         doc(resources={"r": resource(a, b, {}, e1), "s": resource(c, d, {}, e2)}), "two resources")


@harness("nested")
def nested(h):
    """The flag of a nested resource is its own."""
    e1, e2, e3 = h.choose(False, True), h.choose(False, True), h.choose(False, True)
    ex = lambda e: " existing" if e else ""
    a, b = text(h, 1), text(h, 1)
    h.assume(a != "@" and b != "@")
    h.eq(h.good(h.parse("resource r '" + a + "@" + b + "'" + ex(e1) + " = {\nresource s 'c'" + ex(e2) + " = {\nresource t 'd'" + ex(e3) + " = {\n}\n}\n}\n")),
         doc(resources={"r": resource(a, b, {}, e1), "r__s": resource(a + "/c", b, {"depends_on": [h.el("r")]}, e2),
                        "r__s__t": resource(a + "/c/d", b, {"depends_on": [h.el("r__s")]}, e3)}), "nested resources")


@harness("nested_types")
def nested_types(h):
    """A nested resource's type string: split at its only @, the parent's version without one, or rejected."""
    t = text(h, h.choose(0, 1, 2, 3) if not h.thorough() else h.choose(0, 1, 2, 3, 4, 5))
    pre, post = h.choose(("", ""), ("d", ""), ("", "d"), ("d/e@", "2"))
    t = pre + t + post
    e = h.choose(False, True)
    n = 0
    for c in t:
        if c == "@":
            n += 1
    r = h.parse("resource r 'a/b@1' = {\n  resource s '" + t + "'" + (" existing" if e else "") + " = {\n  }\n}\n")
    if n > 1:
        h.bad(r, "a nested type string with more than one @")
        return
    i = 0
    while i < len(t) and t[i] != "@":
        i += 1
    h.eq(h.good(r, "nested resource"), doc(resources={"r": resource("a/b", "1", {}), "r__s": resource("a/b/" + t[:i], t[i + 1:] if n else "1", {"depends_on": [h.el("r")]}, e)}),
         "type, version and existing flag of a nested resource")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Texts the code itself mentions as type and version."""
    w = h.choose(h.words())
    check(h, h.choose(w + "@1", "a/" + w + "@1", w + "/b@" + w, "a/b@" + w), h.choose(False, True))


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Lengths around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1100))
    c = h.sym(1, "alnum")
    check(h, h.choose(c * n + "@1", "a/b@" + c * n, (c + "/") * n + "b@1", "a/b@" + (c + "-") * n), h.choose(False, True))


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["resource_type", "api_version"])


@harness("related_versions")
def related_versions(h):
    """Types and versions of a resource, the one nested in it and the one in that which resemble one another."""
    v = text(h, 1)
    h.assume(v != "@")
    forms = [v, v + "-preview", "2020-01-01", "2020-01-01-preview", "2020-01-01-" + v, v + v, v + "/c", ""]
    a, b, c = h.choose(v, "2020-01-01", "2020-01-01-preview"), h.choose(None, *forms), h.choose(None, *forms)
    t = h.choose(("a/b", "c", "d"), ("c", "c", "c"), ("a/b", "a/b", "b"), ("a/b", "a/b/c", "a/b/c/d"))
    at = lambda x: "" if x is None else "@" + x
    vb = a if b is None else b
    vc = vb if c is None else c
    h.eq(h.good(h.parse("resource r '" + t[0] + "@" + a + "' = {\nresource s '" + t[1] + at(b) + "' = {\nresource t '" + t[2] + at(c) + "' = {\n}\n}\n}\n")),
         doc(resources={"r": resource(t[0], a, {}), "r__s": resource(t[0] + "/" + t[1], vb, {"depends_on": [h.el("r")]}),
                        "r__s__t": resource(t[0] + "/" + t[1] + "/" + t[2], vc, {"depends_on": [h.el("r__s")]})}), "types and versions")
