from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "import lists of up to three entries (symbolic names of 1..3 characters, names that read like keywords, *), each with or without a symbolic alias, braced and bare, files of up to 4 "
             "symbolic characters, with escapes and interpolations; namespace imports of up to 5 symbolic characters; extensions with and without configuration "
             "(empty, uninterpreted, written-out values, nested) and alias; metadata of up to 5 symbolic characters and escapes; the four scopes at every "
             "place among up to three other declarations; pairs and triples of these statements, also with names in common across kinds; every one-character change of the connecting words",
    "thorough": "as quick with names of up to 6 and texts of up to 9 symbolic characters, lists of up to four entries",
}
ASSUMPTIONS = ["imports of one name (also *) from several files, and extensions of one name, share one entry of the documented format (known finding)",
               "import lists stand on one line (the grammar accepts no line break in them)"]

WORDS = ["from", "as", "with", "import", "extension", "metadata", "targetScope", "null", "true", "existing", "for", "in", "if", "sys", "az", "items"]


def nm(h):
    if h.choose(False, True):
        return h.choose(WORDS)
    return name(h, h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 6))


def text(h, big=4):
    """The body of a literal: (source, value) are the same text."""
    k = h.choose("plain", "escape", "inter")
    if k == "escape":
        c = h.sym(1, "line")
        h.assume(not (c in "\r\n"))
        return "a\\" + c + "b"
    if k == "inter":
        return "${" + name(h, 1) + "}" + h.choose("", "\\'", "${b}")
    s = ""
    for _ in range(h.choose(0, 1, big) if not h.thorough() else h.choose(0, 1, 5, 9)):
        c = h.sym(1, "line")
        h.assume(not (c in "'\\$"))
        s = s + c
    return s


def imp(path, alias=None):
    d = {"file_path": path}
    if alias is not None:
        d["alias"] = alias
    return d


def ext(config=None, alias=None):
    d = {}
    if config is not None:
        d["config"] = config
    if alias is not None:
        d["alias"] = alias
    return d


def entry(h, n):
    """(source, alias) of one imported name."""
    if h.choose(False, True):
        a = name(h, 1) if h.choose(False, True) else h.choose(WORDS[:4])
        return n + " as " + a, a
    return n, None


@harness("import_one")
def import_one(h):
    n = "*" if h.choose(False, True) else nm(h)
    src, a = entry(h, n)
    f = text(h)
    o, c = h.choose(("{ ", " }"), ("{", "}"), ("", ""))
    h.eq(h.good(h.parse("import " + o + src + c + " from '" + f + "'\n")), doc(imports={n: imp(f, a)}), "import")


@harness("import_list")
def import_list(h):
    k = h.choose(2, 3) if not h.thorough() else h.choose(2, 3, 4)
    names = [name(h, 1) for _ in range(k)]
    for i in range(k):
        for j in range(i):
            h.assume(names[i] != names[j])
    names = names[:-1] + h.choose([names[-1]], ["*"], ["from"], [names[-1] + "x"])
    es = [entry(h, n) for n in names]
    sep = h.choose(", ", ",", " , ")
    f = h.sym(1, "letter")
    h.eq(h.good(h.parse("import {" + sep.join(e[0] for e in es) + "} from '" + f + "'\n")),
         doc(imports={n: imp(f, e[1]) for n, e in zip(names, es)}), "import list")


@harness("import_alias_names")
def import_alias_names(h):
    """An alias may be the name of another entry, or its own."""
    a, b = name(h, 1), name(h, 1)
    h.assume(a != b)
    x, y = h.choose((a, a), (b, a), (b, b), (a, b), (b, None), (None, a))
    src = ", ".join(n + (" as " + z if z is not None else "") for n, z in ((a, x), (b, y)))
    h.eq(h.good(h.parse("import { " + src + " } from 'f'\n")), doc(imports={a: imp("f", x), b: imp("f", y)}), "import list")


@harness("import_two")
def import_two(h):
    """Names of several import statements keep their own files."""
    a, b, c = name(h, 1), name(h, 1), name(h, 1)
    h.assume(a != b and b != c and a != c)
    f, g = text(h, 1), h.sym(1, "letter")
    ea, eb, ec = entry(h, a), entry(h, b), entry(h, c)
    mid = h.choose("", "\n", "var v = 1\n", "// c\n")
    t = "import {" + ea[0] + ", " + eb[0] + "} from '" + f + "'\n" + mid + "import " + ec[0] + " from '" + g + "'\n"
    d = doc(imports={a: imp(f, ea[1]), b: imp(f, eb[1]), c: imp(g, ec[1])})
    if mid[:1] == "v":
        d["variables"] = {"v": var(1)}
    h.eq(h.good(h.parse(t)), d, "two imports")


@harness("import_same_name")
def import_same_name(h):
    """Imports of one name from two files, or under two aliases."""
    n = h.choose("*", name(h, 1))
    x, y = name(h, 1), name(h, 2)
    f, g = h.choose(("f", "g"), ("f", "f"), ("g", "f"))
    r = h.good(h.parse("import {" + n + " as " + x + "} from '" + f + "'\nimport {" + n + " as " + y + "} from '" + g + "'\n"))
    # the documented format has one entry per name; the statements are reported if their files and aliases are
    seen = [v["alias"] for v in r["imports"].values()] if h.exact_type(r.get("imports")) is dict else []
    h.eq(seen, [x, y], "every import", known="wildcard-imports" if n == "*" else "same-name-imports", wrong=[y])
    h.eq(r, doc(imports={n: imp(g, y)}), "the last import")


@harness("extension_same_name")
def extension_same_name(h):
    n, x, y = name(h, 1), name(h, 1), name(h, 2)
    r = h.good(h.parse("extension " + n + " as " + x + "\nextension " + n + " as " + y + "\n"))
    seen = [v["alias"] for v in r["extensions"].values()]
    h.eq(seen, [x, y], "every extension", known="same-name-extensions", wrong=[y])
    h.eq(r, doc(extensions={n: ext(None, y)}), "the last extension")


@harness("namespace")
def namespace(h):
    f = text(h)
    h.eq(h.good(h.parse("import '" + f + "'" + h.choose("\n", "", " // c\n", " # c\n"))), doc(imports={f: {}}), "namespace import")


@harness("namespace_two")
def namespace_two(h):
    a, b, c = text(h, 2), h.sym(2, "letter"), name(h, 2)
    h.assume(a != b and a != c and b != c)
    ec = entry(h, c)
    order = h.choose(0, 1, 2)
    st = ["import '" + a + "'\n", "import '" + b + "'\n"]
    st.insert(order, "import " + ec[0] + " from '" + b + "'\n")
    h.eq(h.good(h.parse("".join(st))), doc(imports={a: {}, b: {}, c: imp(b, ec[1])}), "namespace imports")


@harness("extension_shapes")
def extension_shapes(h):
    n = nm(h)
    a = None if h.choose(False, True) else (name(h, 1) if h.choose(False, True) else h.choose(WORDS[:4]))
    k = h.choose("none", "empty", "one", "two", "nested", "words")
    o = h.opaque() if k in ("one", "two", "nested") else None
    os, ov = (o.src, o.val) if k in ("one", "two", "nested") else ("", 0)
    key = name(h, 1)
    src, val = {
        "none": ("", None), "empty": ("{}", {}), "one": ("{\n  " + key + ": " + (os) + "\n}", {key: ov}),
        "two": ("{ " + key + ": " + (os) + ", zz: 0 }", {key: ov, "zz": 0}),
        "nested": ("{\n " + key + ": {\n b: [" + (os) + "]\n}\n}", {key: {"b": [ov]}}),
        "words": ("{\n as: 1\n with: as\n extension: 'as'\n}", {"as": 1, "with": h.el("as"), "extension": "as"}),
    }[k]
    t = "extension " + n + (" with " + src if src else "") + (" as " + a if a is not None else "")
    h.eq(h.good(h.parse(t + h.choose("\n", "", " // c\n"))), doc(extensions={n: ext(val, a)}), "extension")


@harness("extension_values")
def extension_values(h):
    """Every written-out value shape as a configuration value."""
    s = h.shape()
    a = h.choose(None, "b")
    h.eq(h.good(h.parse("extension k with {\n  v: " + s.src + "\n  w: 1\n}" + (" as " + a if a else "") + "\n")), doc(extensions={"k": ext({"v": s.val, "w": 1}, a)}), "extension")


@harness("extension_two")
def extension_two(h):
    a, b = name(h, 1), name(h, 1)
    h.assume(a != b)
    ca, cb = h.choose(None, "{}", "{ a: 1 }"), h.choose(None, "{}", "{ b: 1 }")
    xa, xb = h.choose(None, b), h.choose(None, a)
    st = lambda n, c, x: "extension " + n + (" with " + c if c else "") + (" as " + x if x is not None else "") + "\n"
    V = {None: None, "{}": {}, "{ a: 1 }": {"a": 1}, "{ b: 1 }": {"b": 1}}
    h.eq(h.good(h.parse(st(a, ca, xa) + h.choose("", "\n", "// c\n") + st(b, cb, xb))), doc(extensions={a: ext(V[ca], xa), b: ext(V[cb], xb)}), "extensions")


@harness("metadata_values")
def metadata_values(h):
    n = nm(h)
    v = text(h)
    h.eq(h.good(h.parse("metadata " + n + " = '" + v + "'" + h.choose("\n", "", " // c\n", "\n\n"))), doc(metadata={n: {"value": v}}), "metadata")


@harness("metadata_two")
def metadata_two(h):
    a, b = name(h, 1), name(h, 1)
    h.assume(a != b)
    v, w = text(h, 2), text(h, 2)
    h.eq(h.good(h.parse("metadata " + a + " = '" + v + "'\nmetadata " + b + " = '" + w + "'\n")), doc(metadata={a: {"value": v}, b: {"value": w}}), "metadata")


SCOPES = ["resourceGroup", "subscription", "managementGroup", "tenant"]
OTHERS = {
    "": {}, "var a = 1\n": {"variables": {"a": var(1)}}, "param targetScope string = 'tenant'\n": {"parameters": {"targetScope": param("string", "tenant")}},
    "metadata scope = 'tenant'\n": {"metadata": {"scope": {"value": "tenant"}}}, "import 'tenant'\n": {"imports": {"tenant": {}}}, "extension targetScope\n": {"extensions": {"targetScope": {}}},
    "// targetScope = 'tenant'\n": {}, "var globals = { scope: 'tenant' }\n": {"variables": {"globals": var({"scope": "tenant"})}},
    "module scope './m' = {\n  scope: 'tenant'\n}\n": {"modules": {"scope": local_module("./m", {"scope": "tenant"})}},
    "resource p 'a@1' = {\n  scope: tenant\n}\n": None,
}


def other(h, keys):
    k = h.choose(keys)
    if k[:8] == "resource":
        return k, {"resources": {"p": resource("a", "1", {"scope": h.el("tenant")})}}
    return k, OTHERS[k]


@harness("scope")
def scope(h):
    """The written target scope, wherever the statement stands; resourceGroup without one."""
    s = h.choose([None] + SCOPES)
    a, da = other(h, list(OTHERS))
    b, db = other(h, list(OTHERS))
    h.assume(not da or a != b)
    st = "" if s is None else "targetScope = '" + s + "'\n"
    t = h.choose(st + a + b, a + st + b, a + b + st)
    d = doc(s or "resourceGroup")
    for x in (da, db):
        for k, v in x.items():
            d.setdefault(k, {}).update(v)
    h.eq(h.good(h.parse(t)), d, "target scope")


@harness("scope_spacing")
def scope_spacing(h):
    s = h.choose(SCOPES)
    a, b = h.choose("", " ", "\t", " /* x */ "), h.choose("", " ", "\t", " /* x */ ")
    h.eq(h.good(h.parse("targetScope" + a + "=" + b + "'" + s + "'" + h.choose("\n", "", " // c", "\n\n"))), doc(s), "target scope")


@harness("mixed")
def mixed(h):
    """One name used by a metadata entry, an extension, an import, a namespace import and a declaration."""
    n, m = name(h, 1), name(h, 1)
    v = h.sym(1, "letter")
    st = {
        "metadata": ("metadata " + n + " = '" + v + "'\n", {n: {"value": v}}),
        "extensions": ("extension " + n + " as " + m + "\n", {n: ext(None, m)}),
        "imports": ("import {" + n + " as " + m + "} from '" + v + "'\n", {n: imp(v, m)}),
        "variables": ("var " + n + " = '" + v + "'\n", {n: var(v)}),
        "parameters": ("param " + n + " " + m + "\n", {n: param(m)}),
    }
    x, y = h.choose(list(st)), h.choose(list(st))
    h.assume(x != y)
    z = h.choose("", "targetScope = 'subscription'\n")
    h.eq(h.good(h.parse(st[x][0] + z + st[y][0])), doc("subscription" if z else "resourceGroup", **{x: st[x][1], y: st[y][1]}), "statements of several kinds")


@harness("namespace_and_name")
def namespace_and_name(h):
    """A namespace import beside statements that use its text."""
    n = name(h, 2)
    a, d = h.choose(("metadata a = '" + n + "'\n", {"metadata": {"a": {"value": n}}}), ("extension " + n + "\n", {"extensions": {n: {}}}), ("import a from '" + n + "'\n", None), ("var " + n + " = '" + n + "'\n", {"variables": {n: var(n)}}))
    d = doc(**(d or {}))
    d.setdefault("imports", {})[n] = {}
    if a[:6] == "import":
        h.assume(n != "a")
        d["imports"]["a"] = imp(n)
    t = h.choose(a + "import '" + n + "'\n", "import '" + n + "'\n" + a)
    h.eq(h.good(h.parse(t)), d, "namespace import")


@harness("other_words")
def other_words(h):
    """Any other word in place of a connecting word is rejected."""
    w = name(h, h.choose(1, 2, 4, 5))
    t, k = h.choose(("import { a } % 'f'\n", "from"), ("import { a % b } from 'f'\n", "as"), ("import a % b from 'f'\n", "as"), ("import * % b from 'f'\n", "as"), ("extension a % {}\n", "with"), ("extension a % b\n", "as"),
                    ("extension a with {} % b\n", "as"), ("import { a, b % } from 'f'\n", ""), ("import a % from 'f'\n", ""), ("metadata a % = 'm'\n", ""), ("metadata a = 'm' %\n", ""), ("import a from 'f' %\n", ""), ("import 'f' %\n", ""),
                    ("extension a with {} %\n", ""), ("targetScope = 'tenant' %\n", ""))
    if k:
        h.assume(w != k)
    h.bad(h.parse(t.partition("%")[0] + w + t.partition("%")[2]), "another word")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names and texts the code itself mentions."""
    w = h.choose(h.words())
    k = h.choose("name", "alias", "file", "list", "list2", "ns", "ext", "ext_alias", "ext_key", "ext_value", "meta", "meta_value")
    t, d = {
        "name": lambda: ("import " + w + " from 'f'\n", doc(imports={w: imp("f")})),
        "alias": lambda: ("import a as " + w + " from 'f'\n", doc(imports={"a": imp("f", w)})),
        "file": lambda: ("import a from '" + w + "'\n", doc(imports={"a": imp(w)})),
        "list": lambda: ("import { " + w + ", a_ as " + w + " } from 'f'\n", doc(imports={w: imp("f"), "a_": imp("f", w)})),
        "list2": lambda: ("import { a_, " + w + " as " + w + " } from 'f'\n", doc(imports={"a_": imp("f"), w: imp("f", w)})),
        "ns": lambda: ("import '" + w + "'\n", doc(imports={w: {}})),
        "ext": lambda: ("extension " + w + " with {}\n", doc(extensions={w: ext({})})),
        "ext_alias": lambda: ("extension e as " + w + "\n", doc(extensions={"e": ext(None, w)})),
        "ext_key": lambda: ("extension e with {\n  " + w + ": 1\n} as " + w + "\n", doc(extensions={"e": ext({w: 1}, w)})),
        "ext_value": lambda: ("extension " + w + " with {\n  v: '" + w + "'\n} as " + w + "\n", doc(extensions={w: ext({"v": w}, w)})),
        "meta": lambda: ("metadata " + w + " = 'm'\n", doc(metadata={w: {"value": "m"}})),
        "meta_value": lambda: ("metadata a = '" + w + "'\n", doc(metadata={"a": {"value": w}})),
    }[k]()
    h.eq(h.good(h.parse(t)), d, "statement")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of imported names and statements, and lengths, around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 260))
    c = h.sym(1, "letter")
    k = h.choose("list", "aliases", "statements", "text", "extensions", "metadata", "namespaces", "names")
    ns = ["n" + str(i) for i in range(n)]
    t, d = {
        "list": lambda: ("import { " + ", ".join(ns) + " } from 'f'\n", doc(imports={x: imp("f") for x in ns})),
        "aliases": lambda: ("import { " + ", ".join(x + " as " + x + c for x in ns) + " } from 'f'\n", doc(imports={x: imp("f", x + c) for x in ns})),
        "statements": lambda: ("".join("import " + x + " from '" + x + c + "'\n" for x in ns), doc(imports={x: imp(x + c) for x in ns})),
        "text": lambda: ("import a from '" + c * n + "'\nmetadata m = '" + c * n + "'\n", doc(imports={"a": imp(c * n)}, metadata={"m": {"value": c * n}})),
        "extensions": lambda: ("".join("extension " + x + " with {} as " + x + c + "\n" for x in ns), doc(extensions={x: ext({}, x + c) for x in ns})),
        "metadata": lambda: ("".join("metadata " + x + " = '" + c + "'\n" for x in ns), doc(metadata={x: {"value": c} for x in ns})),
        "names": lambda: ("import " + c + "q" * n + " as " + c + "r" * n + " from 'f'\nmetadata " + c + "q" * n + " = 'g'\nextension " + c + "q" * n + " with {} as " + c + "s" * n + "\n",
                          doc(imports={c + "q" * n: imp("f", c + "r" * n)}, metadata={c + "q" * n: {"value": "g"}}, extensions={c + "q" * n: ext({}, c + "s" * n)})),
        "namespaces": lambda: ("".join("import '" + x + "'\n" for x in ns), doc(imports={x: {} for x in ns})),
    }[k]()
    h.eq(h.good(h.parse(t)), d, "statements")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["import_file", "import_alias", "metadata", "extension"])
