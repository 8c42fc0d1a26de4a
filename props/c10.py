from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every ordered choice of two declarations of 11 kinds in all their forms and of three kinds in their main form, uninterpreted values, symbolic "
             "names of 1 character and names the library itself uses; the same name in two sections; every section alone; files of comments only; every ordered pair of a declaration and one that mentions it (40 forms), references to nested resources",
    "thorough": "as quick with three declarations in all forms, four declarations of the main forms and symbolic names of 2 characters",
}
ASSUMPTIONS = ["two declarations of the same kind have different names (anything else is not Bicep)"]

# kind -> list of forms; a form is f(h, name) -> (source, section, name in the result, attributes)


def _param(h, n):
    return "param " + n + " string\n", "parameters", n, param("string", None)


def _param_default(h, n):
    a = h.opaque()
    return "param " + n + " int = " + a.src + "\n", "parameters", n, param("int", a.val)


def _param_decorated(h, n):
    a = h.opaque()
    return "@description(" + a.src + ")\n@secure()\nparam " + n + " t[]\n", "parameters", n, param(
        {"type": "array", "item_type": "t"}, None, [{"type": "description", "argument": a.val}, {"type": "secure"}])


def _var(h, n):
    a = h.opaque()
    return "var " + n + " = " + a.src + "\n", "variables", n, var(a.val)


def _var_typed(h, n):
    a = h.opaque()
    return "var " + n + " bool = " + a.src + "\n", "variables", n, var(a.val, type="bool")


def _output(h, n):
    a = h.opaque()
    return "output " + n + " string = " + a.src + "\n", "outputs", n, output("string", a.val)


def _resource(h, n):
    a = h.opaque()
    return "resource " + n + " 'a/b@1' = {\n  p: " + a.src + "\n}\n", "resources", n, resource("a/b", "1", {"p": a.val})


def _resource_existing(h, n):
    return "resource " + n + " 'c/d@2' existing = {}\n", "resources", n, resource("c/d", "2", {}, True)


def _module(h, n):
    a = h.opaque()
    return "module " + n + " './m.bicep' = {\n  p: " + a.src + "\n}\n", "modules", n, local_module("./m.bicep", {"p": a.val})


def _type(h, n):
    a = h.opaque()
    return "type " + n + " = " + a.src + "\n", "types", n, ctype(a.val)


def _func(h, n):
    a = h.opaque()
    return "func " + n + "(p int) bool => " + a.src + "\n", "functions", n, func({"p": "int"}, "bool", a.val)


def _func_noargs(h, n):
    return "@foo(1)\nfunc " + n + "() bool => true\n", "functions", n, func({}, "bool", True, [{"type": "foo", "argument": 1}])


def _metadata(h, n):
    return "metadata " + n + " = 'm'\n", "metadata", n, {"value": "m"}


def _import(h, n):
    return "import " + n + " from 'f'\n", "imports", n, {"file_path": "f"}


def _import_ns(h, n):
    return "import '" + n + "'\n", "imports", n, {}


def _extension(h, n):
    return "extension " + n + "\n", "extensions", n, {}


def _extension_config(h, n):
    a = h.opaque()
    return "extension " + n + " with {\n  p: " + a.src + "\n}\n", "extensions", n, {"config": {"p": a.val}}


def _scope(h, n):
    return "targetScope = 'tenant'\n", "globals", "scope", {"value": "tenant"}


KINDS = {
    "param": [_param_default, _param, _param_decorated], "var": [_var, _var_typed], "output": [_output],
    "resource": [_resource, _resource_existing], "module": [_module], "type": [_type], "func": [_func, _func_noargs],
    "metadata": [_metadata], "import": [_import, _import_ns], "extension": [_extension, _extension_config], "scope": [_scope],
}
FORMS = [f for fs in KINDS.values() for f in fs]
MAIN = [fs[0] for fs in KINDS.values()]


def build(h, decls):
    """decls: (form, name). Parses the file and compares with the union of what each declares."""
    text, want = "", doc()
    for f, n in decls:
        src, section, key, attrs = f(h, n)
        s = want.setdefault(section, {})
        if section != "globals":
            h.assume(key not in s)
        elif text.count("targetScope"):
            h.assume(False)
        s[key] = attrs
        text = text + src
    h.eq(h.good(h.parse(text), "the file"), want, "every declaration once")


@harness("one")
def one(h):
    """A single declaration, with names that the result or the library uses itself."""
    f = h.choose(FORMS)
    n = h.choose("globals", "parameters", "resources", "imports", "scope", "value", "decorators", "__name__", "__attrs__", "__child_resource__",
                 "__start_line__", "string", "for_", "x", "_", "A1", "param", "resource", "module", "import", "extension", "metadata", "targetScope",
                 "if", "for", "in", "items", "existing", "as", "with", "from", "func", "type", "output", "var", "nullable", "trueish")
    build(h, [(f, n)])


def names(h, k):
    return [name(h, 2 if h.thorough() and k < 3 else 1) for _ in range(k)]


@harness("two")
def two(h):
    fs = [h.choose(FORMS) for _ in range(2)]
    build(h, list(zip(fs, names(h, 2))))


@harness("three")
def three(h):
    fs = [h.choose(FORMS if h.thorough() else MAIN) for _ in range(3)]
    build(h, list(zip(fs, names(h, 3))))


@harness("four", thorough_only=True)
def four(h):
    fs = [h.choose(MAIN) for _ in range(4)]
    build(h, list(zip(fs, names(h, 4))))


@harness("same_name")
def same_name(h):
    """Declarations of different kinds that share a name keep apart; the text of one never shows up in the other."""
    i = h.choose(range(len(MAIN)))
    j = h.choose([x for x in range(len(MAIN)) if x != i])
    n = name(h, h.choose(1, 2))
    build(h, [(MAIN[i], n), (MAIN[j], n)])


@harness("similar_names")
def similar_names(h):
    """Names that share a prefix, or differ in case only, are different names."""
    f = h.choose([x for x in FORMS if x is not _scope])
    g = h.choose([x for x in KINDS[[k for k in KINDS if f in KINDS[k]][0]]])
    n = name(h, 1)
    c = h.sym(1, "ident")
    build(h, [(f, n + c), (g, n)] if h.choose(True, False) else [(f, n + c), (g, n + h.sym(1, "ident"))])


@harness("related_names")
def related_names(h):
    """Names that contain one another, before or after an underscore, a digit or nothing, in one kind or in two, are unrelated."""
    f, g = h.choose(FORMS), h.choose(FORMS)
    n = name(h, 1)
    r = h.choose(n + "__b", n + "_b", "b_" + n, "b__" + n, n + n, n + "1", "_" + n, n + "_", "__" + n, n + "__", n + "s", n + "x" + n)
    build(h, [(f, n), (g, r)] if h.choose(True, False) else [(g, r), (f, n)])


@harness("separators")
def separators(h):
    """Declarations are told apart whatever stands between them."""
    f, g = h.choose(MAIN), h.choose(MAIN)
    h.assume(not (f is _scope and g is _scope))
    a, b = f(h, "x1"), g(h, "x2")
    sep = h.choose("\n", "\n\n\n", "// c\n", "\n// c\n\n", "  \n\t\n", "/* c */\n", "\r\n\r\n")
    want = doc()
    for _, section, key, attrs in (a, b):
        want.setdefault(section, {})[key] = attrs
    h.eq(h.good(h.parse(sep + a[0] + sep + b[0]), "the file"), want, "both declarations")


@harness("nothing_declared")
def nothing(h):
    t = h.choose("", "\n", "\n\n", "// c", "// c\n", "\r\n", " ", "\t\n", "/* c */", "# c\n")
    h.eq(h.good(h.parse(t), "no declaration"), doc(), "no section but the scope")


@harness("many_of_a_kind")
def many(h):
    """Up to five declarations of one kind, in an order unrelated to their names."""
    f = h.choose([x for x in MAIN if x is not _scope])
    build(h, [(f, n) for n in ["b", "a", name(h, 1), "c", "aa"][: h.choose(2, 3, 4, 5)]])


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions for every kind of declaration."""
    f = h.choose(FORMS)
    w = h.choose(h.words())
    build(h, [(f, w), (h.choose(_var, _metadata), "other_")])


@harness("texts_in_the_code")
def texts_in_the_code(h):
    """Texts the code itself mentions as values."""
    w = h.choose(h.words())
    k = h.choose("var", "param", "resource", "module", "output", "type", "deco")
    s = "'" + w + "'"
    text, section, attrs = {
        "var": lambda: ("var x = " + s, "variables", var(w)),
        "param": lambda: ("param x string = " + s, "parameters", param("string", w)),
        "output": lambda: ("output x string = " + s, "outputs", output("string", w)),
        "type": lambda: ("type x = " + s, "types", ctype(w)),
        "resource": lambda: ("resource x 'a/b@1' = {\n  p: " + s + "\n}", "resources", resource("a/b", "1", {"p": w})),
        "module": lambda: ("module x './m' = {\n  p: " + s + "\n}", "modules", local_module("./m", {"p": w})),
        "deco": lambda: ("@foo(" + s + ")\nvar x = 1", "variables", var(1, [{"type": "foo", "argument": w}])),
    }[k]()
    want = doc(**{section: {"x": attrs}})
    want.setdefault("variables", {})["y_"] = var(2)
    h.eq(h.good(h.parse(text + "\nvar y_ = 2\n")), want, "both declarations")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of declarations around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    f = h.choose([x for x in MAIN if x is not _scope])
    g = h.choose(_var, _import, _metadata)
    build(h, [(f, "n" + str(i)) for i in range(n)] + [(g, "m_")])


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Declared names as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    fs = [x for x in MAIN if x is not _scope]
    f, g = h.choose(fs), h.choose(_var, _import, _metadata)
    w = "q" * n
    build(h, [(f, w + h.sym(1, "letter")), (g, w + "_"), (f, w[1:] + "_")])


@harness("related_texts")
def related_texts(h):
    """Two declarations with names or texts, wherever they stand, that are easily taken for one."""
    a, b = spots.related(h)
    f = h.choose(list(spots.SPOTS))
    g = h.choose(f, "name", "text") if h.thorough() else f
    f, g = spots.SPOTS[f], spots.SPOTS[g]
    build(h, [(lambda h, n: f(h, a, n), "zz1"), (lambda h, n: g(h, b, n), "zz2")])


@harness("alike_values")
def alike_values(h):
    """Two values, wherever they stand, that Python takes for equal."""
    from props.c26 import ALL

    (s, v), (t, w) = spots.alike(h)
    ctx = h.choose([c for c, (x, y, d) in ALL.items() if x.startswith("var x ") and c != "typed"])
    x, y, d = ALL[ctx]
    build(h, [(lambda h, n: (x.replace("var x", "var " + n, 1) + s + y, "variables", n, d(h, v(h))["variables"]["x"]), "zz1"),
              (lambda h, n: (x.replace("var x", "var " + n, 1) + t + y, "variables", n, d(h, w(h))["variables"]["x"]), "zz2")])


@harness("alike_parts")
def alike_parts(h):
    """Two declarations with types or decorators that are easily taken for one."""
    f, g = spots.alike_parts(h)
    build(h, [(f, "zz1"), (g, "zz2")])


# a declaration of @ and another that mentions @: (source, section, attributes)
FIRST = [
    lambda h, n: ("type " + n + " = int\n", "types", ctype(h.el("int"))), lambda h, n: ("type " + n + " = 'a' | 'b'\n", "types", ctype("a | b")), lambda h, n: ("type " + n + " = 'a'\n", "types", ctype("a")),
    lambda h, n: ("type " + n + " = {\n  a: int\n}\n", "types", ctype({"a": h.el("int")})), lambda h, n: ("type " + n + " = [\n  int\n]\n", "types", ctype([h.el("int")])), lambda h, n: ("type " + n + " = 1\n", "types", ctype(1)),
    lambda h, n: ("var " + n + " = 1\n", "variables", var(1)), lambda h, n: ("var " + n + " = k\n", "variables", var(h.el("k"))), lambda h, n: ("var " + n + " = 'a'\n", "variables", var("a")), lambda h, n: ("var " + n + " = [1]\n", "variables", var([1])),
    lambda h, n: ("var " + n + " = {\n  a: 1\n}\n", "variables", var({"a": 1})), lambda h, n: ("param " + n + " int = 1\n", "parameters", param("int", 1)), lambda h, n: ("param " + n + " string\n", "parameters", param("string")),
    lambda h, n: ("@secure()\nparam " + n + " string = ''\n", "parameters", param("string", "", [{"type": "secure"}])), lambda h, n: ("func " + n + "(p int) int => p\n", "functions", func({"p": "int"}, "int", h.el("p"))),
    lambda h, n: ("func " + n + "() t[] => []\n", "functions", func({}, {"type": "array", "item_type": "t"}, [])), lambda h, n: ("resource " + n + " 'a/b@1' = {\n  name: 'n'\n}\n", "resources", resource("a/b", "1", {"name": "n"})),
    lambda h, n: ("resource " + n + " 'a/b@1' existing = {\n  name: 'n'\n}\n", "resources", resource("a/b", "1", {"name": "n"}, True)), lambda h, n: ("module " + n + " './m' = {\n  name: 'n'\n}\n", "modules", local_module("./m", {"name": "n"})),
    lambda h, n: ("import " + n + " from 'f'\n", "imports", {"file_path": "f"}), lambda h, n: ("extension " + n + "\n", "extensions", {}), lambda h, n: ("metadata " + n + " = 'm'\n", "metadata", {"value": "m"}), lambda h, n: ("output " + n + " int = 1\n", "outputs", output("int", 1)),
]
SECOND = [
    lambda h, n: ("param zz " + n + "\n", "parameters", param(n)), lambda h, n: ("param zz " + n + "[]\n", "parameters", param({"type": "array", "item_type": n})), lambda h, n: ("param zz (" + n + " | b)\n", "parameters", param({"type": "union", "members": [n, "b"]})),
    lambda h, n: ("param zz int = " + n + "\n", "parameters", param("int", h.el(n))), lambda h, n: ("param zz " + n + " = " + n + "\n", "parameters", param(n, h.el(n))), lambda h, n: ("output zz " + n + " = " + n + "\n", "outputs", output(n, h.el(n))),
    lambda h, n: ("output zz " + n + "[] = 1\n", "outputs", output({"type": "array", "item_type": n}, 1)), lambda h, n: ("output zz string = " + n + ".id\n", "outputs", output("string", prop(h.el(n), h.el("id")))), lambda h, n: ("var zz = " + n + "\n", "variables", var(h.el(n))),
    lambda h, n: ("var zz " + n + " = 1\n", "variables", var(1, type=n)), lambda h, n: ("var zz = [" + n + "]\n", "variables", var([h.el(n)])), lambda h, n: ("var zz = {\n  " + n + ": " + n + "\n}\n", "variables", var({n: h.el(n)})),
    lambda h, n: ("var zz = '${" + n + "}'\n", "variables", var("${" + n + "}")), lambda h, n: ("var zz = '" + n + "'\n", "variables", var(n)), lambda h, n: ("var zz = " + n + " + 1\n", "variables", var(op2("add", h.el(n), 1))), lambda h, n: ("var zz = !" + n + "\n", "variables", var(not_(h.el(n)))),
    lambda h, n: ("var zz = " + n + " ? 1 : 2\n", "variables", var(cond(h.el(n), 1, 2))), lambda h, n: ("var zz = " + n + "[0]\n", "variables", var(index(h.el(n), 0))), lambda h, n: ("var zz = " + n + "::b\n", "variables", var(op2("nested_resource_accessor", h.el(n), h.el("b")))),
    lambda h, n: ("var zz = [for i in " + n + ": i]\n", "variables", var(loop_array("i", h.el(n), h.el("i")))), lambda h, n: ("var zz = [for " + n + " in k: " + n + "]\n", "variables", var(loop_array(n, h.el("k"), h.el(n)))),
    lambda h, n: ("var zz = foo(" + n + ")\n", "variables", var(unknown("foo", h.el(n)))), lambda h, n: ("var zz = q" + n + "(1)\n", "variables", var(unknown("q" + n, 1))), lambda h, n: ("type zz = " + n + "\n", "types", ctype(h.el(n))),
    lambda h, n: ("type zz = " + n + " | 'c'\n", "types", ctype(n + " | c")), lambda h, n: ("type zz = {\n  a: " + n + "\n}\n", "types", ctype({"a": h.el(n)})), lambda h, n: ("func zz(a " + n + ") " + n + " => " + n + "\n", "functions", func({"a": n}, n, h.el(n))),
    lambda h, n: ("func zz(" + n + " int) int => " + n + "\n", "functions", func({n: "int"}, "int", h.el(n))), lambda h, n: ("resource zz 'c/d@2' = {\n  parent: " + n + "\n  name: 'n'\n}\n", "resources", resource("c/d", "2", {"parent": h.el(n), "name": "n"})),
    lambda h, n: ("resource zz 'c/d@2' = {\n  scope: " + n + "\n  dependsOn: [\n    " + n + "\n  ]\n}\n", "resources", resource("c/d", "2", {"scope": h.el(n), "dependsOn": [h.el(n)]})),
    lambda h, n: ("resource zz 'c/d@2' = if (" + n + ") {\n  name: " + n + "\n}\n", "resources", resource("c/d", "2", {"condition": h.el(n), "config": {"name": h.el(n)}})), lambda h, n: ("resource zz '" + n + "/d@2' = {\n}\n", "resources", resource(n + "/d", "2", {})),
    lambda h, n: ("module zz './" + n + "' = {\n  scope: " + n + "\n  params: {\n    a: " + n + "\n  }\n}\n", "modules", local_module("./" + n, {"scope": h.el(n), "params": {"a": h.el(n)}})), lambda h, n: ("@foo(" + n + ")\nparam zz int\n", "parameters", param("int", None, [{"type": "foo", "argument": h.el(n)}])),
    lambda h, n: ("@allowed([" + n + "])\n@minLength(" + n + ")\nparam zz " + n + "\n", "parameters", param(n, None, [{"type": "allowed", "argument": [h.el(n)]}, {"type": "min_length", "argument": h.el(n)}])), lambda h, n: ("metadata zz = '" + n + "'\n", "metadata", {"value": n}),
    lambda h, n: ("import zz as " + n + " from '" + n + "'\n", "imports", {"file_path": n, "alias": n}), lambda h, n: ("extension zz with {\n  a: " + n + "\n} as " + n + "\n", "extensions", {"config": {"a": h.el(n)}, "alias": n}),
]


@harness("references")
def references(h):
    """A declaration that mentions another one of the file, before or after it, is reported as written, and so is the other."""
    n = name(h, h.choose(1, 2) if h.thorough() else 1)
    h.assume(n != "k")
    s, sec, attrs = h.choose(FIRST)(h, n)
    t, sec2, attrs2 = h.choose(SECOND)(h, n)
    want = doc(**{sec: {n: attrs}})
    want.setdefault(sec2, {})["zz"] = attrs2
    h.eq(h.good(h.parse(s + t if h.choose(True, False) else t + s)), want, "both declarations")


@harness("nested_references")
def nested_references(h):
    """References to nested resources of the file, before and after it."""
    n, m = name(h, 1), h.choose("c", "n", name(h, 1))
    w = h.choose("", "if (k) ")
    r = "resource " + n + " 'a/b@1' = " + w + "{\n  resource " + m + " 'd' = {\n  }\n}\n"
    res = {n: resource("a/b", "1", {"condition": h.el("k"), "config": {}} if w else {}), n + "__" + m: resource("a/b/d", "1", {"depends_on": [h.el(n)]})}
    ref = op2("nested_resource_accessor", h.el(n), h.el(m))
    t, sec, attrs = h.choose(
        ("output zz string = " + n + "::" + m + "\n", "outputs", output("string", ref)),
        ("output zz string = " + n + "::" + m + ".id\n", None, None),
        ("output zz string = " + n + "__" + m + "\n", "outputs", output("string", h.el(n + "__" + m))),
        ("output zz string = " + m + ".id\n", "outputs", output("string", prop(h.el(m), h.el("id")))),
        ("var zz = [" + n + ", " + m + "]\n", "variables", var([h.el(n), h.el(m)])),
        ("resource zz 'e/f@2' = {\n  parent: " + n + "::" + m + "\n}\n", "resources", resource("e/f", "2", {"parent": ref})),
        ("resource zz 'e/f@2' = {\n  dependsOn: [\n    " + n + "::" + m + "\n  ]\n}\n", "resources", resource("e/f", "2", {"dependsOn": [ref]})),
        ("module zz './m' = {\n  scope: " + m + "\n}\n", "modules", local_module("./m", {"scope": h.el(m)})),
        ("module zz './m' = if (" + n + "::" + m + ") {\n}\n", "modules", local_module("./m", {"condition": ref, "config": {}})),
        ("@foo(" + n + "::" + m + ")\nparam zz " + m + "\n", "parameters", param(m, None, [{"type": "foo", "argument": ref}])),
    )
    if sec is None:
        t, sec, attrs = "var zz = '${" + n + "::" + m + "}'\n", "variables", var("${" + n + "::" + m + "}")
    want = doc(resources=res)
    want.setdefault(sec, {})["zz"] = attrs
    h.eq(h.good(h.parse(r + t if h.choose(True, False) else t + r)), want, "both declarations")
