from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every kind of declaration in 1..3 forms (one line and several lines), 0..3 pieces of whitespace, comments and other declarations before and "
             "after it (LF, CRLF, blank lines, // and /* */ comments, several lines), 0..2 decorators on lines of their own; comments and string bodies of "
             "up to 3 symbolic characters (line breaks included where they may contain them); nested resources to depth 3; pairs of all declarations; 0..6 decorators, arguments, names, members, properties or levels (and the numbers near the code's constants)",
    "thorough": "as quick with triples of declarations, 5 symbolic characters and four pieces between declarations",
}
ASSUMPTIONS = ["a carriage return stands only in front of a line feed"]


class D:
    """One declaration: source (first to last token), section, name, attributes; children: hoisted resources inside it."""

    def __init__(self, src, section, nm, attrs, kids=()):
        self.src, self.section, self.nm, self.attrs, self.kids = src, section, nm, attrs, kids


def lines(s):
    return s.count("\n")


def decls(h, i, nl="\n"):
    """The kinds and forms; every line break written as nl."""
    n = "n" + str(i)
    ref = lambda: h.el("k")
    return {
        "param": lambda: D("param " + n + " string", "parameters", n, param("string")),
        "param_default": lambda: D("param " + n + " object = {" + nl + "  a: k" + nl + nl + "}", "parameters", n, param("object", {"a": ref()})),
        "param_paren": lambda: D("param " + n + " object = ([" + nl + "  k" + nl + "])", "parameters", n, param("object", [ref()])),
        "param_union": lambda: D("param " + n + " (a | b)[]", "parameters", n,
                                 param({"type": "array", "item_type": {"type": "union", "members": ["a", "b"]}})),
        "var": lambda: D("var " + n + " = k", "variables", n, var(ref())),
        "var_array": lambda: D("var " + n + " = [" + nl + "  k" + nl + "  1" + nl + "]", "variables", n, var([ref(), 1])),
        "var_call": lambda: D("var " + n + " = foo(" + nl + "k" + nl + ")", "variables", n, var(unknown("foo", ref()))),
        "var_text": lambda: D("var " + n + " = '''" + nl + "a" + nl + nl + "'''", "variables", n, var("a" + nl + nl)),
        "var_loop": lambda: D("var " + n + " = [" + nl + "for i in k: {" + nl + "  a: i" + nl + "}" + nl + "]", "variables", n,
                              var(loop_array("i", ref(), {"a": h.el("i")}))),
        "output": lambda: D("output " + n + " string = k", "outputs", n, output("string", ref())),
        "output_object": lambda: D("output " + n + " object = {" + nl + "  a: k }", "outputs", n, output("object", {"a": ref()})),
        "resource": lambda: D("resource " + n + " 'a/b@1' existing = {" + nl + "}", "resources", n, resource("a/b", "1", {}, True)),
        "resource_if": lambda: D("resource " + n + " 'a/b@1' = if (k) {" + nl + "  a: k" + nl + "}", "resources", n,
                                 resource("a/b", "1", {"condition": ref(), "config": {"a": ref()}})),
        "module": lambda: D("module " + n + " './m' = {" + nl + nl + "  a: k" + nl + "}", "modules", n, local_module("./m", {"a": ref()})),
        "module_loop": lambda: D("module " + n + " './m' = [for i in k: {" + nl + "}]", "modules", n, local_module("./m", loop_array("i", ref(), {}))),
        "type": lambda: D("type " + n + " = k", "types", n, ctype(ref())),
        "type_object": lambda: D("type " + n + " = {" + nl + "  a: k" + nl + "}", "types", n, ctype({"a": ref()})),
        "func": lambda: D("func " + n + "(a int) string => k", "functions", n, func({"a": "int"}, "string", ref())),
        "func_object": lambda: D("func " + n + "() object => {" + nl + "  a: k" + nl + "}", "functions", n, func({}, "object", {"a": ref()})),
        "metadata": lambda: D("metadata " + n + " = 'm'", "metadata", n, {"value": "m"}),
        "import": lambda: D("import " + n + " as b from 'f'", "imports", n, {"file_path": "f", "alias": "b"}),
        "import_braces": lambda: D("import {" + n + "} from 'f'", "imports", n, {"file_path": "f"}),
        "import_ns": lambda: D("import '" + n + "'", "imports", n, {}),
        "extension": lambda: D("extension " + n, "extensions", n, {}),
        "extension_with": lambda: D("extension " + n + " with {" + nl + "  a: k" + nl + "} as al", "extensions", n, {"config": {"a": ref()}, "alias": "al"}),
        "scope": lambda: D("targetScope = 'tenant'", "globals", "scope", {"value": "tenant"}),
    }


NAMES = ["param", "param_default", "param_paren", "param_union", "var", "var_array", "var_call", "var_text", "var_loop", "output", "output_object", "resource",
         "resource_if", "module", "module_loop", "type", "type_object", "func", "func_object", "metadata", "import", "import_braces", "import_ns", "extension",
         "extension_with", "scope"]
DECORATED = ["param", "param_default", "var", "var_array", "output", "output_object", "resource", "resource_if", "module", "module_loop", "type", "type_object",
             "func", "func_object"]


def check(h, pieces):
    """pieces: text between declarations (str) and declarations (D)."""
    text = ""
    want = doc()
    g = want["globals"]["scope"]
    g["__start_line__"] = g["__end_line__"] = 0
    for p in pieces:
        if type(p) is not D:
            text = text + p
            continue
        first = 1 + lines(text)
        a = dict(p.attrs)
        a["__start_line__"] = first
        a["__end_line__"] = first + lines(p.src)
        want.setdefault(p.section, {})[p.nm] = a
        for k in p.kids:
            a = dict(k.attrs)
            a["__start_line__"] = 1 + lines(text + k.before)
            a["__end_line__"] = a["__start_line__"] + lines(k.src)
            want["resources"][k.nm] = a
        text = text + p.src
    h.eq(h.good(h.parse(text, add_line_numbers=True), "with line numbers"), want, "line numbers")


GAPS = ["", "\n", "\n\n\n", "\r\n\r\n", "// c\n", "/* a\nb */\n", "// c\n\n// d\n", "# c\n", "/* */", "  \n\t"]


@harness("alone")
def alone(h):
    """Each kind, in each form, with LF and CRLF, after and before anything else that is no declaration."""
    k = h.choose(NAMES)
    nl = h.choose("\n", "\r\n")
    d = decls(h, 1, nl)[k]()
    tail = h.choose("\n", "", "\n\n\n", " // c", "/* a\nb */", "\r\n// c\n\n") if h.choose(True, False) else "\n"
    check(h, [h.choose(GAPS), d, tail])


@harness("gaps")
def gaps(h):
    """Several pieces in front of the declaration add up."""
    k = h.choose("var", "import", "scope", "resource")
    n = h.choose(2, 3) if not h.thorough() else h.choose(2, 3, 4)
    g = ["\n", "\r\n", "// c\n", "/* a\nb\n*/", "  \t"]
    check(h, [h.choose(g) for _ in range(n)] + [decls(h, 1)[k]()] + ["\n"])


@harness("pairs")
def pairs(h):
    """A declaration's numbers do not depend on the kind and length of the one before it or after it."""
    j = h.choose(NAMES)
    k = h.choose(NAMES)
    h.assume(not (j == "scope" and k == "scope"))
    check(h, [decls(h, 1)[j](), h.choose("\n", "\n\n// c\n", "\r\n"), decls(h, 2)[k](), "\n"])


@harness("triples", thorough_only=True)
def triples(h):
    ks = ["var_text", "import", "param_default", "resource_if", "extension_with", "func_object", "var", "scope"]
    a, b, c = h.choose(ks), h.choose(ks), h.choose(ks)
    h.assume([a, b, c].count("scope") < 2)
    check(h, [h.choose("", "\n"), decls(h, 1)[a](), "\n", decls(h, 2, "\r\n")[b](), h.choose("\n", "\n\n"), decls(h, 3)[c](), h.choose("", "\n")])


@harness("decorators")
def decorators(h):
    """The first line is that of the first decorator."""
    k = h.choose(DECORATED)
    d = decls(h, 1)[k]()
    n = h.choose(1, 2)
    src, want = "", []
    for _ in range(n):
        a, v = h.choose(("", None), ("k", h.el("k")), ("\n{\n  a: 1\n}\n", {"a": 1}), ("'''a\nb'''", "a\nb"))
        src = src + "@foo(" + a + ")" + h.choose("\n", "\n\n", " ", " // c\n", "\r\n")
        want.append({"type": "foo"} if v is None else {"type": "foo", "argument": v})
    a = dict(d.attrs)
    a["decorators"] = want
    check(h, [h.choose("", "\n", "// c\n"), D(src + d.src, d.section, d.nm, a), "\n"])


@harness("comment_text")
def comment_text(h):
    """Whatever a comment contains, its line breaks count and nothing else does."""
    how = h.choose("//", "/*", "#")
    n = h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 3, 5)
    if how == "/*":
        c = h.sym(n, "nocr")
        h.assume("*" not in c)
        h.assume("'" not in c)
        c = "/*" + c + "*/"
    else:
        c = h.sym(n, "line")
        h.assume("'" not in c)
        c = how + c + "\n"
    check(h, [c, decls(h, 1)["var"](), "\n", c, decls(h, 2)["param_default"](), "\n"])


@harness("string_text")
def string_text(h):
    """Line breaks inside multi-line strings count, whatever surrounds them."""
    n = h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 3, 5)
    s = h.sym(n, "nocr")
    h.assume("'" not in s)
    v = s[1:] if s[0] == "\n" else s
    check(h, [D("var a = '''" + s + "'''", "variables", "a", var(v)), "\n", decls(h, 2)["output"](), "\n"])


@harness("string_escapes")
def string_escapes(h):
    """A written \\\\n or ${...} in a single-line string is no line break."""
    s = h.choose("\\n", "\\r\\n", "\\\\n", "${a}", "\\u{a}", "//", "/*", "#")
    check(h, [D("var a = '" + s + "'", "variables", "a", var(s)), "\n", decls(h, 2)["output"](), "\n"])


@harness("multi_line_values")
def multi_line_values(h):
    """Values of several lines, with symbolic numbers of lines chosen piece by piece."""
    a, b = h.choose("", "\n", "\n\n", "// c\n"), h.choose("\n", "\n\n", " // c\n\n", "\r\n")
    o = h.opaque(without=("mls",))
    form = h.choose("array", "object", "nested", "call")
    if form == "array":
        d = D("var a = [" + a + o.src + b + "]", "variables", "a", var([o.val]))
    elif form == "object":
        d = D("output a object = {" + a + "p: " + o.src + b + "}", "outputs", "a", output("object", {"p": o.val}))
    elif form == "nested":
        d = D("module a './m' = {" + b + "p: [" + a + o.src + b + "]" + b + "}", "modules", "a", local_module("./m", {"p": [o.val]}))
    else:
        h.assume(a != "\n\n" and b != "\n\n" and b != " // c\n\n" )
        d = D("var a = foo(" + a + o.src + b + ")", "variables", "a", var(unknown("foo", o.val)))
    check(h, ["\n", d, "\n", decls(h, 2)["metadata"](), "\n"])


class Kid(D):
    def __init__(self, before, src, nm, attrs):
        D.__init__(self, src, "resources", nm, attrs)
        self.before = before


@harness("nested")
def nested(h):
    """Hoisted resources have the lines of their own text."""
    depth = h.choose(1, 2, 3)
    g = [h.choose("", "\n", "// c\n", "\r\n") for _ in range(2)]
    one = h.choose(False, True)
    nm, typ = ["p", "c", "d", "e"], ["a/b", "a/b/y1", "a/b/y1/y2", "a/b/y1/y2/y3"]

    def build(level):
        """(source of the resource, kids in it with the text before them relative to its start)"""
        head = "resource " + nm[level] + (" 'a/b@1' = {\n" if level == 0 else " 'y" + str(level) + "' = {\n")
        body, kids = g[0] + "v: 1\n", []
        if level < depth:
            s, ks = build(level + 1)
            full = "__".join(nm[: level + 2])
            off = head + body
            kids = [Kid(off, s, full, resource(typ[level + 1], "1", {"v": 1, "depends_on": [h.el("__".join(nm[: level + 1]))]}))]
            for k in ks:
                kids.append(Kid(off + k.before, k.src, k.nm, k.attrs))
            body = body + s + "\n" + g[1]
        return head + body + "}", kids

    src, kids = build(0)
    pre = h.choose("", "\n\n", "var q = '''\n\n'''\n") if not one else ""
    pieces = [pre] if pre[:3] != "var" else [D(pre[:-1], "variables", "q", var("\n")), "\n"]
    check(h, pieces + [D(src, "resources", "p", resource("a/b", "1", {"v": 1}), kids), "\n", decls(h, 2)["var"](), "\n"])


@harness("nested_forms")
def nested_forms(h):
    """Conditional and looped nested resources."""
    f = h.choose("plain", "if", "for")
    body = {"plain": "{\n}", "if": "if (k) {\n  a: 1\n}", "for": "[for i in k: {\n}]"}[f]
    cfg = {"plain": {}, "if": {"condition": h.el("k"), "config": {"a": 1}}, "for": loop_array("i", h.el("k"), {})}[f]
    cfg["depends_on"] = [h.el("p")]
    pf = h.choose("", "if (k) ")
    head = "@foo()\nresource p 'a/b@1' = " + pf + "{\n  a: 1\n"
    kid = Kid(head, "resource c 'y' existing = " + body, "p__c", resource("a/b/y", "1", cfg, True))
    pcfg = {"a": 1}
    if pf:
        pcfg = {"condition": h.el("k"), "config": pcfg}
    d = D(head + kid.src + h.choose("\n", "\n\n// c\n", " // c\n") + "}", "resources", "p", resource("a/b", "1", pcfg, decorators=[{"type": "foo"}]), [kid])
    check(h, [h.choose("", "\n"), d, "\n"])


@harness("several_imports")
def several_imports(h):
    """Every name of an import has the lines of the statement."""
    n = h.choose(1, 2, 3)
    names = ["a", "b", "c"][:n]
    pre = h.choose("", "\n", "/*\n*/")
    line = 1 + lines(pre)
    want = doc(imports={x: {"file_path": "f", "__start_line__": line, "__end_line__": line} for x in names},
               variables={"z": var(1, __start_line__=line + 1, __end_line__=line + 1)})
    want["globals"]["scope"].update({"__start_line__": 0, "__end_line__": 0})
    h.eq(h.good(h.parse(pre + "import {" + ", ".join(names) + "} from 'f'\nvar z = 1\n", add_line_numbers=True)), want, "line numbers")


@harness("default_scope")
def default_scope(h):
    g = h.choose(GAPS)
    want = doc()
    want["globals"]["scope"].update({"__start_line__": 0, "__end_line__": 0})
    h.eq(h.good(h.parse(g, add_line_numbers=True)), want, "default scope")


@harness("reused")
def reused(h):
    """Line counting starts anew with each parse of one parser."""
    p = h.parser(add_line_numbers=True)
    a, b = h.choose(GAPS), h.choose(GAPS)
    for g in (a, b):
        line = 1 + lines(g)
        want = doc(variables={"z": var(1, __start_line__=line, __end_line__=line)})
        want["globals"]["scope"].update({"__start_line__": 0, "__end_line__": 0})
        h.eq(h.good(h.parse(g + "var z = 1\n", parser=p)), want, "line numbers")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions, for the declarations and for what is in them."""
    w = h.choose(h.words())
    k = h.choose("param", "var", "resource", "module", "type", "func", "metadata", "import", "extension", "alias", "key", "text")
    t, sec, n, attrs = {
        "param": lambda: ("param " + w + " string", "parameters", w, param("string")),
        "var": lambda: ("var " + w + " = [\n  k\n]", "variables", w, var([h.el("k")])),
        "resource": lambda: ("resource " + w + " 'a/b@1' = {\n  p: 1\n}", "resources", w, resource("a/b", "1", {"p": 1})),
        "module": lambda: ("module " + w + " './m' = {\n}", "modules", w, local_module("./m", {})),
        "type": lambda: ("type " + w + " = k", "types", w, ctype(h.el("k"))),
        "func": lambda: ("func " + w + "() object => {\n}", "functions", w, func({}, "object", {})),
        "metadata": lambda: ("metadata " + w + " = '" + w + "'", "metadata", w, {"value": w}),
        "import": lambda: ("import " + w + " from '" + w + "'", "imports", w, {"file_path": w}),
        "extension": lambda: ("extension " + w + " with {\n}", "extensions", w, {"config": {}}),
        "alias": lambda: ("import a as " + w + " from 'f'", "imports", "a", {"file_path": "f", "alias": w}),
        "key": lambda: ("var x = {\n  " + w + ": 1\n\n}", "variables", "x", var({w: 1})),
        "text": lambda: ("var x = [\n  '" + w + "'\n]", "variables", "x", var([w])),
    }[k]()
    check(h, ["\n", D(t, sec, n, attrs), "\n", decls(h, 2)["output"](), "\n"])


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of lines before and inside a declaration around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 300))
    nl = h.choose("\n", "\r\n", "// c\n", "/* a\nb */\n")
    k = h.choose("before", "any", "array", "text", "body", "kid")
    if k == "before":
        check(h, [nl * n, decls(h, 1)["resource_if"](), nl * n, decls(h, 2)["import"](), "\n"])
    elif k == "any":
        h.assume(nl in ("\n", "// c\n"))
        check(h, [nl * n, decls(h, 1)[h.choose(NAMES)](), h.choose("", "\n")])
    elif k == "array":
        check(h, [D("var a = [" + "\n" + (nl if nl[0] == "/" else "k" + nl) * n + "]", "variables", "a", var([] if nl[0] == "/" else [h.el("k")] * n)), "\n", decls(h, 2)["var"](), "\n"])
    elif k == "text":
        check(h, [D("var a = '''z" + nl * n + "'''", "variables", "a", var("z" + nl * n)), "\n", decls(h, 2)["var"](), "\n"])
    elif k == "body":
        b = "".join("p" + str(i) + ": 1\n" for i in range(n))
        check(h, [D("resource r 'a/b@1' = {\n" + b + nl + "}", "resources", "r", resource("a/b", "1", {"p" + str(i): 1 for i in range(n)})), "\n", decls(h, 2)["var"](), "\n"])
    else:
        head = "resource r 'a/b@1' = {\n" + nl * n
        kid = Kid(head, "resource c 'y' = {\n" + nl * n + "}", "r__c", resource("a/b/y", "1", {"depends_on": [h.el("r")]}))
        check(h, [D(head + kid.src + "\n" + nl * n + "}", "resources", "r", resource("a/b", "1", {}), [kid]), "\n", decls(h, 2)["var"](), "\n"])


# one text per kind, with a mark wherever a blank may stand between two tokens
SPREAD = [
    ("param·a·string", "parameters", "a", lambda h: param("string")),
    ("param·a·(·b·|·c·)·[·]·=·(·k·)", "parameters", "a", lambda h: param({"type": "array", "item_type": {"type": "union", "members": ["b", "c"]}}, h.el("k"))),
    ("@foo(1)·@secure()·param·a·int·=·1", "parameters", "a", lambda h: param("int", 1, [{"type": "foo", "argument": 1}, {"type": "secure"}])),
    ("var·a·=·k", "variables", "a", lambda h: var(h.el("k"))),
    ("var·a·=·[·1·,·k·]", "variables", "a", lambda h: var([1, h.el("k")])),
    ("var·a·=·[·for·i·in·k·:·i·]", "variables", "a", lambda h: var(loop_array("i", h.el("k"), h.el("i")))),
    ("var·a·=·foo(·k·,·1·)", "variables", "a", lambda h: var(unknown("foo", h.el("k"), 1))),
    ("output·a·string·=·'s'", "outputs", "a", lambda h: output("string", "s")),
    ("resource·a·'b/c@1'·existing·=·{·p·:·k·}", "resources", "a", lambda h: resource("b/c", "1", {"p": h.el("k")}, True)),
    ("resource·a·'b/c@1'·=·if·(·k·)·{·}", "resources", "a", lambda h: resource("b/c", "1", {"condition": h.el("k"), "config": {}})),
    ("module·a·'./m'·=·{·p·:·1·}", "modules", "a", lambda h: local_module("./m", {"p": 1})),
    ("module·a·'./m'·=·[·for·i·in·k·:·{·}·]", "modules", "a", lambda h: local_module("./m", loop_array("i", h.el("k"), {}))),
    ("type·a·=·b·|·c", "types", "a", lambda h: ctype("b | c")),
    ("func·a·(·b·int·,·c·int·)·string·=>·b", "functions", "a", lambda h: func({"b": "int", "c": "int"}, "string", h.el("b"))),
    ("metadata·a·=·'m'", "metadata", "a", lambda h: {"value": "m"}),
    ("import·a·as·b·from·'f'", "imports", "a", lambda h: {"file_path": "f", "alias": "b"}),
    ("import·{·a·as·b·}·from·'f'", "imports", "a", lambda h: {"file_path": "f", "alias": "b"}),
    ("import·*·as·b·from·'f'", "imports", "*", lambda h: {"file_path": "f", "alias": "b"}),
    ("import·'a'", "imports", "a", lambda h: {}),
    ("extension·a·with·{·p·:·1·}·as·b", "extensions", "a", lambda h: {"config": {"p": 1}, "alias": "b"}),
    ("extension·a·as·b", "extensions", "a", lambda h: {"alias": "b"}),
    ("targetScope·=·'tenant'", "globals", "scope", lambda h: {"value": "tenant"}),
]


@harness("comments_inside")
def comments_inside(h):
    """Comments of several lines between any two tokens of a declaration."""
    t, sec, n, attrs = h.choose(SPREAD)
    ps = t.split("·")
    i = h.choose(range(1, len(ps)))
    c = h.choose(" /* a\n b */ ", "/*\n\n*/ ", " /*\r\n*/", " /* ' */ /* \n*/ ")
    j = h.choose(0, len(ps) - 1, 1)
    s = ps[0]
    for x in range(1, len(ps)):
        s = s + (c if x == i or x == j and j else " ") + ps[x]
    check(h, [h.choose("", "\n"), D(s, sec, n, attrs(h)), h.choose("\n", " /* x\ny */\n", ""), ] + h.choose([], ["\n", decls(h, 2)["var"](), "\n"]))


@harness("comments_inside_nested")
def comments_inside_nested(h):
    """The same inside the header, before and after a nested resource."""
    ex = h.choose(False, True)
    ps = ["resource", "c", "'y'"] + (["existing"] if ex else []) + ["=", "{", "q:", "1", "}"]
    i = h.choose(range(1, len(ps)))
    c = h.choose(" /* a\n b */ ", " /*\r\n*/ ", " /* \n\n*/")
    s = ps[0]
    for x in range(1, len(ps)):
        s = s + (c if x == i else " ") + ps[x]
    lead = h.choose("", "/* a\nb */ ", "/*\n*/\n", "v: 1\n")
    head = "resource p /*\n*/ 'a/b@1' = {\n" + lead
    kid = Kid(head, s, "p__c", resource("a/b/y", "1", {"q": 1, "depends_on": [h.el("p")]}, ex))
    check(h, ["\n", D(head + s + h.choose("\n", " /* a\nb */\n") + "}", "resources", "p", resource("a/b", "1", {"v": 1} if lead[0:1] == "v" else {}), [kid]), "\n",
              decls(h, 2)["metadata"](), "\n"])


@harness("several_on_lines")
def several_on_lines(h):
    """Imports of several names over several lines."""
    c = [h.choose("", "/* a\nb */ ", " /*\n\n*/") for _ in range(3)]
    s = "import {" + c[0] + "a, " + c[1] + "b as c" + c[2] + " } from 'f'"
    n = lines(s)
    pre = h.choose("", "\n\n")
    a = 1 + lines(pre)
    want = doc(imports={"a": {"file_path": "f", "__start_line__": a, "__end_line__": a + n}, "b": {"file_path": "f", "alias": "c", "__start_line__": a, "__end_line__": a + n}},
               variables={"z": var(1, __start_line__=a + n + 1, __end_line__=a + n + 1)})
    want["globals"]["scope"].update({"__start_line__": 0, "__end_line__": 0})
    h.eq(h.good(h.parse(pre + s + "\nvar z = 1\n", add_line_numbers=True)), want, "line numbers")


@harness("counts")
def counts(h):
    """Any number of decorators, arguments, names, properties or levels, on lines of their own or on one."""
    n = h.choose([0, 1, 2, 3, 4, 5, 6] + [s for s in h.sizes(7, 40)])
    nl = h.choose("\n", " ", "\r\n")
    k = h.choose("decorators", "imports", "arguments", "types", "properties", "levels", "kids", "children")
    j = h.choose("var", "resource", "import")
    if k == "decorators":
        d = decls(h, 1)[h.choose(DECORATED)]()
        a = dict(d.attrs)
        a["decorators"] = [{"type": "d" + str(i)} for i in range(n)]
        ds = [D("".join("@d" + str(i) + "()" + nl for i in range(n)) + d.src, d.section, d.nm, a)]
    elif k == "imports":
        h.assume(n and nl == " ")
        names = ["n" + str(i) for i in range(n)]
        ds = [D("import { " + names[0] + " } from 'f'", "imports", names[0], {"file_path": "f"})] if n == 1 else None
        h.assume(ds is None or n == 1)
        if ds is None:
            t = "import { " + ", ".join(names) + " } from 'f'"
            ds = [D("", "imports", m, {"file_path": "f"}) for m in names[:-1]] + [D(t, "imports", names[-1], {"file_path": "f"})]
    elif k == "arguments":
        ds = [D("var a = foo(" + ("," + nl).join(["k"] * n) + ")", "variables", "a", var(unknown("foo", *([h.el("k")] * n))))]
    elif k == "types":
        h.assume(nl == " ")
        ds = [D("func a(" + ", ".join("p" + str(i) + " int" for i in range(n)) + ") string => k", "functions", "a", func({"p" + str(i): "int" for i in range(n)}, "string", h.el("k")))]
    elif k == "properties":
        h.assume(nl != " ")
        ds = [D("module a './m' = {" + nl + "".join("p" + str(i) + ": [" + nl + "]" + nl for i in range(n)) + "}", "modules", "a", local_module("./m", {"p" + str(i): [] for i in range(n)}))]
    elif k == "levels":
        v = 1
        for i in range(n):
            v = [v]
        ds = [D("var a = " + ("[" + nl) * n + "1" + (nl + "]") * n, "variables", "a", var(v))]
    elif k == "kids":
        h.assume(nl != " " and n < 8)
        heads = ["resource r 'a/b@1' = {" + nl] + ["resource c" + str(i) + " 'y' = {" + nl for i in range(n)]
        full = "".join(heads) + ("}" + nl) * n + "}"
        kids, nm, ty = [], "r", "a/b"
        for i in range(n):
            up = nm
            nm, ty = nm + "__c" + str(i), ty + "/y"
            src = "".join(heads[i + 1:]) + ("}" + nl) * (n - i - 1) + "}"
            kids.append(Kid("".join(heads[:i + 1]), src, nm, resource(ty, "1", {"depends_on": [h.el(up)]})))
        ds = [D(full, "resources", "r", resource("a/b", "1", {}), kids)]
    else:
        h.assume(nl != " ")
        ds = [D("resource r 'a/b@1' = {" + nl + "p: {" + nl + "q: [" + (nl + "k") * n + nl + "]" + nl + "}" + nl + "}", "resources", "r", resource("a/b", "1", {"p": {"q": [h.el("k")] * n}}))]
    check(h, [h.choose("", "\n")] + ds + [h.choose("\n", "\n\n"), decls(h, 2)[j](), "\n"])
