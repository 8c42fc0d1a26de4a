from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "two threads, each parsing or building a tree, with one shared or two parsers, line numbers on and off, 29 texts of every stateful kind of declaration and rejected ones; "
             "up to two switches (the second for 9 pairs of texts), each before any of the first 256 lines of pycep executed since the last switch; one symbolic character in the texts",
    "thorough": "as quick with three switches for all pairs of texts, and three threads",
}
ASSUMPTIONS = ["a switch happens between lines of pycep (not inside a line, and not inside Lark, re or regex, which are trusted to be safe for threads)",
               "locks the code creates take part in the schedule; condition variables and events do not"]

TEXTS = {
    "var": "var x = 'a'\n",
    "two": "param p int = 1\nvar y = [k, null]\n",
    "import": "import a as b from 'f'\nimport 'n'\n",
    "child": "resource r 'a/b@1' = {\n  resource c 'd' = {\n    a: 1\n  }\n}\n",
    "child2": "resource s 'e/f@2' = {\n  resource c 'g' = {\n    b: 2\n  }\n}\n",
    "deco": "@foo(1)\n@secure()\nparam q string\n",
    "scope": "targetScope = 'tenant'\n",
    "call": "var z = union(k, foo('''b'''))\n",
    "loop": "var l = [for i in k: if (i) { a: i }]\n",
    "ns": "import 'n'\n",
    "ns2": "import 'm'\n",
    "nest": "resource r 'a@1' = {\nresource c 'd' = {\n}\n}\n",
    "nest2": "resource s 'e@1' = {\nresource t 'f' = {\n}\n}\n",
    "func": "func f() a => b\n",
    "func2": "func g() c => d\n",
    "deco2": "@a()\nvar u = 1\n",
    "deco3": "@b(2)\nvar v = 2\n",
    "mod": "module m './a' = {}\n",
    "mod2": "module n './b' = {}\n",
    "call2": "var w = f(1)\n",
    "call3": "var y = g(2)\n",
    "loop2": "var l = [for i in k: i]\n",
    "loop3": "var m = [for j in n: j]\n",
    "text": "var a = 'b'\n",
    "text2": "var c = '''d'''\n",
    "lambda": "var a = b => c\n",
    "lambda2": "var d = e => f\n",
    "bad": "var x = 1 1\n",
    "badscope": "import z from 'g'\ntargetScope = 'x'\n",
}


PAIRS = (("func", "func2"), ("deco2", "deco3"), ("mod", "mod2"), ("call2", "call3"), ("loop2", "loop3"), ("text", "text2"), ("lambda", "lambda2"))


def act(h, p, what, text):
    return (lambda: p.parse(text=text)) if what == "parse" else (lambda: p.create_tree(text=text))


def alone(h, p, what, text):
    """What the operation yields when nothing else runs."""
    return h.parse(text, parser=p) if what == "parse" else h.tree(text=text, parser=p)


def compare(h, jobs, preemptions):
    want = [alone(h, *j) for j in jobs]
    got = h.concurrent([act(h, *j) for j in jobs], preemptions)
    for w, g in zip(want, got):
        h.check(w.ok == g.ok and (w.ok or w.err == g.err), "accepted, or rejected in the same way, as when alone")
        if w.ok and g.ok:
            h.eq(g.value, w.value, "result as when alone", strict=True)


@harness("shared_parser")
def shared_parser(h):
    """Two parses on one parser, one switch away and back at the end."""
    ln = h.choose(False, True)
    p = h.default_parser(ln)
    a, b = h.choose(list(TEXTS)), h.choose(list(TEXTS) if h.thorough() else ["child2", "import", "badscope", "deco"])
    compare(h, [(p, "parse", TEXTS[a]), (p, "parse", TEXTS[b])], 1)


@harness("back_and_forth")
def back_and_forth(h):
    """Two switches."""
    ln = h.choose(False, True) if h.thorough() else True
    p = h.default_parser(ln)
    a, b = h.choose(("nest", "nest2"), ("ns", "ns2"), *PAIRS) if not h.thorough() else (h.choose(list(TEXTS)), h.choose(list(TEXTS)))
    compare(h, [(p, "parse", TEXTS[a]), (p, "parse", TEXTS[b])], 2)


@harness("two_parsers")
def two_parsers(h):
    """Two parsers with different settings share nothing either."""
    p, q = h.default_parser(False), h.default_parser(True)
    if h.choose(False, True):
        p, q = q, p
    a, b = h.choose("child", "import", "deco", "scope", "bad", "call"), h.choose("child", "import", "deco")
    compare(h, [(p, "parse", TEXTS[a]), (q, "parse", TEXTS[b])], 1)


@harness("trees")
def trees(h):
    """Building trees beside parsing."""
    p = h.default_parser(False)
    a, b = h.choose("var", "child", "loop", "bad"), h.choose("import", "child", "bad")
    i, j = h.choose(("parse", "tree"), ("tree", "parse"), ("tree", "tree"))
    compare(h, [(p, i, TEXTS[a]), (p, j, TEXTS[b])], 1)


@harness("files")
def files(h):
    """Parsing a file beside parsing a text."""
    p = h.default_parser(h.choose(False, True))
    a, b = h.choose("var", "child", "import", "bad"), h.choose("two", "child2", "badscope")
    f, g = h.file(TEXTS[a], "a.bicep"), h.file(TEXTS[b], "b.bicep")
    want = [h.parse_file(f, parser=p), h.parse_file(g, parser=p)]
    got = h.concurrent([lambda: p.parse(file_path=f), lambda: p.parse(file_path=g)], 1)
    for w, r in zip(want, got):
        h.check(w.ok == r.ok and (w.ok or w.err == r.err), "accepted, or rejected in the same way, as when alone")
        if w.ok and r.ok:
            h.eq(r.value, w.value, "result as when alone", strict=True)


@harness("construction")
def construction(h):
    """A parser made and used while another one works."""
    ln = h.choose(False, True)
    p = h.default_parser(ln)
    a, b = h.choose("child", "import", "deco"), h.choose("child2", "import")
    w = [h.parse(TEXTS[a], parser=p), h.parse(TEXTS[b], add_line_numbers=not ln)]
    g = h.concurrent([lambda: p.parse(text=TEXTS[a]), lambda: h.parser(add_line_numbers=not ln).parse(text=TEXTS[b])], 1)
    for x, y in zip(w, g):
        h.eq(h.good(y), h.good(x), "result as when alone", strict=True)


@harness("free_text")
def free_text(h):
    """A free character in a name, a string and a nested resource of both texts."""
    s, t = h.sym(1, "ident"), h.sym(1, "ident")
    f = h.choose("var x{} = 'b{}'\n", "resource r 'a/b@{}' = {\n  resource c{} 'd' = {\n  }\n}\n", "import x{} from '{}'\n")
    p = h.default_parser(h.choose(False, True))
    compare(h, [(p, "parse", f.replace("{}", s)), (p, "parse", f.replace("{}", t))], 1)


@harness("three", thorough_only=True)
def three(h):
    """Three threads."""
    p = h.default_parser(True)
    a, b, c = h.choose(("child", "child2", "import"), ("import", "two", "child"), ("bad", "deco", "child"))
    compare(h, [(p, "parse", TEXTS[a]), (p, "parse", TEXTS[b]), (p, "parse", TEXTS[c])], 2)


@harness("three_switches", thorough_only=True)
def three_switches(h):
    p = h.default_parser(True)
    a, b = h.choose(("var", "import"), ("import", "badscope"))
    compare(h, [(p, "parse", TEXTS[a]), (p, "parse", TEXTS[b])], 3)
