from props import c15, c17, spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "26 declaration forms, nested resources, and every value shape; 19 base texts with one symbolic character inserted at or put over every position, "
             "and cut at every position; arbitrary texts of 0..2 symbolic characters; reused parsers; user properties named like the line number entries; 0..6 decorators, arguments, names, members, properties or levels; small values in 45 places",
    "thorough": "as quick with two inserted symbolic characters and texts of up to 3 symbolic characters",
}
ENTRIES = ("__start_line__", "__end_line__")


def strip(d):
    """The result without its line number entries (which only the attributes of declarations carry)."""
    return {s: {n: {k: v for k, v in a.items() if k not in ENTRIES} for n, a in ds.items()} for s, ds in d.items()}


def carries(h, d):
    """Every declaration has both entries, integers in order."""
    for s, ds in d.items():
        for n, a in ds.items():
            x, y = a.get("__start_line__"), a.get("__end_line__")
            h.check(type(x) is int and type(y) is int and 0 <= x <= y, "both line numbers on every declaration")


def none(h, d):
    for s, ds in d.items():
        for n, a in ds.items():
            for k in a:
                h.check(k not in ENTRIES, "no line number entry with line numbers off")


def compare(h, text, p=(None, None)):
    off = h.parse(text, parser=p[0])
    on = h.parse(text, add_line_numbers=True, parser=p[1])
    h.check(off.ok == on.ok, "accepted with line numbers on exactly when with them off")
    if off.ok and on.ok:
        none(h, off.value)
        carries(h, on.value)
        h.eq(strip(on.value), off.value, "equal but for the line numbers")


@harness("declarations")
def declarations(h):
    """All declarations, alone and in pairs, decorated or not."""
    k = h.choose(c15.NAMES)
    d = c15.decls(h, 1)[k]()
    o = h.opaque()
    pre = h.choose("", "\n", "@foo(" + o.src + ")\n") if k in c15.DECORATED else h.choose("", "\n")
    post = h.choose("\n", "\nvar v = " + o.src + "\n", "")
    compare(h, pre + d.src + post)


DOUBLES = ["param n int\n", "param n string = 'd'\n", "var n = 1\n", "var n = 2\n", "output n int = 1\n", "output n string = 'o'\n", "metadata n = 'a'\n", "metadata n = 'b'\n",
           "resource p__n 'x/y@2' = {\n}\n", "resource p 'a/b@1' = {\n  resource n 'd' = {\n  }\n}\n", "resource p 'e/f@3' = if (k) {\n  resource n 'g' existing = {\n  }\n}\n",
           "module n './m' = {\n}\n", "module n './o' = {\n}\n", "type n = 1\n", "type n = 2\n", "func n() int => 1\n", "func n(a int) int => 2\n", "import n from 'f'\n", "import n as b from 'g'\n",
           "import * as n from 'f'\n", "import 'n'\n", "extension n\n", "extension n as b\n", "targetScope = 'tenant'\n", "targetScope = 'subscription'\n"]


@harness("same_names")
def same_names(h):
    """Declarations that share a name (which one is reported is not claimed, but line numbers do not decide it)."""
    a, b = h.choose(DOUBLES), h.choose(DOUBLES)
    c = h.choose("", "\n\n", "param n int\n", "import n from 'z'\n") if not h.thorough() else h.choose(["", *DOUBLES])
    compare(h, a + c + b)


@harness("values")
def values(h):
    """Every value in every position."""
    o = h.shape()
    pos = h.choose(list(POSITIONS))
    a, b, _ = POSITIONS[pos]
    compare(h, a + o.src + b)


@harness("nested")
def nested(h):
    f, g = h.choose("", "if (k) "), h.choose("", "if (k) ")
    loop = h.choose(False, True)
    o = h.opaque()
    inner = "  resource d 'z' = {\n  q: " + o.src + "\n }\n" if h.choose(False, True) else ""
    c = "[for i in k: {\n a: 1\n}]" if loop else g + "{\n depends_on: [u]\n" + inner + "}"
    compare(h, "resource p 'a/b@1' = " + f + "{\n a: 1\n  resource c 'y' = " + c + "\n}\n")


@harness("user_entries")
def user_entries(h):
    """Properties the user calls like the entries stay."""
    k = h.choose(list(ENTRIES))
    o = h.opaque()
    t = h.choose("var x = {\n  K: V\n}\n", "resource r 'a/b@1' = {\n  K: V\n}\n", "param K string = V\n", "func f(K int) string => V\n",
                 "resource r 'a/b@1' = {\n resource c 'y' = {\n  K: V\n }\n}\n", "module m './m' = {\n K: V\n}\n", "var x = foo(K, V)\n", "import K from 'f'\n",
                 "extension e with {\n  K: V\n}\n")
    t = t.replace("K", k)
    i = t.find("V")
    text = t[:i] + o.src + t[i + 1:] if i >= 0 else t
    off, on = h.parse(text), h.parse(text, add_line_numbers=True)
    h.check(off.ok and on.ok, "accepted")
    if off.ok and on.ok:
        carries(h, on.value)
        h.eq(strip(on.value), off.value, "equal but for the line numbers")


TEXTS = [c17.plain(b) for b in c17.BASES]


@harness("inserted")
def inserted(h):
    """Accepted or rejected alike, and equal, with any character put in anywhere."""
    t = h.choose(TEXTS)
    i = h.choose(range(len(t) + 1))
    c = h.sym(1, "any")
    h.assume(c in "'\n(){}[]@|=!?:.,-+*/%&<>~\"\\$# ax1_" or h.thorough())
    compare(h, t[:i] + c + t[i:])


@harness("replaced", thorough_only=True)
def replaced(h):
    t = h.choose(TEXTS)
    i = h.choose(range(len(t)))
    compare(h, t[:i] + h.sym(1, "any") + t[i + 1:])


@harness("truncated")
def truncated(h):
    t = h.choose(TEXTS)
    i = h.choose(range(len(t)))
    compare(h, h.choose(t[:i], t[i:]))


@harness("arbitrary")
def arbitrary(h):
    """Short texts of any characters, alone and as a value."""
    n = h.choose(0, 1, 2) if not h.thorough() else h.choose(0, 1, 2, 3)
    s = h.sym(n, "any")
    a, b = h.choose(("", ""), ("var x = ", "\n"), ("var x = 1", "\nvar y = 2\n"), ("param p ", "\n"), ("@foo(", ")\nvar x = 1\n"))
    compare(h, a + s + b)


@harness("reused")
def reused(h):
    """The same two parsers for several texts, failing ones included."""
    p = (h.parser(), h.parser(add_line_numbers=True))
    ts = ["var x = 1\n", "\n\nimport a from 'f'\n", "resource p 'a/b@1' = {\n resource c 'y' = {\n }\n}\n", "var x = \n", "targetScope = 'x'\n", "resource r 'a' = {}\n"]
    a, b = h.choose(ts), h.choose(ts)
    compare(h, a, p)
    compare(h, b, p)
    compare(h, a, p)


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Every place of a name, filled with names the code itself mentions (the line number entries among them)."""
    w = h.choose(h.words())
    t = h.choose("var W = W\n", "param W W = 'W'\n", "output W W = { W: W }\n", "resource W 'W/b@1' = {\n  W: W\n}\n", "module W './W' = {\n  W: W\n}\n", "type W = W\n",
                 "func W(W W) W => W\n", "metadata W = 'W'\n", "import W as W from 'W'\n", "import { a as W, b as W } from 'W'\n", "extension W with {\n  W: W\n} as W\n", "@foo('W')\nvar x = foo(W)\n",
                 "resource p 'a/b@1' = {\n  resource W 'W' = {\n    W: 'W'\n  }\n}\n", "var x = [for W in W: W]\n", "import 'W'\n", "var x = k.W\n")
    compare(h, t.replace("W", w))


@harness("longer_names")
def longer_names(h):
    """Symbolic names of several characters at every place of a name."""
    n = name(h, h.choose(2, 3, 4) if not h.thorough() else h.choose(2, 3, 5, 6))
    a, b = h.choose(("var ", " = 1\n"), ("param ", " string\n"), ("param p ", "\n"), ("output ", " int = 1\n"), ("resource ", " 'a/b@1' = {}\n"), ("resource r '", "@1' = {}\n"), ("resource r 'a@", "' existing = {}\n"),
                    ("module ", " './m' = {}\n"), ("module m '", "' = {}\n"), ("type ", " = k\n"), ("func ", "() int => 1\n"), ("func f(", " int) int => 1\n"), ("metadata ", " = 'm'\n"), ("metadata m = '", "'\n"),
                    ("import ", " from 'f'\n"), ("import a as ", " from 'f'\n"), ("import { a, b as ", " } from 'f'\n"), ("import a from '", "'\n"), ("import '", "'\n"), ("extension ", "\n"), ("extension e as ", "\n"),
                    ("extension e with {\n  ", ": 1\n}\n"), ("resource r 'a/b@1' = {\n  ", ": 1\n}\n"), ("resource r 'a/b@1' = {\n  resource ", " 'y' = {\n  }\n}\n"), ("resource r 'a/b@1' = {\n  resource c '", "' = {\n  }\n}\n"),
                    ("@", "()\nvar x = 1\n"), ("@foo('", "')\nvar x = 1\n"), ("var x = ", "\n"), ("var x = '", "'\n"))
    compare(h, a + n + b)


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of declarations around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    k = h.choose("var nN = 1\n", "import nN from 'f'\n", "\n\nextension nN\n", "@foo()\nparam nN int\n", "resource nN 'a/b@1' = {\n  resource c 'y' = {\n  }\n}\n", "// N\nmodule nN './m' = {\n}\n")
    compare(h, "".join(k.replace("N", str(i)) for i in range(n)))


@harness("placed")
def placed(h):
    """Every declaration behind, and with, as many lines as the numbers the code mentions."""
    n = h.choose(h.sizes(0, 130))
    d = c15.decls(h, 1)[h.choose(c15.NAMES)]()
    pre = h.choose("\n", "// c\n", "/*\n*/", "var vN = 1\n")
    compare(h, "".join(pre.replace("N", str(i)) for i in range(n)) + d.src + "\n")


@harness("tall")
def tall(h):
    """Declarations of as many lines as the numbers the code mentions."""
    n = h.choose(h.sizes(0, 130))
    a, b = h.choose(("var x = [", "]\n"), ("param x object = {", "}\n"), ("resource r 'a/b@1' = {", "}\n"), ("@foo(", "1)\nvar x = 1\n"), ("resource r 'a/b@1' = {\n  resource c 'd' = {", "  }\n}\n"),
                    ("module m './m' = {", "}\n"), ("output o string = '''", "'''\n"), ("extension e with {", "}\n"), ("func f() object => {", "}\n"), ("type t = {", "}\n"))
    compare(h, a + "\n" * n + b)


@harness("small_values")
def small_values(h):
    """Small and nested values everywhere."""
    from props.c26 import ALL

    s, _ = spots.small(h)
    x, y, _ = ALL[h.choose(list(ALL))]
    compare(h, x + s + y)


def counted(h):
    """A text with some number of decorators, arguments, names, members, properties, levels or declarations."""
    n = h.choose([0, 1, 2, 3, 4, 5, 6] + h.sizes(7, 40))
    d = "".join("@d" + str(i) + "(1)\n" for i in range(n))
    names = ["n" + str(i) for i in range(n)]
    return h.choose("", "\n", "// c\n") + h.choose(
        *[d + x for x in ("param a string\n", "var a = k\n", "output a int = 1\n", "resource a 'b/c@1' = {\n}\n", "module a './m' = {\n}\n", "type a = b\n", "func a() int => 1\n")],
        "import { " + ", ".join(names) + " } from 'f'\n", "import {" + ", ".join(x + " as a" + x for x in names) + "} from 'f'\n",
        "".join("import '" + x + "'\n" for x in names), "".join("var " + x + " = 1\n" for x in names), "".join("import " + x + " from 'f'\nvar " + x + " = k\n" for x in names),
        "func a(" + ", ".join(x + " int" for x in names) + ") int => 1\n", "var a = foo(" + ", ".join(names) + ")\n",
        "param a (" + " | ".join(["b", "c"] + names) + ")\n", "param a b" + "[]" * n + "\n",
        "var a = [for i in k: {\n" + "".join(x + ": 1\n" for x in names) + "}]\n", "resource a 'b/c@1' = [for (i, j) in k: if (i) {\n" + "".join(x + ": 1\n" for x in names) + "}]\n", "module a './m' = if (k) {\n" + "".join(x + ": {\n}\n" for x in names) + "}\n",
        "var a = [for i in k: [\n" + "1\n" * n + "]]\n", "var a = [for i in [\n" + "1\n" * n + "]: i]\n", "var a = b => {\n" + "".join(x + ": b\n" for x in names) + "}\n", "var a = foo({\n" + "".join(x + ": 1\n" for x in names) + "})\n", "@foo({\n" + "".join(x + ": 1\n" for x in names) + "})\nvar a = k['x']\n",
        "type a = {\n" + "".join(x + ": 1\n" for x in names) + "}\n", "type a = " + " | ".join(["b", "c"] + names) + "\n", "func a() object => {\n" + "".join(x + ": 1\n" for x in names) + "}\n",
        "var a = {\n" + "".join(x + ": 1\n" for x in names) + "}\n", "var a = " + "[" * n + "k" + "]" * n + "\n", "var a = " + "(" * n + "k" + ")" * n + "\n",
        "var a = k" + "".join("." + x for x in names) + "\n", "var a = " + "".join(x + " => " for x in names) + "k\n",
        "extension a with {\n" + "".join(x + ": 1\n" for x in names) + "} as b\n",
        "".join("resource " + x + " 'y" + ("@1" if x == "n0" else "") + "' = {\n" for x in names) + "}\n" * n)

@harness("counts")
def counts(h):
    """Any number of decorators, arguments, names, members, properties, levels or declarations."""
    compare(h, counted(h))
